// analysis unit: identifiers (default values are folded by the compiler)
#include "core/GlobalFederateId.hpp"
#include "core/LocalFederateId.hpp"
namespace witness {
int LocalFederateId() { return helics::LocalFederateId().baseValue(); }
int InterfaceHandle() { return helics::InterfaceHandle().baseValue(); }
int GlobalBrokerId() { return helics::GlobalBrokerId().baseValue(); }
int GlobalFederateId() { return helics::GlobalFederateId().baseValue(); }
int route_id() { return helics::route_id().baseValue(); }
int fedShift() { return helics::gGlobalFederateIdShift; }
int brokerShift() { return helics::gGlobalBrokerIdShift; }
int root() { return helics::gRootBrokerID.baseValue(); }
int localCore() { return helics::gLocalCoreId.baseValue(); }
int directSend() { return helics::gDirectSendHandle.baseValue(); }
int directCore() { return helics::gDirectCoreId.baseValue(); }
int parentBroker() { return helics::parent_broker_id.baseValue(); }
int parentRoute() { return helics::parent_route_id.baseValue(); }
int controlRoute() { return helics::control_route.baseValue(); }
unsigned long useHash(helics::GlobalHandle h, helics::LocalFederateId l, helics::InterfaceHandle i, helics::GlobalFederateId f, helics::GlobalBrokerId b, helics::route_id r)
{
    return std::hash<helics::GlobalHandle>{}(h) + std::hash<helics::LocalFederateId>{}(l) + std::hash<helics::InterfaceHandle>{}(i) +
        std::hash<helics::GlobalFederateId>{}(f) + std::hash<helics::GlobalBrokerId>{}(b) + std::hash<helics::route_id>{}(r);
}
}  // namespace witness
