#pragma once
#include "addressOperations.hpp"
namespace gmlc::networking {
inline std::string getLocalExternalAddressV4() { return "127.0.0.1"; }
inline std::string getLocalExternalAddress(std::string_view) { return "127.0.0.1"; }
inline std::string getLocalExternalAddress(std::string_view, InterfaceNetworks) { return "127.0.0.1"; }
inline std::string generateMatchingInterfaceAddress(std::string_view server, InterfaceNetworks network = InterfaceNetworks::LOCAL) { (void)network; return std::string(server); }
inline std::vector<std::string> getInterfaceAddressesAll() { return {"127.0.0.1"}; }
}  // namespace gmlc::networking
