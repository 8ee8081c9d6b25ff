// instantiates the flag helpers for messages
#include "helics/core/ActionMessage.hpp"
#include "helics/core/flagOperations.hpp"
namespace witness {
void setFlag(helics::ActionMessage& m, unsigned int f) { helics::setActionFlag(m, f); }
void clearFlag(helics::ActionMessage& m, unsigned int f) { helics::clearActionFlag(m, f); }
void toggleFlag(helics::ActionMessage& m, unsigned int f) { helics::toggleActionFlag(m, f); }
bool checkFlag(const helics::ActionMessage& m, unsigned int f) { return helics::checkActionFlag(m, f); }
bool checkWord(unsigned short m, unsigned int f) { return helics::checkActionFlag(m, f); }
}  // namespace witness
