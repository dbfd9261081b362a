#pragma once
#include <oscpack/osc/OscPrintReceivedElements.h>
namespace oscpack
{
inline std::ostream& debug(std::ostream& os, const ReceivedMessage& m) { return os << m; }
}
