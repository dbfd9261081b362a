#pragma once
#include <oscpack/osc/OscReceivedElements.h>
#include <ostream>
namespace oscpack
{
std::ostream& operator<<(std::ostream& os, const ReceivedPacket& p);
std::ostream& operator<<(std::ostream& os, const ReceivedMessageArgument& arg);
std::ostream& operator<<(std::ostream& os, const ReceivedMessage& m);
std::ostream& operator<<(std::ostream& os, const ReceivedBundle& b);
}
#include <fmt/ostream.h>
template <> struct fmt::formatter<oscpack::ReceivedMessage> : fmt::ostream_formatter { };
template <> struct fmt::formatter<oscpack::ReceivedPacket> : fmt::ostream_formatter { };
template <> struct fmt::formatter<oscpack::ReceivedBundle> : fmt::ostream_formatter { };
