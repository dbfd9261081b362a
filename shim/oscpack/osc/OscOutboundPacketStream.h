#pragma once
#include <oscpack/osc/OscTypes.h>
#include <oscpack/osc/OscException.h>
#include <string>
#define osc oscpack
#include "/usr/include/oscpack/osc/OscOutboundPacketStream.h"
#undef osc
namespace oscpack
{
inline OutboundPacketStream& operator<<(OutboundPacketStream& s, const BeginMessageN& m)
{
  const std::string tmp(m.addressPattern);
  return s << BeginMessage(tmp.c_str());
}
inline OutboundPacketStream& operator<<(OutboundPacketStream& s, std::string_view m)
{
  const std::string tmp(m);
  return s << tmp.c_str();
}
inline OutboundPacketStream& operator<<(OutboundPacketStream& s, const std::string& m)
{
  return s << m.c_str();
}
}
