// OSC devices: shared by the properties about them
#pragma once
#include "common.hpp"
#include <ossia/network/context.hpp>
#include <ossia/network/context_functions.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/base/parameter_data.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/common/extended_types.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/value/format_value.hpp>
#include <ossia/network/domain/domain.hpp>
#include <ossia/protocols/osc/osc_factory.hpp>
#include <map>
#include <optional>

using namespace ossia;
using conf = ossia::net::osc_protocol_configuration;
namespace
{
enum transport_t { UDP, UNIX_DGRAM, TCP_SIZE, TCP_SLIP, UNIX_SIZE, UNIX_SLIP, WS, N_TRANSPORTS };
const char* tname[] = {"udp", "unix-dgram", "tcp-size", "tcp-slip", "unix-size", "unix-slip", "ws"};
bool framed(int t) { return t >= TCP_SIZE && t != WS; }

std::string str(const value& v)
{
  auto s = value_to_pretty_string(v);
  return s.size() > 60 ? s.substr(0, 60) + "..(" + std::to_string(s.size()) + ")" : s;
}

// a context run by its own thread
struct runner
{
  net::network_context_ptr ctx = std::make_shared<net::network_context>();
  std::thread t;
  void start()
  {
    t = std::thread{[c = ctx] { c->run(); }};
  }
  void stop()
  {
    ctx->context.stop();
    if(t.joinable())
      t.join();
  }
};

conf configuration(int tr, bool host, int version, int port = 9000)
{
  const auto sock = [port](const char* b) { return std::string("/tmp/sim") + b + std::to_string(port); };
  conf c;
  c.mode = host ? conf::HOST : conf::MIRROR;
  c.version = version == 0 ? conf::OSC1_0 : version == 1 ? conf::OSC1_1 : conf::EXTENDED;
  c.framing = tr == TCP_SIZE || tr == UNIX_SIZE ? conf::SIZE_PREFIX : conf::SLIP;
  switch(tr)
  {
    case UDP: {
      net::udp_configuration u;
      u.local = net::receive_socket_configuration{{"127.0.0.1", uint16_t(host ? port : port + 1)}};
      u.remote = net::send_socket_configuration{{"127.0.0.1", uint16_t(host ? port + 1 : port)}};
      c.transport = u;
      break;
    }
    case UNIX_DGRAM: {
      net::unix_dgram_configuration u;
      u.local = net::receive_fd_configuration{{sock(host ? "A" : "B")}};
      u.remote = net::send_fd_configuration{{sock(host ? "B" : "A")}};
      c.transport = u;
      break;
    }
    case TCP_SIZE:
    case TCP_SLIP: c.transport = net::tcp_configuration{{"127.0.0.1", uint16_t(port)}}; break;
    case UNIX_SIZE:
    case UNIX_SLIP: c.transport = net::unix_stream_configuration{{sock("S")}}; break;
    case WS:
      if(host)
        c.transport = net::ws_server_configuration{port};
      else
        c.transport = net::ws_client_configuration{"ws://127.0.0.1:" + std::to_string(port)};
      break;
  }
  return c;
}

std::string text(size_t n)
{
  std::string s(n, 'a');
  uint32_t x = sim::choose(1 << 30);
  for(auto& c : s)
  {
    x = x * 1664525u + 1013904223u;
    c = 1 + (x >> 24) % 255;
  }
  return s;
}

value random_value(val_type t, int version, bool big)
{
  switch(t)
  {
    case val_type::INT: return (int)sim::choose(1u << 31) - (1 << 30);
    case val_type::FLOAT: return float((int)sim::choose(2000001) - 1000000) / 64.f;
    case val_type::BOOL: return bool(sim::choose(2));
    case val_type::CHAR: return (char)sim::choose(256);
    case val_type::IMPULSE: return impulse{};
    case val_type::STRING:
      if(big && sim::chance(1, 4))
        return text(4000 + sim::choose(56000));
      return text(sim::choose(40));
    case val_type::VEC2F: return make_vec((float)(int)sim::choose(1000), -2.5f);
    case val_type::VEC3F: return make_vec((float)(int)sim::choose(1000), 0.125f, 3.f);
    case val_type::VEC4F: return make_vec((float)(int)sim::choose(1000), 0.5f, -1.f, 1e20f);
    default: {
      std::vector<value> l;
      int n = 1 + (big && sim::chance(1, 3) ? sim::choose(12000) : sim::choose(12));
      int kinds = version == 0 ? 3 : version == 1 ? 5 : 7;
      uint32_t x = sim::choose(1 << 30);
      size_t room = 60000;
      for(int i = 0; i < n; i++)
      {
        x = x * 1664525u + 1013904223u;
        unsigned r = x >> 8;
        size_t before = room;
        switch(r % kinds)
        {
          case 0: l.push_back(int(r)); room -= 5; break;
          case 1: l.push_back(float(r % 1000) / 8.f); room -= 5; break;
          case 2: l.push_back(std::string(r % 9, char('a' + r % 26))); room -= 14; break;
          case 3: l.push_back(bool(r & 64)); room -= 1; break;
          case 4: l.push_back(impulse{}); room -= 1; break;
          case 5: l.push_back(char(r >> 3)); room -= 5; break;
          case 6: {
            std::vector<value> sub;
            for(unsigned k = 0; k < (r >> 4) % 3; k++)
              sub.push_back(int(k + r % 100));
            if(r & 0x10000)
              sub.push_back(std::vector<value>{1.5f, std::string("x")});
            l.push_back(sub);
            room -= 40;
            break;
          }
        }
        if(room > before || room < 100)
          break;
      }
      return l;
    }
  }
}

const std::pair<val_type, const char*> types[] = {
    {val_type::INT, "i"},     {val_type::FLOAT, "f"}, {val_type::STRING, "s"}, {val_type::LIST, "l"}, {val_type::BOOL, "b"},
    {val_type::VEC2F, "v2"},  {val_type::VEC3F, "v3"}, {val_type::VEC4F, "v4"}, {val_type::CHAR, "c"}, {val_type::IMPULSE, "n"}};

// an impulse equals everything
bool same(const value& a, const value& b)
{
  return a == b && value_to_pretty_string(a) == value_to_pretty_string(b);
}

// nothing but what was sent; in order unless the network reorders; once unless it duplicates; all
// unless it loses
void compare(const char* tr, const std::string& path, const std::vector<value>& sent, const std::vector<value>& got, const char* what, bool lossy, bool reorder, bool dup)
{
  if(!lossy && !reorder && !dup)
  {
    size_t n = std::min(got.size(), sent.size());
    for(size_t i = 0; i < n; i++)
      SIM_CHECK(same(got[i], sent[i]), "osc-value", "%s %s: message %zu of %s is %s, sent as %s", tr, what, i, path.c_str(), str(got[i]).c_str(),
                str(sent[i]).c_str());
    SIM_CHECK(got.size() == sent.size(), got.size() < sent.size() ? "osc-lost" : "osc-extra", "%s %s: %zu messages of %s, %zu were sent",
              tr, what, got.size(), path.c_str(), sent.size());
    return;
  }
  if(!reorder && !dup)
  {
    size_t k = 0;
    for(auto& v : got)
    {
      while(k < sent.size() && !same(sent[k], v))
        k++;
      SIM_CHECK(k < sent.size(), "osc-value", "%s %s: %s received for %s, not sent or not in this order", tr, what, str(v).c_str(), path.c_str());
      k++;
    }
    return;
  }
  std::vector<int> left(sent.size(), 1);
  for(auto& v : got)
  {
    bool found = false;
    for(size_t i = 0; i < left.size() && !found; i++)
      if(left[i] && same(sent[i], v))
      {
        found = true;
        if(!dup)
          left[i] = 0;
      }
    SIM_CHECK(found, "osc-value", "%s %s: %s received for %s, not sent%s", tr, what, str(v).c_str(), path.c_str(), dup ? "" : " that often");
  }
}
}
