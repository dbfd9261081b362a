// P11: whatever bytes arrive, a device goes on and only what well-formed messages address changes.
#include "osc_common.hpp"
#include <ossia/network/base/node_functions.hpp>
#include <set>

namespace
{
void be32(std::string& s, uint32_t v)
{
  for(int i = 24; i >= 0; i -= 8)
    s += char(v >> i);
}
void pad(std::string& s, const std::string& t)
{
  s += t;
  s.append(4 - t.size() % 4, 0);
}

struct attack
{
  uint32_t x = 1;
  uint32_t next(uint32_t n)
  {
    x = x * 1664525u + 1013904223u;
    return (x >> 8) % n;
  }
  // mostly little
  uint32_t few(uint32_t n) { return next(next(8) ? std::min(n, 40u) : n); }
  std::string address()
  {
    static const char* a[] = {"/victim/i", "/victim/f", "/victim/s", "/victim/l", "/victim/v3", "/victim/b", "/victim/c", "/victim/n", "/victim",
                              "/victim/*", "/victim/?", "/victim/[a-f]", "/victim/{i,f}", "/victim//i", "/victim/!", "/victim/i!", "/victim/../victim/i",
                              "/victim/[", "/victim/{", "/victim/[!a]", "/victim/\\", "/victim/{1..3}", "/victim/{1..3..2}", "/victim/(", "/victim/i.1",
                              "/victim/", "victim", "/", "//victim/i", "/victim/]", "/victim/}{", "/victim/*?*", "/victim/{i,{f,s}}", "/victim/[z-a]",
                              "/victim/{9999999999999..1}", "/victim/$", "/victim/^i", "/victim/i f"};
    switch(next(24))
    {
      case 0: {
        // the time it takes to match several wildcards is not in question here
        char c = "{[*(?a,!."[next(9)];
        return "/victim/" + std::string(1 + (strchr("*?!", c) ? next(3) : few(60000)), c);
      }
      case 1: return "/victim/{" + std::to_string(next(9)) + ".." + std::to_string(next(2000000000)) + "}";
      case 2: return "/victim/{" + std::to_string(next(9)) + ".." + std::to_string(next(9)) + "..-" + std::to_string(next(5)) + "}";
      case 3: {
        std::string s = "/victim";
        for(unsigned i = few(3000); i-- > 0;)
          s += next(8) ? "/a" : "/..";
        return s;
      }
      case 4: {
        std::string s = "/victim/";
        for(unsigned i = next(12); i-- > 0;)
          s += char(1 + next(255));
        return s;
      }
      case 5: return "/victim/{0..100000000..7}";
      default: return a[next(std::size(a))];
    }
  }
  std::string message()
  {
    std::string s, tags = ",", args;
    pad(s, address());
    if(next(30) == 0)
    {
      // arrays in arrays
      unsigned n = 1 + few(25000);
      tags += std::string(n, '[') + std::string(n, ']');
    }
    else
      for(unsigned i = next(6); i-- > 0;)
      {
        char t = "ifsbhtdScrmTFNI[]q"[next(18)];
        tags += t;
        switch(t)
        {
          case 'i': case 'f': case 'c': case 'r': case 'm': be32(args, next(3) ? next(1 << 24) << next(9) : (next(2) ? 0x7FC00000u : 0x7F800000u)); break;
          case 'h': case 't': case 'd': be32(args, next(1 << 24) << next(9)); be32(args, next(1 << 24)); break;
          case 's': case 'S': pad(args, std::string(next(20), char(1 + next(255)))); break;
          case 'b': {
            unsigned n = next(20);
            be32(args, next(4) ? n : next(1 << 24) << next(9));
            args += std::string((n + 3) / 4 * 4, char(next(256)));
            break;
          }
        }
      }
    pad(s, tags);
    return s + args;
  }
  std::string bundle(int depth)
  {
    std::string s;
    pad(s, "#bundle");
    be32(s, 0);
    be32(s, 1);
    for(unsigned i = 1 + next(3); i-- > 0;)
    {
      auto e = depth > 0 && next(2) ? bundle(depth - 1) : message();
      if(s.size() + e.size() > 60000)
        break;
      be32(s, next(20) ? e.size() : next(1 << 24) << next(9));
      s += e;
    }
    return s;
  }
  std::string packet()
  {
    std::string s;
    switch(next(12))
    {
      case 0: {
        for(unsigned i = 1 + next(200); i-- > 0;)
          s += char(next(256));
        return s;
      }
      case 1: case 2: s = bundle(3); break;
      case 3: {
        // bundles in bundles
        s = message();
        for(unsigned i = few(2500); i-- > 0 && s.size() < 60000;)
        {
          std::string o;
          pad(o, "#bundle");
          be32(o, 0);
          be32(o, 1);
          be32(o, s.size());
          s = o + s;
        }
        break;
      }
      default: s = message(); break;
    }
    if(s.size() > 60000)
      s.resize(60000);
    switch(next(5))
    {
      case 0: s.resize(next(s.size() + 1)); break;
      case 1: s.resize(next(s.size() / 4 + 1) * 4); break;
      case 2:
        // not in the part which says whom it is for
        for(unsigned i = 1 + next(4); i-- > 0;)
          if(s.size() > 24)
            s[20 + next(s.size() - 20)] ^= 1 << next(8);
        break;
      case 3: s += std::string(next(9), char(next(256))); break;
      default: break;
    }
    return s;
  }
  std::string frame(int tr, const std::string& p)
  {
    std::string s;
    switch(tr)
    {
      case TCP_SIZE: case UNIX_SIZE:
        switch(next(10))
        {
          case 0: be32(s, 0); break;
          case 1: be32(s, 0x80000000u | next(1 << 24)); break;
          case 2: be32(s, next(2) ? next(1 << 20) : 0x40000000 + next(1 << 24)); break;
          default: be32(s, p.size()); break;
        }
        return s + p;
      case TCP_SLIP: case UNIX_SLIP:
        if(next(8))
          s += char(192);
        for(unsigned char c : p)
        {
          if(c == 192) s += "\xdb\xdc";
          else if(c == 219) s += "\xdb\xdd";
          else s += c;
          if(next(400) == 0)
            s += "\xdb\xc0\xdb\x01"[next(4)];
        }
        if(next(8))
          s += char(192);
        return s;
      case WS: {
        s += char(next(6) ? 0x82 : next(256));
        bool mask = next(8);
        size_t n = next(10) ? p.size() : next(1 << 24);
        if(n < 126)
          s += char((mask ? 0x80 : 0) | n);
        else if(n < 65536)
        {
          s += char((mask ? 0x80 : 0) | 126);
          s += char(n >> 8);
          s += char(n);
        }
        else
        {
          s += char((mask ? 0x80 : 0) | 127);
          be32(s, next(3) ? 0 : next(1 << 24) << 8);
          be32(s, n);
        }
        std::string k = mask ? std::string{char(next(256)), char(next(256)), char(next(256)), char(next(256))} : std::string(4, 0);
        if(mask)
          s += k;
        for(size_t i = 0; i < p.size(); i++)
          s += char(p[i] ^ k[i % 4]);
        return s;
      }
      default: return p;
    }
  }
  std::string http()
  {
    switch(next(9))
    {
      case 0: return "GET /" + std::string(few(30000), 'a') + " HTTP/1.1\r\n\r\n";
      case 1: return "GET / HTTP/1.1\r\n" + std::string("A: ") + std::string(few(40000), 'b') + "\r\n\r\n";
      case 2: return "POST /victim HTTP/1.0\r\nContent-Length: 99999999999999\r\n\r\n";
      case 3: return "\r\n\r\n\r\n";
      case 4: return "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 99\r\n\r\n";
      case 5: return "GET http://[::::1 HTTP/1.1\r\nHost: [\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: x\r\nSec-WebSocket-Version: 13\r\n\r\n";
      case 6: {
        std::string s;
        for(unsigned i = next(300); i-- > 0;)
          s += char(next(256));
        return s + "\r\n\r\n";
      }
      default:
        return "GET / HTTP/1.1\r\nHost: localhost:9000\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
    }
  }
};

// writes what the other side is willing to take
void put(auto& s, const std::string& f)
{
  s.non_blocking(true);
  size_t n = 0;
  for(int tries = 0; n < f.size() && tries < 50;)
  {
    boost::system::error_code ec;
    n += s.write_some(boost::asio::buffer(f.data() + n, f.size() - n), ec);
    if(!ec)
      continue;
    if(ec != boost::asio::error::would_block)
      throw boost::system::system_error(ec);
    sim::sleep_ns(1000000);
    tries++;
  }
}
void hostile(int tr)
{
  sim::net_random_faults();
  sim::step_limit(20000000);
  auto& n = sim::net();
  n.udp_corrupt = 0;
  n.udp_loss = n.udp_dup = n.udp_reorder = n.lat_jitter_us = 0;
  n.tcp_reset = 0;
  n.accept_error = 0;
  n.send_error = 0;
  n.tcp_buffer = 65536;
  n.segment = std::min(n.segment, 20u);
  n.short_read = std::min(n.short_read, 20u);
  n.short_write = std::min(n.short_write, 20u);
  int version = sim::choose(3);
  runner run[3];
  bool with_peer = tr != UDP && tr != UNIX_DGRAM;
  auto proto = net::make_osc_protocol(run[0].ctx, configuration(tr, true, version));
  auto* host_proto = proto.get();
  (void)host_proto;
  net::generic_device host{std::move(proto), "host"};
  std::vector<net::parameter_base*> victims;
  for(auto [t, nm] : types)
  {
    if(!strcmp(nm, "v2") || !strcmp(nm, "v4"))
      continue;
    auto* p = net::create_node(host, std::string("/victim/") + nm).create_parameter(t);
    if(t == val_type::INT && sim::choose(2))
    {
      p->set_domain(make_domain(-10, 10));
      p->set_bounding(bounding_mode::CLIP);
    }
    if(sim::choose(2))
      p->add_callback([](const value&) {});
    victims.push_back(p);
  }
  auto* safe = net::create_node(host, "/safe/i").create_parameter(val_type::INT);
  std::vector<int> got, sent;
  safe->add_callback([&](const value& v) {
    sim::oracle o;
    got.push_back(v.target<int>() ? *v.target<int>() : -1);
    sim::log("safe %d", got.back());
  });
  auto count_nodes = [&] { return net::list_all_children(&host.get_root_node()).size(); };
  auto nodes = count_nodes();
  run[0].start();
  // a peer which does what it should
  std::unique_ptr<net::generic_device> peer;
  net::parameter_base* good{};
  run[1].start();
  peer = std::make_unique<net::generic_device>(net::make_osc_protocol(run[1].ctx, configuration(tr, false, version)), "peer");
  good = net::create_node(*peer, "/safe/i").create_parameter(val_type::INT);
  sim::settle(5000000000ull);
  attack a;
  a.x = sim::choose(1 << 30);
  std::thread bad{[&] {
    boost::asio::io_context ctx;
    for(int conn = 1 + sim::choose(4); conn-- > 0;)
    {
      try
      {
        int count = 1 + sim::choose(8);
        auto pieces = [&](auto& s) {
          if(tr == WS)
          {
            auto h = a.http();
            put(s, h);
            if(sim::choose(2))
            {
              char b[600];
              boost::system::error_code ec;
              sim::sleep_ns(5000000);
              s.read_some(boost::asio::buffer(b), ec);
            }
          }
          for(int i = 0; i < count; i++)
          {
            auto f = a.frame(tr, a.packet());
            put(s, f);
            sim::sleep_ns(sim::choose(500000));
          }
          sim::sleep_ns(sim::choose(2000000));
        };
        switch(tr)
        {
          case UDP: {
            using udp = boost::asio::ip::udp;
            udp::socket s{ctx, udp::v4()};
            for(int i = 0; i < count; i++)
            {
              auto p = a.packet();
              s.send_to(boost::asio::buffer(p), udp::endpoint{boost::asio::ip::make_address("127.0.0.1"), 9000});
              sim::sleep_ns(sim::choose(500000));
            }
            break;
          }
          case UNIX_DGRAM: {
            using unx = boost::asio::local::datagram_protocol;
            unx::socket s{ctx, unx{}};
            for(int i = 0; i < count; i++)
            {
              auto p = a.packet();
              s.send_to(boost::asio::buffer(p), unx::endpoint{"/tmp/simA9000"});
              sim::sleep_ns(sim::choose(500000));
            }
            break;
          }
          case UNIX_SIZE:
          case UNIX_SLIP: {
            boost::asio::local::stream_protocol::socket s{ctx};
            s.connect(boost::asio::local::stream_protocol::endpoint{"/tmp/simS9000"});
            pieces(s);
            break;
          }
          default: {
            boost::asio::ip::tcp::socket s{ctx};
            s.connect({boost::asio::ip::make_address("127.0.0.1"), 9000});
            pieces(s);
            break;
          }
        }
      }
      catch(const boost::system::system_error&)
      {
        // the device may close the connection
      }
    }
  }};
  int rounds = 1 + sim::choose(12);
  for(int i = 0; i < rounds; i++)
  {
    {
      sim::oracle o;
      sent.push_back(i);
    }
    good->push_value(i);
    sim::sleep_ns(sim::choose(1000000));
  }
  bad.join();
  sim::settle(20000000000ull);
  // and afterwards
  for(int i = 0; i < 3; i++)
  {
    {
      sim::oracle o;
      sent.push_back(1000 + i);
    }
    good->push_value(1000 + i);
  }
  sim::settle(20000000000ull);
  run[0].stop();
  run[1].stop();
  (void)with_peer;
  for(size_t i = 0; i < std::min(got.size(), sent.size()); i++)
    SIM_CHECK(got[i] == sent[i], "hostile-peer", "%s: message %zu of the peer is %d, sent as %d", tname[tr], i, got[i], sent[i]);
  SIM_CHECK(got.size() == sent.size(), "hostile-peer", "%s: %zu messages of the peer received, %zu sent", tname[tr], got.size(), sent.size());
  SIM_CHECK(count_nodes() == nodes, "hostile-nodes", "%s: %zu nodes, there were %zu", tname[tr], count_nodes(), nodes);
  for(auto* p : victims)
  {
    auto v = p->value();
    SIM_CHECK(v.get_type() == p->get_value_type(), "hostile-type", "%s holds a value of type %d", net::osc_parameter_string(*p).c_str(), (int)v.get_type());
    if(auto i = v.target<int>(); i && p->get_domain())
      SIM_CHECK(*i >= -10 && *i <= 10, "hostile-domain", "%s holds %d", net::osc_parameter_string(*p).c_str(), *i);
  }
}
}
SIM_SCENARIO("P11", hostile_udp, 4) { hostile(UDP); }
SIM_SCENARIO("P11", hostile_dgram) { hostile(UNIX_DGRAM); }
SIM_SCENARIO("P11", hostile_tcp_size) { hostile(TCP_SIZE); }
SIM_SCENARIO("P11", hostile_tcp_slip) { hostile(TCP_SLIP); }
SIM_SCENARIO("P11", hostile_unix_size) { hostile(UNIX_SIZE); }
SIM_SCENARIO("P11", hostile_unix_slip) { hostile(UNIX_SLIP); }
SIM_SCENARIO("P11", hostile_ws, 2) { hostile(WS); }
