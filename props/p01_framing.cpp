// P01: stream framing. Real code: the framing encoders and decoders, the framed
// server / client / socket classes, Boost.Asio. Simulated: the sockets below them.
#include "common.hpp"
#include <ossia/network/sockets/framing.hpp>

using namespace ossia::net;
namespace
{
using msgs = std::vector<std::string>;
bool is_prefix(const msgs& a, const msgs& b)
{
  return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
}
void compare(const char* dir, const msgs& got, const msgs& sent, bool whole)
{
  size_t n = std::min(got.size(), sent.size());
  for(size_t i = 0; i < n; i++)
    SIM_CHECK(got[i] == sent[i], "framing-corrupt", "%s: message %zu is %s, sent %s", dir, i,
              h::hex(got[i]).c_str(), h::hex(sent[i]).c_str());
  SIM_CHECK(got.size() <= sent.size(), "framing-extra", "%s: %zu messages received, %zu sent", dir, got.size(),
            sent.size());
  if(whole)
    SIM_CHECK(got.size() == sent.size(), "framing-lost", "%s: %zu of %zu messages received on an intact stream",
              dir, got.size(), sent.size());
}
msgs make_msgs(size_t max_len)
{
  msgs m;
  size_t n = 1 + sim::choose(12);
  for(size_t i = 0; i < n; i++)
    m.push_back(h::random_payload(sim::chance(1, 400) ? 100000 : max_len));
  return m;
}
struct tcp_t
{
  static socket_configuration conf() { return {"127.0.0.1", 9000}; }
};
struct unix_t
{
  static fd_configuration conf() { return {"/tmp/sim.sock"}; }
};

template <typename Server, typename Client, typename T>
void both_ways()
{
  sim::net_random_faults();
  bool reset = sim::fault("connection_loss", 300);
  h::io_thread sio, cio;
  h::recorder at_server, at_client;
  Server server{T::conf(), sio.ctx};
  sio.sync([&] { server.listen([&](const char* d, size_t n) { at_server.add(d, n); }); });
  Client client{T::conf(), cio.ctx};
  client.connect();
  cio.sync([&] { client.receive([&](const char* d, size_t n) { at_client.add(d, n); }); });
  sim::settle(200000000);
  size_t len = sim::chance(1, 8) ? 20000 : 3000;
  auto up = make_msgs(len), down = make_msgs(len);
  msgs up_sent, down_sent;
  bool intact = true;
  std::thread w{[&] {
    for(auto& m : up)
    {
      try
      {
        if(sim::chance(1, 16))
          client.write("", 0); // is nothing, and changes nothing for the others
        { sim::oracle o; up_sent.push_back(m); }
        client.write(m.data(), m.size());
        if(sim::choose(4) == 1)
          sim::sleep_ns(sim::choose(2000000));
      }
      catch(const std::exception& e)
      {
        sim::log("client write: %s", e.what());
        break;
      }
    }
  }};
  for(size_t i = 0; i < down.size(); i++)
  {
    if(reset && i == down.size() / 2)
    {
      sim::reset_connections(9000);
      if(std::is_same_v<T, tcp_t>)
        intact = false;
    }
    try
    {
      { sim::oracle o; down_sent.push_back(down[i]); }
      sio.sync([&] {
        try { if(sim::chance(1, 16)) server.write("", 0); server.write(down[i].data(), down[i].size()); }
        catch(const std::exception& e) { sim::log("server write: %s", e.what()); }
      });
    }
    catch(...)
    {
    }
  }
  w.join();
  sim::settle(5000000000);
  compare("to server", at_server.copy(), up_sent, intact);
  compare("to client", at_client.copy(), down_sent, intact);
  // closing one side ends the other side's reading, and nothing else
  boost::asio::post(cio.ctx, [&] { boost::system::error_code ec; client.m_socket.close(ec); });
  sim::settle(2000000000);
  compare("to server", at_server.copy(), up_sent, intact);
  cio.stop();
  sio.stop();
  sim::settle(1000000);
}

// A peer that is not ours: raw bytes, with garbage first.
std::string slip(const std::string& m)
{
  std::string r("\xc0", 1);
  for(unsigned char c : m)
    if(c == 192)
      r += "\xdb\xdc";
    else if(c == 219)
      r += "\xdb\xdd";
    else
      r += c;
  return r + std::string("\xc0", 1);
}
void slip_garbage()
{
  sim::net_random_faults();
  h::io_thread sio;
  h::recorder got;
  tcp_slip_server server{tcp_t::conf(), sio.ctx};
  sio.sync([&] { server.listen([&](const char* d, size_t n) { got.add(d, n); }); });
  boost::asio::io_context c;
  boost::asio::ip::tcp::socket s{c};
  s.connect({boost::asio::ip::make_address("127.0.0.1"), 9000});
  // garbage: the middle of a frame, a bad escape, a truncated escape, noise
  std::string junk;
  unsigned kinds = 1 + sim::choose(3);
  for(unsigned i = 0; i < kinds; i++)
    switch(sim::choose(5))
    {
      case 0: junk += "tail-of-a-frame" + std::string("\xc0", 1); break;
      case 1: junk += std::string("\xc0", 1) + "bad\xdb" "x-escape" + std::string("\xc0", 1); break;
      case 2: junk += std::string("\xc0", 1) + "cut\xdb" + std::string("\xc0", 1); break;
      case 3: junk += std::string("\xc0\xc0\xc0\xc0\xc0", 1 + sim::choose(5)); break;
      case 4: junk += h::random_payload(50); break;
    }
  boost::asio::write(s, boost::asio::buffer(junk));
  sim::log("junk %s", h::hex(junk, 60).c_str());
  auto m = make_msgs(200);
  // the first frame may be lost to the noise before it; all the others must arrive
  m.insert(m.begin(), "first");
  for(auto& x : m)
  {
    auto e = slip(x);
    boost::asio::write(s, boost::asio::buffer(e));
  }
  sim::settle(5000000000);
  auto g = got.copy();
  msgs want(m.begin() + 1, m.end());
  SIM_CHECK(g.size() >= want.size() && std::equal(want.rbegin(), want.rend(), g.rbegin()), "slip-no-resync",
            "after %s, %zu well-formed frames, only %zu messages came out", h::hex(junk, 40).c_str(), m.size(),
            g.size());
  s.close();
  sim::settle(1000000000);
  sio.stop();
}
// A stream cut at an arbitrary byte: what was complete before is delivered, no more.
template <typename Server, bool Slip>
void cut_stream()
{
  sim::net_random_faults();
  h::io_thread sio;
  h::recorder got;
  Server server{tcp_t::conf(), sio.ctx};
  sio.sync([&] { server.listen([&](const char* d, size_t n) { got.add(d, n); }); });
  boost::asio::io_context c;
  boost::asio::ip::tcp::socket s{c};
  s.connect({boost::asio::ip::make_address("127.0.0.1"), 9000});
  auto m = make_msgs(300);
  std::string bytes;
  std::vector<size_t> ends;
  for(auto& x : m)
  {
    if(Slip)
      bytes += slip(x);
    else
    {
      uint32_t n = x.size();
      char b[4] = {char(n >> 24), char(n >> 16), char(n >> 8), char(n)};
      bytes += std::string(b, 4) + x;
    }
    ends.push_back(bytes.size());
  }
  size_t cut = sim::choose(bytes.size() + 1);
  bool rst = sim::fault("tcp_reset_at_cut", 400);
  boost::asio::write(s, boost::asio::buffer(bytes.data(), cut));
  size_t complete = 0;
  for(auto e : ends)
    complete += e <= cut;
  sim::log("%zu of %zu bytes, %zu complete messages, %s", cut, bytes.size(), complete, rst ? "reset" : "closed");
  if(rst)
  {
    if(sim::choose(2))
      sim::settle(1000000000);
    sim::reset_connections(9000);
  }
  boost::system::error_code ec;
  s.close(ec);
  sim::settle(5000000000);
  auto g = got.copy();
  msgs want(m.begin(), m.begin() + complete);
  compare("cut stream", g, want, !rst);
  sio.stop();
}
}
SIM_SCENARIO("P01", tcp_size) { both_ways<tcp_size_prefix_server, tcp_size_prefix_client, tcp_t>(); }
SIM_SCENARIO("P01", tcp_slip) { both_ways<tcp_slip_server, tcp_slip_client, tcp_t>(); }
SIM_SCENARIO("P01", unix_size) { both_ways<unix_stream_size_prefix_server, unix_stream_size_prefix_client, unix_t>(); }
SIM_SCENARIO("P01", unix_slip) { both_ways<unix_stream_slip_server, unix_stream_slip_client, unix_t>(); }
SIM_SCENARIO("P01", slip_noise, 2) { slip_garbage(); }
SIM_SCENARIO("P01", cut_size) { cut_stream<tcp_size_prefix_server, false>(); }
SIM_SCENARIO("P01", cut_slip) { cut_stream<tcp_slip_server, true>(); }
