// P02: one server, several clients, several writing threads.
#include "common.hpp"
#include <ossia/network/sockets/framing.hpp>
#include <ossia/network/sockets/websocket.hpp>
#include <map>
#include <optional>

using namespace ossia::net;
namespace
{
struct tcp_t
{
  static socket_configuration conf() { return {"127.0.0.1", 9000}; }
};
struct unix_t
{
  static fd_configuration conf() { return {"/tmp/sim.sock"}; }
};
// "<thread>:<n>:<filler>"
std::string make(int th, int n)
{
  std::string s = std::to_string(th) + ":" + std::to_string(n) + ":";
  size_t fill = sim::choose(4) == 1 ? sim::choose(3000) : sim::choose(30);
  for(size_t i = 0; i < fill; i++)
    s += i % 7 == 3 ? '\xc0' : i % 11 == 5 ? '\xdb' : char('a' + (th * 5 + n + i) % 26);
  return s;
}
// per writing thread: what was received is a contiguous run of what was sent; all of it when whole
void check(const char* who, const std::vector<std::string>& got, const std::vector<std::vector<std::string>>& sent,
           const std::vector<size_t>& from, bool whole)
{
  std::vector<int> pos(sent.size(), -1);
  for(auto& m : got)
  {
    int th = m.size() > 1 && m[1] == ':' ? m[0] - '0' : -1;
    SIM_CHECK(th >= 0 && th < (int)sent.size(), "fanout-corrupt", "%s: received %s, never sent", who, h::hex(m).c_str());
    size_t n = 0;
    for(; n < sent[th].size(); n++)
      if(sent[th][n] == m)
        break;
    SIM_CHECK(n < sent[th].size(), "fanout-corrupt", "%s: received %s, never sent", who, h::hex(m).c_str());
    if(pos[th] >= 0)
      SIM_CHECK((int)n == pos[th] + 1, "fanout-order", "%s: message %zu of thread %d received after message %d", who, n, th, pos[th]);
    else
      SIM_CHECK(n <= from[th], "fanout-lost", "%s: first message of thread %d is %zu, connected before message %zu", who, th, n,
                from[th]);
    pos[th] = n;
  }
  if(whole)
    for(size_t th = 0; th < sent.size(); th++)
      if(from[th] < sent[th].size())
        SIM_CHECK(pos[th] == (int)sent[th].size() - 1, "fanout-lost", "%s: the last message of thread %zu is %d, %zu were sent", who, th,
                  pos[th], sent[th].size());
}

template <typename Server, typename Client, typename T>
void fanout()
{
  sim::net_random_faults();
  sim::net().tcp_reset = 0;
  sim::net().accept_error = sim::fault("accept_error", 500) ? 200 : 0;
  sim::net().accept_again = sim::fault("accept_again", 300) ? 200 : 0;
  h::io_thread sio, cio;
  auto server = std::make_unique<Server>(T::conf(), sio.ctx);
  std::map<int, std::vector<std::string>> up_got; // by client
  h::recorder at_server;
  sio.sync([&] { server->listen([&](const char* d, size_t n) { at_server.add(d, n); }); });

  struct client_t
  {
    std::unique_ptr<Client> c;
    h::recorder got;
    bool broken = false;
    std::vector<size_t> from;
    bool ok = false;
  };
  int nth = 1 + sim::choose(3);
  std::vector<std::vector<std::string>> sent(nth);
  int nclients = 1 + sim::choose(4);
  std::vector<client_t> cl(nclients);
  auto connect = [&](client_t& c) {
    c.c = std::make_unique<Client>(T::conf(), cio.ctx);
    try
    {
      c.c->connect();
    }
    catch(const std::exception& e)
    {
      sim::log("connect: %s", e.what());
      return;
    }
    cio.sync([&] { c.c->receive([&c](const char* d, size_t n) { c.got.add(d, n); }); });
    c.ok = true;
  };
  int late = sim::choose(nclients + 1); // these connect while messages are sent
  for(int i = late; i < nclients; i++)
    connect(cl[i]);
  sim::settle(500000000);
  for(int i = late; i < nclients; i++)
    cl[i].from.assign(nth, 0);
  for(int i = 0; i < late; i++)
    cl[i].from.assign(nth, SIZE_MAX);
  std::vector<int> counts(nth);
  for(auto& c : counts)
    c = 1 + sim::choose(8);
  std::vector<std::vector<std::string>> msgs(nth);
  for(int t = 0; t < nth; t++)
    for(int k = 0; k < counts[t]; k++)
      msgs[t].push_back(make(t, k));
  std::vector<std::thread> th;
  for(int t = 0; t < nth; t++)
    th.emplace_back([&, t] {
      for(auto& m : msgs[t])
      {
        {
          sim::oracle o;
          sent[t].push_back(m);
        }
        try
        {
          server->write(m.data(), m.size());
        }
        catch(const std::exception& e)
        {
          // nobody asked for a broken client to fail the write for the others
          sim::log("server write: %s", e.what());
        }
        if(sim::choose(3) == 1)
          sim::sleep_ns(sim::choose(3000000));
      }
    });
  // meanwhile clients come, go and break
  for(int i = 0; i < late; i++)
  {
    sim::sleep_ns(sim::choose(3000000));
    connect(cl[i]);
    if(sim::settle(0), sim::chance(1, 2))
      sim::sleep_ns(20000000);
  }
  for(auto& c : cl)
    if(c.ok && nclients > 1 && sim::fault("client_leaves", 300))
    {
      c.broken = true;
      bool abrupt = sim::fchoose(2);
      cio.sync([&] {
        boost::system::error_code ec;
        if(abrupt)
          c.c->m_socket.set_option(boost::asio::socket_base::linger(true, 0), ec);
        c.c->m_socket.close(ec);
      });
      sim::sleep_ns(sim::choose(2000000));
    }
  for(auto& t : th)
    t.join();
  sim::settle(5000000000);
  // one more round once everything is quiet
  std::vector<size_t> mark(nth);
  for(int t = 0; t < nth; t++)
  {
    mark[t] = sent[t].size();
    auto m = make(t, 500);
    sent[t].push_back(m);
    try
    {
      server->write(m.data(), m.size());
    }
    catch(const std::exception& e)
    {
      sim::fail("fanout-throws", "a broken client made the write to the others fail: %s", e.what());
    }
  }
  sim::settle(5000000000);
  for(int i = 0; i < nclients; i++)
    if(cl[i].ok)
    {
      char who[32];
      snprintf(who, sizeof who, "client %d", i);
      auto from = cl[i].from;
      if(i < late)
        from = mark; // connected at the latest by then
      // a late client may start anywhere before that
      // a connection which could not be accepted is no client
      bool refused = sim::net().accept_error && cl[i].got.size() == 0;
      check(who, cl[i].got.copy(), sent, from, !cl[i].broken && !refused);
    }
  cio.stop();
  for(auto& c : cl)
    c.c.reset();
  sio.stop();
  server.reset();
}

// several threads write through one client
template <typename Server, typename Client, typename T>
void shared_client()
{
  sim::net_random_faults();
  sim::net().tcp_reset = 0;
  h::io_thread sio, cio;
  Server server{T::conf(), sio.ctx};
  h::recorder got;
  sio.sync([&] { server.listen([&](const char* d, size_t n) { got.add(d, n); }); });
  Client client{T::conf(), cio.ctx};
  client.connect();
  if(sim::choose(2))
    cio.sync([&] { client.receive([&](const char* d, size_t n) { }); });
  int nth = 2 + sim::choose(2);
  std::vector<std::vector<std::string>> sent(nth);
  for(int t = 0; t < nth; t++)
    for(int k = 1 + sim::choose(8); k > 0; --k)
      sent[t].push_back(make(t, k));
  std::vector<std::thread> th;
  for(int t = 0; t < nth; t++)
    th.emplace_back([&, t] {
      for(auto& m : sent[t])
        client.write(m.data(), m.size());
    });
  for(auto& t : th)
    t.join();
  sim::settle(5000000000);
  check("server", got.copy(), sent, std::vector<size_t>(nth, 0), true);
  cio.stop();
  sio.stop();
}

// the same over websockets, whose clients come and go in the thread of the context
void fan_ws()
{
  sim::net_random_faults();
  auto& n = sim::net();
  n.tcp_reset = n.accept_error = n.accept_again = n.refuse = 0;
  n.segment = std::min(n.segment, 100u);
  n.short_read = std::min(n.short_read, 100u);
  n.short_write = std::min(n.short_write, 100u);
  sim::step_limit(20000000);
  h::io_thread sio, cio;
  auto server = std::make_unique<websocket_simple_server>(ws_server_configuration{9000}, sio.ctx);
  h::recorder at_server;
  server->listen([&](const char* d, size_t k) { at_server.add(d, k); });
  struct client_t
  {
    std::unique_ptr<websocket_simple_client> c;
    h::recorder got;
    bool left = false;
    bool late = false;
  };
  int nth = 1 + sim::choose(3);
  int nclients = 1 + sim::choose(4);
  std::vector<client_t> cl(nclients);
  auto connect = [&](client_t& c) {
    c.c = std::make_unique<websocket_simple_client>(ws_client_configuration{"ws://127.0.0.1:9000"}, cio.ctx);
    cio.sync([&] { c.c->receive([&c](const char* d, size_t k) { c.got.add(d, k); }); });
  };
  int late = sim::choose(nclients + 1);
  for(int i = late; i < nclients; i++)
    connect(cl[i]);
  sim::settle(5000000000);
  std::vector<std::vector<std::string>> msgs(nth), sent(nth);
  for(int t = 0; t < nth; t++)
    for(int k = 0, m = 1 + sim::choose(8); k < m; k++)
      msgs[t].push_back(make(t, k));
  if(sim::choose(2))
    sim::cooperate(20 + sim::choose(100), 100);
  std::vector<std::thread> th;
  for(int t = 0; t < nth; t++)
    th.emplace_back([&, t] {
      for(auto& m : msgs[t])
      {
        {
          sim::oracle o;
          sent[t].push_back(m);
        }
        server->write(m.data(), m.size());
        if(sim::choose(3) == 1)
          sim::sleep_ns(sim::choose(3000000));
      }
    });
  for(int i = 0; i < late; i++)
  {
    sim::sleep_ns(sim::choose(3000000));
    cl[i].late = true;
    connect(cl[i]);
  }
  for(int i = late; i < nclients; i++)
    if(nclients > 1 && sim::fault("client_leaves", 300))
    {
      cl[i].left = true;
      cl[i].c->close();
      sim::sleep_ns(sim::choose(2000000));
    }
  for(auto& t : th)
    t.join();
  sim::settle(20000000000);
  std::vector<size_t> mark(nth);
  for(int t = 0; t < nth; t++)
  {
    mark[t] = sent[t].size();
    auto m = make(t, 500);
    sent[t].push_back(m);
    server->write(m.data(), m.size());
  }
  sim::settle(20000000000);
  for(int i = 0; i < nclients; i++)
  {
    char who[32];
    snprintf(who, sizeof who, "ws client %d", i);
    check(who, cl[i].got.copy(), sent, cl[i].late ? mark : std::vector<size_t>(nth, 0), !cl[i].left);
  }
  // and the other way
  std::vector<std::vector<std::string>> up(nth);
  for(auto& c : cl)
    if(!c.left)
    {
      std::vector<std::thread> w;
      for(int t = 0; t < nth; t++)
        for(int k = 0, m = 1 + sim::choose(4); k < m; k++)
          up[t].push_back(make(t, k));
      for(int t = 0; t < nth; t++)
        w.emplace_back([&, t] {
          for(auto& m : up[t])
            c.c->write(m.data(), m.size());
        });
      for(auto& t : w)
        t.join();
      break;
    }
  sim::settle(20000000000);
  check("ws server", at_server.copy(), up, std::vector<size_t>(nth, 0), true);
  cio.stop();
  sio.stop();
  for(auto& c : cl)
    c.c.reset();
  server.reset();
}
}
SIM_SCENARIO("P02", fan_tcp_size, 2) { fanout<tcp_size_prefix_server, tcp_size_prefix_client, tcp_t>(); }
SIM_SCENARIO("P02", fan_tcp_slip) { fanout<tcp_slip_server, tcp_slip_client, tcp_t>(); }
SIM_SCENARIO("P02", fan_unix_size) { fanout<unix_stream_size_prefix_server, unix_stream_size_prefix_client, unix_t>(); }
SIM_SCENARIO("P02", fan_unix_slip) { fanout<unix_stream_slip_server, unix_stream_slip_client, unix_t>(); }
SIM_SCENARIO("P02", shared_tcp_size) { shared_client<tcp_size_prefix_server, tcp_size_prefix_client, tcp_t>(); }
SIM_SCENARIO("P02", shared_unix_slip) { shared_client<unix_stream_slip_server, unix_stream_slip_client, unix_t>(); }
SIM_SCENARIO("P02", fan_websocket) { fan_ws(); }
