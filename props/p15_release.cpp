// P15: what belonged to a connection or to a device is released when it ends
#include "osc_common.hpp"
#include <ossia/network/http/http_client.hpp>
#include <ossia/network/sockets/framing.hpp>
#include <ossia/network/sockets/websocket.hpp>
#include <ossia/protocols/oscquery/oscquery_mirror_asio.hpp>
#include <ossia/protocols/oscquery/oscquery_server_asio.hpp>

using namespace ossia::net;
namespace
{
struct tcp_t
{
  static socket_configuration conf() { return {"127.0.0.1", 9000}; }
};
struct unix_t
{
  static fd_configuration conf() { return {"/tmp/sim.sock"}; }
};

void calm()
{
  sim::net_random_faults();
  auto k = sim::net();
  sim::net() = {};
  sim::net().segment = std::min(k.segment, 200u);
  sim::net().short_read = std::min(k.short_read, 200u);
  sim::net().short_write = std::min(k.short_write, 200u);
  sim::net().accept_again = sim::fault("accept_errors", 300) ? 200 : 0;
}

// runs f on the thread of the context and waits for it
void on(runner& r, std::function<void()> f)
{
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  boost::asio::post(r.ctx->context, [&] {
    f();
    std::lock_guard l{m};
    done = true;
    cv.notify_one();
  });
  std::unique_lock l{m};
  cv.wait(l, [&] { return done; });
}

const char* ending[] = {"close", "reset", "half-close", "partial frame", "garbage"};

// Clients of a framed server which come and go
template <typename Server, typename Client, typename T>
void churn(bool size_prefix)
{
  calm();
  const unsigned before = sim::open_sockets();
  {
  h::io_thread sio, cio;
  auto server = std::make_unique<Server>(T::conf(), sio.ctx);
  h::recorder at_server;
  sio.sync([&] { server->listen([&](const char* d, size_t n) { at_server.add(d, n); }); });
  const unsigned idle = sim::open_sockets();

  struct client_t
  {
    std::unique_ptr<Client> c;
    h::recorder got;
  };
  auto connect = [&](client_t& c) {
    c.c = std::make_unique<Client>(T::conf(), cio.ctx);
    c.c->connect();
    cio.sync([&] { c.c->receive([&c](const char* d, size_t n) { c.got.add(d, n); }); });
  };
  client_t stays;
  bool has_stays = sim::choose(2);
  if(has_stays)
  {
    connect(stays);
    sim::settle(3000000000);
  }
  std::atomic_bool writing{true};
  std::size_t expected = 0;
  auto write = [&] {
    std::string m = h::random_payload(2000);
    expected++;
    try
    {
      server->write(m.data(), m.size());
    }
    catch(const std::exception& e)
    {
      sim::fail("release-write", "the write of the server failed: %s", e.what());
    }
  };
  int rounds = 1 + sim::choose(5);
  std::thread writer;
  if(sim::choose(2))
    writer = std::thread{[&] {
      while(writing)
      {
        write();
        sim::sleep_ns(100000 + sim::choose(3000000));
      }
    }};
  std::vector<std::unique_ptr<client_t>> kept;
  for(int r = 0; r < rounds; r++)
  {
    std::vector<std::unique_ptr<client_t>> cl;
    for(int i = 1 + sim::choose(3); i > 0; --i)
    {
      cl.push_back(std::make_unique<client_t>());
      connect(*cl.back());
      if(sim::choose(2))
      {
        std::string m = h::random_payload(300);
        cl.back()->c->write(m.data(), m.size());
      }
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(3000000));
    }
    for(auto& c : cl)
    {
      int how = sim::choose(5);
      sim::log("%s", ending[how]);
      sim::probe(ending[how]);
      cio.sync([&] {
        boost::system::error_code ec;
        auto& s = c->c->m_socket;
        switch(how)
        {
          case 1: s.set_option(boost::asio::socket_base::linger(true, 0), ec); break;
          case 2: s.shutdown(boost::asio::socket_base::shutdown_send, ec); return;
          case 3: {
            std::string m = size_prefix ? std::string("\0\0\1\0abc", 7) : std::string("\300abc", 4);
            boost::asio::write(s, boost::asio::buffer(m), ec);
            break;
          }
          case 4: {
            std::string m = h::random_payload(60);
            boost::asio::write(s, boost::asio::buffer(m), ec);
            break;
          }
        }
        s.close(ec);
      });
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(2000000));
      if(how == 2)
        kept.push_back(std::move(c)); // still reads what the server sends until it is closed
    }
    cio.sync([&] { cl.clear(); });
  }
  sim::settle(3000000000);
  writing = false;
  if(writer.joinable())
    writer.join();
  cio.sync([&] { kept.clear(); });
  sim::settle(3000000000);
  if(sim::open_sockets() != idle + (has_stays ? 2 : 0))
    sim::log_sockets(), sim::log_threads();
  SIM_CHECK(sim::open_sockets() == idle + (has_stays ? 2 : 0), "release-connection",
            "%u sockets are open after all the clients left, %u when idle", sim::open_sockets(), idle + (has_stays ? 2 : 0));
  write();
  // and it serves the next ones
  client_t next;
  connect(next);
  sim::settle(3000000000);
  write();
  sim::settle(3000000000);
  SIM_CHECK(next.got.size() == 1, "release-serve", "a client connected after the others got %zu messages of 1", next.got.size());
  if(has_stays)
    SIM_CHECK(stays.got.size() == expected, "release-stay", "the client which stayed got %zu messages of %zu", stays.got.size(), expected);
  bool order = sim::choose(2);
  if(order)
  {
    cio.sync([&] { next.c.reset(); stays.c.reset(); });
    sio.sync([&] { server.reset(); });
    sim::settle(3000000000);
    SIM_CHECK(sim::open_sockets() == before, "release-server", "%u sockets are open after the server was destroyed, %u before it was created",
              sim::open_sockets(), before);
  }
  cio.stop();
  sio.stop();
  next.c.reset();
  stays.c.reset();
  server.reset();
  }
  SIM_CHECK(sim::open_sockets() == before, "release-server", "%u sockets are open after the server was destroyed, %u before it was created",
            sim::open_sockets(), before);
}

// Websocket clients, and peers which only do half of it
void churn_ws()
{
  calm();
  sim::step_limit(20000000);
  const unsigned before = sim::open_sockets();
  {
  h::io_thread sio, cio;
  auto server = std::make_unique<websocket_simple_server>(ws_server_configuration{9000}, sio.ctx);
  h::recorder at_server;
  server->listen([&](const char* d, size_t k) { at_server.add(d, k); });
  sim::settle(1000000);
  const unsigned idle = sim::open_sockets();
  struct client_t
  {
    std::unique_ptr<websocket_simple_client> c;
    h::recorder got;
  };
  for(int r = 1 + sim::choose(4); r > 0; --r)
  {
    std::vector<std::unique_ptr<client_t>> cl;
    std::vector<std::unique_ptr<boost::asio::ip::tcp::socket>> raw;
    for(int i = 1 + sim::choose(3); i > 0; --i)
    {
      if(sim::chance(1, 3))
      {
        auto s = std::make_unique<boost::asio::ip::tcp::socket>(cio.ctx);
        boost::system::error_code ec;
        s->connect({boost::asio::ip::make_address("127.0.0.1"), 9000}, ec);
        std::string m = sim::pick<const char*>({"", "GET / HTTP/1.1\r\nHost: a\r\n", "nonsense\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\n\r\n"});
        boost::asio::write(*s, boost::asio::buffer(m), ec);
        raw.push_back(std::move(s));
        continue;
      }
      cl.push_back(std::make_unique<client_t>());
      auto& c = *cl.back();
      c.c = std::make_unique<websocket_simple_client>(ws_client_configuration{"ws://127.0.0.1:9000"}, cio.ctx);
      cio.sync([&] { c.c->receive([&c](const char* d, size_t k) { c.got.add(d, k); }); });
      if(sim::choose(2))
        sim::settle(1000000000);
    }
    std::string m = h::random_payload(1000);
    server->write(m.data(), m.size());
    if(sim::choose(2))
      sim::sleep_ns(sim::choose(5000000));
    if(sim::fault("tcp_reset_all", 200))
      sim::reset_connections(9000);
    for(auto& c : cl)
      if(sim::choose(2))
        c->c->close();
    sim::settle(sim::choose(2) ? 30000000000ull : 1000000);
    cio.sync([&] {
      raw.clear();
      cl.clear();
    });
  }
  sim::settle(60000000000ull);
  SIM_CHECK(sim::open_sockets() == idle, "release-connection", "%u sockets are open after all the clients left, %u when idle",
            sim::open_sockets(), idle);
  client_t next;
  next.c = std::make_unique<websocket_simple_client>(ws_client_configuration{"ws://127.0.0.1:9000"}, cio.ctx);
  cio.sync([&] { next.c->receive([&](const char* d, size_t k) { next.got.add(d, k); }); });
  sim::settle(5000000000);
  server->write("hello", 5);
  sim::settle(5000000000);
  SIM_CHECK(next.got.size() == 1, "release-serve", "a client connected after the others got %zu messages of 1", next.got.size());
  cio.stop();
  sio.stop();
  next.c.reset();
  server.reset();
  }
  SIM_CHECK(sim::open_sockets() == before, "release-server", "%u sockets are open after the server was destroyed, %u before it was created",
            sim::open_sockets(), before);
}

// OSC devices which come and go at a device which stays
void devices(int tr)
{
  calm();
  sim::step_limit(20000000);
  const unsigned before = sim::open_sockets();
  {
    runner run[2];
    int version = sim::choose(3);
    auto dev = std::make_unique<generic_device>(make_osc_protocol(run[0].ctx, configuration(tr, true, version)), "host");
    auto* p = dev->get_root_node().create_child("p")->create_parameter(val_type::INT);
    run[0].start();
    sim::settle(1000000);
    const unsigned idle = sim::open_sockets();
    int n = 1 + sim::choose(5);
    for(int i = 0; i < n; i++)
    {
      runner r;
      auto peer = std::make_unique<generic_device>(make_osc_protocol(r.ctx, configuration(tr, false, version)), "peer");
      auto* q = peer->get_root_node().create_child("p")->create_parameter(val_type::INT);
      r.start();
      if(sim::choose(2))
        sim::settle(1000000000);
      try
      {
        if(sim::choose(2))
          q->push_value(i);
      }
      catch(const std::exception& e)
      {
        sim::log("push: %s", e.what());
      }
      if(sim::choose(2))
        p->push_value(i);
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(3000000));
      if(sim::fault("tcp_reset_all", 200))
        sim::reset_connections(9000);
      if(sim::choose(2))
      {
        r.stop();
        peer.reset();
      }
      else
      {
        on(r, [&] { peer.reset(); });
        r.stop();
      }
      r = {};
      if(sim::choose(2))
        sim::settle(1000000000);
    }
    sim::settle(60000000000ull);
    SIM_CHECK(sim::open_sockets() == idle, "release-connection", "%s: %u sockets are open after all the peers were destroyed, %u when idle",
              tname[tr], sim::open_sockets(), idle);
    p->push_value(1000);
    if(sim::choose(2))
    {
      run[0].stop();
      dev.reset();
    }
    else
    {
      on(run[0], [&] { dev.reset(); });
      run[0].stop();
    }
  }
  SIM_CHECK(sim::open_sockets() == before, "release-device", "%s: %u sockets are open after the device was destroyed, %u before it was created",
            tname[tr], sim::open_sockets(), before);
}

// An OSCQuery server whose mirrors, websocket clients and HTTP clients come and go
void oscquery_churn()
{
  calm();
  sim::step_limit(40000000);
  using server_t = ossia::oscquery_asio::oscquery_server_protocol;
  using mirror_t = ossia::oscquery_asio::oscquery_mirror_asio_protocol;
  const unsigned before = sim::open_sockets();
  {
    runner run;
    run.start();
    auto dev = std::make_unique<generic_device>(std::make_unique<server_t>(run.ctx, 1234, 5678), "server");
    auto* p = dev->get_root_node().create_child("p")->create_parameter(val_type::INT);
    sim::settle(1000000);
    const unsigned idle = sim::open_sockets();
    for(int i = 0, n = 1 + sim::choose(4); i < n; i++)
    {
      if(sim::chance(1, 3))
      {
        h::io_thread io;
        boost::asio::ip::tcp::socket s{io.ctx};
        boost::system::error_code ec;
        s.connect({boost::asio::ip::make_address("127.0.0.1"), 5678}, ec);
        std::string m = sim::pick<const char*>({"", "GET /p HTTP/1.1\r\nHost: a\r\n", "nonsense\r\n\r\n", "GET /p HTTP/1.1\r\nHost: a\r\n\r\n"});
        boost::asio::write(s, boost::asio::buffer(m), ec);
        sim::settle(sim::choose(2) ? 1000000000 : 1000);
        continue;
      }
      runner r;
      bool after = sim::choose(2);
      if(after)
        r.start();
      auto mp = std::make_unique<mirror_t>(r.ctx, "ws://127.0.0.1:5678", 10203);
      auto* mirror = mp.get();
      auto peer = std::make_unique<generic_device>(std::move(mp), "mirror");
      if(!after)
        r.start();
      std::future<void> f;
      if(sim::choose(2))
      {
        boost::asio::post(r.ctx->context, [&] { f = mirror->update_async(peer->get_root_node()); });
        sim::settle(5000000000ull);
        if(auto* n = find_node(peer->get_root_node(), "/p"))
          n->get_parameter()->add_callback([](const value&) {});
      }
      if(sim::choose(2))
        sim::settle(1000000000);
      if(sim::choose(2))
        p->push_value(i);
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(3000000));
      if(sim::fault("tcp_reset_all", 200))
        sim::reset_connections(5678);
      if(sim::choose(2))
      {
        r.stop();
        peer.reset();
      }
      else
      {
        on(r, [&] { peer.reset(); });
        r.stop();
      }
      if(sim::choose(2))
        sim::settle(1000000000);
    }
    sim::settle(60000000000ull);
    SIM_CHECK(sim::open_sockets() == idle, "release-connection",
              "oscquery: %u sockets are open after all the mirrors were destroyed, %u when idle", sim::open_sockets(), idle);
    p->push_value(1000);
    if(sim::choose(2))
    {
      run.stop();
      dev.reset();
    }
    else
    {
      on(run, [&] { dev.reset(); });
      run.stop();
    }
  }
  SIM_CHECK(sim::open_sockets() == before, "release-device", "oscquery: %u sockets are open after the server was destroyed, %u before it was created",
            sim::open_sockets(), before);
}
}
SIM_SCENARIO("P15", churn_tcp_size) { churn<tcp_size_prefix_server, tcp_size_prefix_client, tcp_t>(true); }
SIM_SCENARIO("P15", churn_tcp_slip) { churn<tcp_slip_server, tcp_slip_client, tcp_t>(false); }
SIM_SCENARIO("P15", churn_unix_size) { churn<unix_stream_size_prefix_server, unix_stream_size_prefix_client, unix_t>(true); }
SIM_SCENARIO("P15", churn_unix_slip) { churn<unix_stream_slip_server, unix_stream_slip_client, unix_t>(false); }
SIM_SCENARIO("P15", churn_ws) { churn_ws(); }
SIM_SCENARIO("P15", devices_datagram) { devices(sim::pick({UDP, UNIX_DGRAM})); }
SIM_SCENARIO("P15", devices_stream, 2) { devices(sim::pick({TCP_SIZE, TCP_SLIP, UNIX_SIZE, UNIX_SLIP})); }
SIM_SCENARIO("P15", devices_ws) { devices(WS); }
SIM_SCENARIO("P15", oscquery_peers, 2) { oscquery_churn(); }
