// P12: devices and protocols can be deleted while their peers go on; nothing of them is used again.
#include "osc_common.hpp"
#include <ossia/network/base/node_functions.hpp>
#include <future>

namespace
{
// what the devices under test send
constexpr int FROM_A = 10000;
enum how_t { RUN, POLL, STOPPED };
struct side
{
  std::unique_ptr<net::generic_device> dev;
  net::parameter_base* par{};
};
// one link: a device in the context under test and its peer
struct link
{
  int tr, version, port;
  bool host; // the device under test is the server
  side a, peer;
  // bookkeeping
  std::vector<int> to_a, to_peer, got_a, got_peer;
  bool deleted = false;
  int first = 0;
  std::atomic<bool> hello_a{false}, hello_peer{false};
  std::function<void(int)> on_a;

  void check_dead()
  {
    sim::oracle o;
    SIM_CHECK(!deleted, "callback-after-delete", "%s: a callback of a deleted device", tname[tr]);
  }
  void make(side& s, net::network_context_ptr ctx, bool as_host)
  {
    s.dev = std::make_unique<net::generic_device>(net::make_osc_protocol(ctx, configuration(tr, as_host, version, port)), "dev");
    s.par = net::create_node(*s.dev, "/a/i").create_parameter(val_type::INT);
  }
  void make_a(net::network_context_ptr ctx)
  {
    make(a, ctx, host);
    a.par->add_callback([this](const value& v) {
      check_dead();
      int x = v.get<int>();
      if(x >= FROM_A || x < first)
      {
        if(x == -1)
          hello_a = true;
        return; // its own, or what was meant for the one before
      }
      {
        sim::oracle o;
        got_a.push_back(x);
        sim::log("a %d gets %d", port, x);
      }
      if(on_a)
        on_a(x);
    });
  }
  void make_peer(net::network_context_ptr ctx)
  {
    make(peer, ctx, !host);
    peer.par->add_callback([this](const value& v) {
      sim::oracle o;
      if(v.get<int>() == -2)
        hello_peer = true;
      if(v.get<int>() < FROM_A)
        return;
      got_peer.push_back(v.get<int>());
      sim::log("peer %d gets %d", port, got_peer.back());
    });
  }
  // from the thread of the context under test
  void drop()
  {
    sim::log("deleting %s %d %s", tname[tr], port, host ? "host" : "client");
    a.par = nullptr;
    a.dev.reset();
    sim::oracle o;
    deleted = true;
    sim::log("deleted %d", port);
  }
};
bool push(side& s, int v)
{
  try
  {
    s.par->push_value(v);
    return true;
  }
  catch(const std::exception&)
  {
    return false; // no connection
  }
}

void lifetime(int kind)
{
  sim::net_random_faults();
  sim::step_limit(20000000);
  auto& n = sim::net();
  n.udp_corrupt = 0;
  n.udp_loss = n.udp_dup = n.udp_reorder = n.lat_jitter_us = 0;
  n.tcp_reset = 0;
  n.accept_error = 0;
  n.send_error = 0;
  n.tcp_buffer = 65536;
  how_t how = (how_t)sim::choose(3);
  net::network_context_ptr C = std::make_shared<net::network_context>();
  runner P;
  P.start();
  std::vector<std::unique_ptr<link>> links;
  int nl = 2 + sim::choose(2);
  for(int i = 0; i < nl; i++)
  {
    auto l = std::make_unique<link>();
    l->tr = kind >= 0 && i == 0 ? kind : sim::choose(N_TRANSPORTS);
    l->version = sim::choose(3);
    l->port = 9000 + 10 * i;
    l->host = sim::choose(3) != 0;
    links.push_back(std::move(l));
  }
  // the context under test
  std::thread ct;
  std::atomic<bool> quit{false};
  bool running = false;
  auto run = [&] {
    if(how == POLL || running)
      return;
    running = true;
    C->context.restart();
    ct = std::thread{[C] { C->run(); }};
  };
  auto halt = [&] {
    if(!running)
      return;
    running = false;
    C->context.stop();
    ct.join();
  };
  auto poll = [&](uint64_t ns) {
    uint64_t end = sim::now_ns() + ns;
    if(how == POLL)
      do
      {
        net::poll_network_context(*C);
        sim::sleep_ns(20000 + sim::choose(300000));
      } while(sim::now_ns() < end);
    else
      sim::sleep_ns(ns);
  };
  // f in the thread of the context under test, or while there is none
  auto inside = [&](auto f) {
    if(how == RUN && running)
    {
      std::promise<void> done;
      boost::asio::post(C->context, [&] {
        f();
        done.set_value();
      });
      done.get_future().wait();
    }
    else if(how == STOPPED && running)
    {
      halt();
      f();
      run();
    }
    else
      f();
  };
  auto until = [&](auto cond, uint64_t ns) {
    uint64_t end = sim::now_ns() + ns;
    while(!cond() && sim::now_ns() < end)
      poll(1000000);
    return cond();
  };
  auto drop_peer = [&](link& l) {
    std::promise<void> p;
    boost::asio::post(P.ctx->context, [&] {
      l.peer = {};
      p.set_value();
    });
    p.get_future().wait();
  };
  for(auto& l : links)
  {
    // servers first
    if(l->host)
    {
      l->make_a(C);
      l->make_peer(P.ctx);
    }
    else
    {
      l->make_peer(P.ctx);
      l->make_a(C);
    }
  }
  run();
  auto connected = [&](link& l) {
    bool ok = until(
        [&] {
          if(!l.hello_a)
            push(l.peer, -1);
          if(!l.hello_peer)
            push(l.a, -2);
          poll(10000000);
          return l.hello_a && l.hello_peer;
        },
        60000000000ull);
    SIM_CHECK(ok, "connect", "%s: not connected", tname[l.tr]);
    poll(200000000);
  };
  for(auto& l : links)
    connected(*l);
  link& victim = *links[0];
  bool from_callback = sim::choose(3) == 0;
  std::atomic<bool> dropped{false};
  if(from_callback)
    links[1]->on_a = [&](int v) {
      if(v == 3 && !dropped)
      {
        victim.drop();
        dropped = true;
      }
    };
  // peers which write
  std::vector<std::thread> ts;
  int count = 6 + sim::choose(20);
  int pause = sim::choose(2) ? 0 : sim::choose(2000000);
  for(auto& l : links)
    ts.emplace_back([&, l = l.get(), pause = pause ? sim::choose(pause) : 0] {
      for(int i = 0; i < count; i++)
      {
        {
          sim::oracle o;
          l->to_a.push_back(i);
        }
        push(l->peer, i);
        if(pause)
          sim::sleep_ns(pause);
      }
    });
  int when = sim::choose(count);
  for(int i = 0; i < count; i++)
  {
    if(i == when && !from_callback)
    {
      poll(sim::choose(3000000));
      inside([&] {
        victim.drop();
        dropped = true;
      });
    }
    for(size_t k = 1; k < links.size(); k++)
    {
      {
        sim::oracle o;
        links[k]->to_peer.push_back(FROM_A + i);
      }
      bool ok = push(links[k]->a, FROM_A + i);
      SIM_CHECK(ok, "push", "%s: the push of another device failed", tname[links[k]->tr]);
    }
    poll(sim::choose(1000000));
  }
  for(auto& t : ts)
    t.join();
  SIM_CHECK(until([&] { return dropped.load(); }, 30000000000ull), "lost", "%s: the message which deletes was not received", tname[links[1]->tr]);
  // the peer goes on for a while; the place of the deleted device is free again
  for(int i = 0; i < 3; i++)
  {
    push(victim.peer, 500 + i);
    poll(2000000);
  }
  if(victim.host && sim::choose(2))
  {
    auto l = std::make_unique<link>();
    l->tr = victim.tr;
    l->version = victim.version;
    l->port = victim.port;
    l->host = true;
    l->first = 2000;
    if(victim.tr == UDP || victim.tr == UNIX_DGRAM || sim::choose(2))
    {
      // a peer which comes after
      drop_peer(victim);
    }
    inside([&] { l->make_a(C); });
    std::unique_ptr<net::generic_device> old;
    l->make_peer(P.ctx);
    connected(*l);
    for(int i = 0; i < 5; i++)
    {
      {
        sim::oracle o;
        l->to_a.push_back(2000 + i);
        l->to_peer.push_back(FROM_A + i);
      }
      push(l->peer, 2000 + i);
      push(l->a, FROM_A + i);
      poll(1000000);
    }
    sim::probe("a device in the place of a deleted one");
    links.push_back(std::move(l));
  }
  // everything arrives
  auto done = [&] {
    sim::oracle o;
    for(size_t k = 1; k < links.size(); k++)
      if(links[k]->got_a.size() < links[k]->to_a.size() || links[k]->got_peer.size() < links[k]->to_peer.size())
        return false;
    return true;
  };
  until(done, 60000000000ull);
  poll(5000000);
  {
    sim::oracle o;
    for(size_t k = 1; k < links.size(); k++)
    {
      auto& l = *links[k];
      SIM_CHECK(l.got_a == l.to_a, "others", "%s %s: %zu of %zu messages received", tname[l.tr], l.host ? "host" : "client", l.got_a.size(), l.to_a.size());
      SIM_CHECK(l.got_peer == l.to_peer, "others", "%s %s: the peer received %zu of %zu messages", tname[l.tr], l.host ? "host" : "client",
                l.got_peer.size(), l.to_peer.size());
    }
    for(size_t i = 0; i < victim.got_a.size(); i++)
      SIM_CHECK(victim.got_a[i] == (int)i, "order", "%s: message %zu is %d", tname[victim.tr], i, victim.got_a[i]);
  }
  // the rest goes in any order
  while(!links.empty())
  {
    size_t k = sim::choose(links.size());
    if(links[k]->a.dev)
      inside([&] { links[k]->drop(); });
    if(sim::choose(2))
      poll(sim::choose(2000000));
    drop_peer(*links[k]);
    auto dead = std::move(links[k]);
    links.erase(links.begin() + k);
    // the memory goes when nothing can be running any more
    static_assert(sizeof(dead));
    poll(sim::choose(3000000));
    if(dead->on_a)
      dead->on_a = {};
  }
  poll(3000000);
  halt();
  P.stop();
  C->context.restart();
  net::poll_network_context(*C);
}
}
SIM_SCENARIO("P12", delete_any) { lifetime(-1); }
SIM_SCENARIO("P12", delete_udp) { lifetime(UDP); }
SIM_SCENARIO("P12", delete_dgram) { lifetime(UNIX_DGRAM); }
SIM_SCENARIO("P12", delete_tcp) { lifetime(sim::choose(2) ? TCP_SIZE : TCP_SLIP); }
SIM_SCENARIO("P12", delete_unix) { lifetime(sim::choose(2) ? UNIX_SIZE : UNIX_SLIP); }
SIM_SCENARIO("P12", delete_ws) { lifetime(WS); }
