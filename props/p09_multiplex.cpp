// P09: a device exposed through several protocols: pushes go to all of them, what one receives is
// echoed to the others, if the device echoes.
#include "osc_common.hpp"
#include <ossia/network/local/local.hpp>
#include <functional>
#include <set>

namespace
{
struct node_t;
struct endpoint
{
  node_t* owner{};
  int tr{};
  bool host{};
  int port{};
  int ctx{}; // which of its owner's contexts
  std::vector<endpoint*> peers;
  bool late = false; // exposed while messages go round
  bool there = false;
  net::protocol_base* proto{};
};
struct shared_param
{
  std::string path;
  val_type type;
  int writer{}, thread{};
};
struct node_t
{
  int id{};
  bool echo{}, multiplex{}, broken{}, broken_first{};
  std::vector<std::unique_ptr<endpoint>> ends;
  std::vector<std::unique_ptr<runner>> run;
  std::unique_ptr<net::generic_device> dev;
  net::multiplex_protocol* mux{};
  std::vector<net::parameter_base*> p;
  std::vector<std::optional<std::pair<int, int>>> clip;
  std::vector<char> listened;
  std::vector<char> meddled; // a callback sets another value
  std::vector<std::vector<value>> sent, msgs, got; // expected, seen by the device, by callbacks
  std::map<const net::parameter_base*, int> index;
  void on_message(const net::parameter_base& q)
  {
    auto v = q.value();
    sim::oracle o;
    auto it = index.find(&q);
    if(it == index.end())
      sim::fail("mux-target", "a message was applied to %s", net::osc_parameter_string(q).c_str());
    sim::log("device %d: %s %s", id, net::osc_parameter_string(q).c_str(), str(v).c_str());
    msgs[it->second].push_back(v);
  }
};

// a protocol which cannot send
struct broken_protocol final : net::protocol_base
{
  broken_protocol()
      : protocol_base{flags{SupportsMultiplex}}
  {
  }
  bool pull(net::parameter_base&) override { return false; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return false; }
  bool push_raw(const net::full_parameter_data&) override { return fail(); }
  bool push(const net::parameter_base&, const value&) override { return fail(); }
  bool echo_incoming_message(const net::message_origin_identifier&, const net::parameter_base&, const value&) override { return fail(); }
  bool fail() { throw boost::system::system_error(boost::asio::error::no_buffer_space); }
};

value clamped(const std::optional<std::pair<int, int>>& c, value v)
{
  if(!c)
    return v;
  auto [lo, hi] = *c;
  if(auto i = v.target<int>())
    return std::min(std::max(*i, lo), hi);
  if(auto i = v.target<float>())
    return std::min(std::max(*i, (float)lo), (float)hi);
  return v;
}

struct network
{
  std::vector<std::unique_ptr<node_t>> nodes;
  std::vector<shared_param> params;
  int version{};

  std::unique_ptr<net::protocol_base> make(node_t& d, endpoint& e)
  {
    auto p = net::make_osc_protocol(d.run[e.ctx]->ctx, configuration(e.tr, e.host, version, e.port));
    if(!p)
      sim::fail("mux-factory", "no protocol for %s", tname[e.tr]);
    e.proto = p.get();
    return p;
  }

  // a value arrives at a device through one of its ends
  void arrive(node_t& d, endpoint& through, int k, const value& v)
  {
    auto c = clamped(d.clip[k], v);
    d.sent[k].push_back(c);
    if(d.echo)
      send(d, &through, k, c);
  }
  void send(node_t& d, endpoint* except, int k, const value& v)
  {
    for(auto& e : d.ends)
      if(e.get() != except)
        for(auto peer : e->peers)
          arrive(*peer->owner, *peer, k, v);
  }
};

void exposed(bool late)
{
  sim::net_random_faults();
  auto& n = sim::net();
  n.udp_corrupt = 0;
  n.tcp_reset = 0;
  n.accept_error = 0;
  // an echo is written by the thread which reads: two peers with full buffers wait for each other
  n.tcp_buffer = 65536;
  network w;
  w.version = sim::choose(3);
  int nd = 2 + sim::choose(4);
  bool any_udp = false;
  for(int i = 0; i < nd; i++)
  {
    auto d = std::make_unique<node_t>();
    d->id = i;
    d->echo = sim::chance(3, 4);
    w.nodes.push_back(std::move(d));
  }
  // a random tree of devices
  int port = 9000;
  for(int i = 1; i < nd; i++)
  {
    auto& parent = *w.nodes[sim::choose(i)];
    endpoint* host = nullptr;
    // several clients of one server
    for(auto& e : parent.ends)
      if(e->host && e->tr >= TCP_SIZE && sim::chance(1, 3))
        host = e.get();
    if(!host)
    {
      auto e = std::make_unique<endpoint>();
      e->owner = &parent;
      e->tr = sim::choose(N_TRANSPORTS);
      if(e->tr == WS && !sim::chance(1, 3))
        e->tr = UDP;
      e->host = true;
      e->port = port;
      port += 2;
      host = e.get();
      parent.ends.push_back(std::move(e));
    }
    auto e = std::make_unique<endpoint>();
    e->owner = w.nodes[i].get();
    e->tr = host->tr;
    any_udp |= e->tr == UDP;
    e->port = host->port;
    e->peers.push_back(host);
    host->peers.push_back(e.get());
    w.nodes[i]->ends.push_back(std::move(e));
  }
  if(!any_udp || late)
    n.send_error = 0;
  for(auto& d : w.nodes)
    if(d->ends.size() > 1)
      for(size_t i = d->ends.size(); i-- > 1;)
        std::swap(d->ends[i], d->ends[sim::choose(i + 1)]);
  for(auto& d : w.nodes)
  {
    d->multiplex = d->ends.size() != 1 || sim::choose(2);
    int nc = d->ends.size() > 1 ? 1 + sim::choose(2) : 1;
    for(int c = 0; c < nc; c++)
      d->run.push_back(std::make_unique<runner>());
    for(auto& e : d->ends)
      e->ctx = sim::choose(nc);
  }
  int nthreads = 1 + sim::choose(2);
  int np = 1 + sim::choose(6);
  for(int i = 0; i < np; i++)
  {
    shared_param p;
    static const int t[] = {0, 0, 1, 2, 3, 5, 8};
    auto [ty, nm] = types[t[sim::choose(7)]];
    p.type = ty;
    p.path = std::string(sim::pick({"/", "/a/", "/a/b/"})) + nm + std::to_string(i);
    p.writer = sim::choose(nd);
    p.thread = sim::choose(nthreads);
    w.params.push_back(p);
  }
  for(auto& d : w.nodes)
  {
    int i_ = d->id;
    d->sent.resize(np);
    d->msgs.resize(np);
    d->got.resize(np);
    d->clip.resize(np);
    for(int k = 0; k < np; k++)
    {
      d->listened.push_back(sim::choose(2));
      d->meddled.push_back(sim::chance(1, 6) && w.params[k].writer != i_);
      if((w.params[k].type == val_type::INT || w.params[k].type == val_type::FLOAT) && sim::chance(1, 6))
        d->clip[k] = std::pair<int, int>(-(1 << 20) - (int)sim::choose(100), (1 << 20) + sim::choose(100));
    }
  }
  bool run_first = sim::choose(2);
  if(run_first)
    for(auto& d : w.nodes)
      for(auto& r : d->run)
        r->start();
  if(late)
  {
    // ends of one device which come later
    std::vector<node_t*> several;
    for(auto& d : w.nodes)
      if(d->multiplex)
        several.push_back(d.get());
    if(!several.empty())
    {
      auto& d = *sim::pick_from(several);
      for(auto& e : d.ends)
        e->late = e->tr == UDP || (!e->host && e->tr != UNIX_DGRAM && sim::choose(2));
    }
  }
  for(auto& d : w.nodes)
  {
    auto fill = [&] {
      for(int k = 0; k < np; k++)
      {
        auto& sp = w.params[k];
        auto* q = net::create_node(*d->dev, sp.path).create_parameter(sp.type);
        d->p.push_back(q);
        if(d->clip[k])
        {
          auto [lo, hi] = *d->clip[k];
          q->set_domain(sp.type == val_type::INT ? make_domain(lo, hi) : make_domain((float)lo, (float)hi));
          q->set_bounding(bounding_mode::CLIP);
        }
        if(sp.writer != d->id)
        {
          d->index[q] = k;
          if(d->meddled[k])
            q->add_callback([dd = d.get(), k, q](const value& v) {
              {
                sim::oracle o;
                dd->got[k].push_back(v);
              }
              sim::probe("value replaced by a callback");
              q->set_value_quiet(init_value(v.get_type()));
            });
          else if(d->listened[k])
            q->add_callback([dd = d.get(), k](const value& v) {
              sim::oracle o;
              dd->got[k].push_back(v);
            });
        }
      }
    };
    if(d->multiplex)
    {
      auto m = std::make_unique<net::multiplex_protocol>();
      d->mux = m.get();
      d->broken = sim::chance(1, 4);
      d->broken_first = sim::choose(2);
      if(d->broken && d->broken_first)
        m->expose_to(std::make_unique<broken_protocol>());
      // before or after the device is there
      for(auto& e : d->ends)
        if(!e->late && sim::choose(2))
        {
          m->expose_to(w.make(*d, *e));
          e->there = true;
        }
      d->dev = std::make_unique<net::generic_device>(std::move(m), "dev" + std::to_string(d->id));
    }
    else
    {
      d->dev = std::make_unique<net::generic_device>(w.make(*d, *d->ends[0]), "dev" + std::to_string(d->id));
      d->ends[0]->there = true;
    }
    d->dev->set_echo(d->echo);
    d->dev->on_message.connect<&node_t::on_message>(*d);
    bool first = sim::choose(2);
    if(first)
      fill();
    for(auto& e : d->ends)
      if(!e->late && !e->there)
      {
        d->mux->expose_to(w.make(*d, *e));
        e->there = true;
      }
    if(!first)
      fill();
    if(d->broken && !d->broken_first)
      d->mux->expose_to(std::make_unique<broken_protocol>());
  }
  if(!run_first)
    for(auto& d : w.nodes)
      for(auto& r : d->run)
        r->start();
  sim::settle(5000000000ull);
  if(sim::chance(1, 2))
    sim::cooperate(20 + sim::choose(100), 200);

  // several devices may send on an UDP network
  bool lossy = any_udp && (n.udp_loss || n.send_error), reorder = any_udp && (n.udp_reorder || n.lat_jitter_us), dup = any_udp && n.udp_dup;
  for(int phase = late ? 0 : 1; phase < 2; phase++)
  {
    for(auto& d : w.nodes)
      for(int k = 0; k < np; k++)
        d->sent[k].clear(), d->msgs[k].clear(), d->got[k].clear();
    std::vector<std::thread> th;
    for(auto& d : w.nodes)
      for(int t = 0; t < nthreads; t++)
        th.emplace_back([&, d = d.get(), t] {
          std::vector<int> mine;
          for(int k = 0; k < np; k++)
            if(w.params[k].writer == d->id && w.params[k].thread == t)
              mine.push_back(k);
          if(mine.empty())
            return;
          int count = 1 + sim::choose(8);
          for(int i = 0; i < count; i++)
          {
            int k = sim::pick_from(mine);
            auto v = random_value(w.params[k].type, w.version, false);
            {
              sim::oracle o;
              sim::log("push at %d: %s %s", d->id, w.params[k].path.c_str(), str(v).c_str());
              w.send(*d, nullptr, k, clamped(d->clip[k], v));
            }
            try
            {
            if(sim::chance(1, 6))
            {
              net::full_parameter_data dat;
              dat.address = w.params[k].path;
              dat.set_value(clamped(d->clip[k], v));
              d->dev->get_protocol().push_raw(dat);
            }
            else if(sim::chance(1, 6))
            {
              d->p[k]->set_value(v);
              d->dev->get_protocol().push_bundle({d->p[k]});
            }
            else
              d->p[k]->push_value(v);
            }
            catch(const boost::system::system_error& e)
            {
              if(!d->broken && !n.send_error)
                throw;
            }
            if(sim::choose(3) == 1)
              sim::sleep_ns(sim::choose(2000000));
          }
        });
    if(phase == 0)
      for(auto& d : w.nodes)
        for(auto& e : d->ends)
          if(e->late)
          {
            sim::sleep_ns(sim::choose(2000000));
            d->mux->expose_to(w.make(*d, *e));
          }
    for(auto& t : th)
      t.join();
    sim::settle(100000000000ull);
    bool l = lossy || phase == 0;
    for(auto& d : w.nodes)
      for(int k = 0; k < np; k++)
      {
        if(w.params[k].writer == d->id)
          continue;
        auto what = "device " + std::to_string(d->id);
        if(d->meddled[k])
        {
          compare("mux", w.params[k].path, d->sent[k], d->got[k], what.c_str(), l, reorder, dup);
          continue;
        }
        compare("mux", w.params[k].path, d->sent[k], d->msgs[k], what.c_str(), l, reorder, dup);
        if(d->listened[k])
          SIM_CHECK(d->got[k] == d->msgs[k], "mux-callback", "device %d: %zu messages for %s, %zu callbacks", d->id, d->msgs[k].size(),
                    w.params[k].path.c_str(), d->got[k].size());
        if(!d->msgs[k].empty())
          SIM_CHECK(d->p[k]->value() == d->msgs[k].back(), "mux-value", "device %d: %s holds %s after %s", d->id, w.params[k].path.c_str(),
                    str(d->p[k]->value()).c_str(), str(d->msgs[k].back()).c_str());
      }
  }
  for(auto& d : w.nodes)
    for(auto& r : d->run)
      r->stop();
  // one protocol less
  if(sim::choose(2))
    for(auto& d : w.nodes)
      if(d->mux)
      {
        auto n0 = d->mux->get_protocols().size();
        SIM_CHECK(n0 == d->ends.size() + d->broken, "mux-count", "%zu protocols, %zu were exposed", n0, d->ends.size() + d->broken);
        d->mux->stop_expose_to(*d->ends[0]->proto);
        SIM_CHECK(d->mux->get_protocols().size() == n0 - 1, "mux-count", "%zu protocols of %zu after one was removed",
                  d->mux->get_protocols().size(), n0);
      }
  for(auto& d : w.nodes)
    d->dev.reset();
}
}
SIM_SCENARIO("P09", mux, 3) { exposed(false); }
SIM_SCENARIO("P09", mux_late) { exposed(true); }
