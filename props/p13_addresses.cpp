// P13: a message reaches the parameter which has its address at that time, whatever was created,
// renamed, moved and removed before.
#include "osc_common.hpp"
#include <ossia/protocols/osc/osc_factory.hpp>
#include <ossia/network/local/local.hpp>
#include <set>

namespace
{
struct world
{
  runner run[2]; // 0: the device under test, 1: the one which talks
  std::unique_ptr<net::generic_device> dev, talker;
  net::protocol_base* tproto{};
  // the parameters which exist, by what the model says is their address
  std::map<std::string, net::node_base*> nodes;
  std::map<const net::parameter_base*, std::vector<net::parameter_base::callback_index>> cbs;
  std::set<const net::parameter_base*> alive;
  struct hit
  {
    const net::parameter_base* p;
    value v;
  };
  std::vector<hit> applied, called;
  std::vector<std::pair<std::string, value>> unhandled;
  void on_message(const net::parameter_base& p)
  {
    auto v = p.value();
    sim::oracle o;
    applied.push_back({&p, v});
  }
  void on_unhandled(std::string_view a, const value& v)
  {
    sim::oracle o;
    unhandled.emplace_back(std::string(a), v);
  }
  // on the thread of the context, and waits for it
  void sync(std::function<void()> f)
  {
    std::mutex m;
    std::condition_variable cv;
    bool done = false;
    boost::asio::post(run[0].ctx->context, [&] {
      f();
      std::lock_guard l{m};
      done = true;
      cv.notify_one();
    });
    std::unique_lock l{m};
    cv.wait(l, [&] { return done; });
  }
  std::string parent_of(const std::string& a)
  {
    auto i = a.rfind('/');
    return i == 0 ? "/" : a.substr(0, i);
  }
  void moved(const std::string& from, const std::string& to)
  {
    std::map<std::string, net::node_base*> n;
    for(auto& [a, p] : nodes)
      if(a == from || a.compare(0, from.size() + 1, from + "/") == 0)
        n[to + a.substr(from.size())] = p;
      else
        n[a] = p;
    nodes.swap(n);
  }
  void removed(const std::string& a)
  {
    for(auto it = nodes.begin(); it != nodes.end();)
      if(it->first == a || it->first.compare(0, a.size() + 1, a + "/") == 0)
      {
        auto* p = it->second->get_parameter();
        alive.erase(p);
        cbs.erase(p);
        it = nodes.erase(it);
      }
      else
        ++it;
  }
  void listen(const net::parameter_base* cp, bool on)
  {
    auto* p = const_cast<net::parameter_base*>(cp);
    auto& l = cbs[p];
    if(on)
      l.push_back(p->add_callback([this, cp](const value& v) {
        sim::oracle o;
        called.push_back({cp, v});
      }));
    else if(!l.empty())
    {
      p->remove_callback(l.back());
      l.pop_back();
    }
  }
};

const char* names[] = {"a", "b", "c", "dev", "a.1", "x y"};
std::string some_name() { return names[sim::choose(sim::chance(1, 8) ? 6 : 3)]; }

void addresses(int tr, bool mux)
{
  world w;
  int version = sim::choose(3);
  auto& n = sim::net();
  sim::net_random_faults();
  {
    auto seg = n.segment;
    auto sr = n.short_read;
    auto sw = n.short_write;
    n = {};
    n.segment = seg;
    n.short_read = sr;
    n.short_write = sw;
  }
  w.run[0].start();
  w.run[1].start();
  std::unique_ptr<net::protocol_base> proto = net::make_osc_protocol(w.run[0].ctx, configuration(tr, true, version));
  if(mux)
  {
    auto m = std::make_unique<net::multiplex_protocol>();
    auto& r = *m;
    bool before = sim::choose(2);
    if(before)
      r.expose_to(std::move(proto));
    w.dev = std::make_unique<net::generic_device>(std::move(m), "dev");
    if(!before)
      r.expose_to(std::move(proto));
  }
  else
    w.dev = std::make_unique<net::generic_device>(std::move(proto), "dev");
  w.dev->on_message.connect<&world::on_message>(w);
  w.dev->on_unhandled_message.connect<&world::on_unhandled>(w);
  auto tp = net::make_osc_protocol(w.run[1].ctx, configuration(tr, false, version));
  w.tproto = tp.get();
  w.talker = std::make_unique<net::generic_device>(std::move(tp), "talker");
  sim::settle(5000000000ull);
  int steps = 4 + sim::choose(30);
  int counter = 0;
  std::set<std::string> seen;
  for(int i = 0; i < steps; i++)
  {
    auto some = [&]() -> std::pair<std::string, net::node_base*> {
      auto it = w.nodes.begin();
      std::advance(it, sim::choose(w.nodes.size()));
      return *it;
    };
    int what = sim::choose(10);
    if(w.nodes.empty())
      what = 0;
    switch(what)
    {
      case 0:
      case 1: {
        // a new node below an existing one or the root
        std::string parent = w.nodes.empty() || sim::choose(2) ? "/" : some().first;
        if(std::count(parent.begin(), parent.end(), '/') > 3)
          break;
        auto name = some_name();
        bool listened = sim::choose(3) > 0;
        w.sync([&] {
          net::node_base* p = parent == "/" ? &w.dev->get_root_node() : w.nodes.at(parent);
          auto* c = p->create_child(name);
          SIM_CHECK(c, "addr-create", "no child of %s", parent.c_str());
          auto* q = c->create_parameter(val_type::INT);
          auto a = net::osc_parameter_string(*c);
          w.nodes[a] = c;
          w.alive.insert(q);
          seen.insert(a);
          if(listened)
            w.listen(q, true);
        });
        break;
      }
      case 2:
      case 3: {
        auto [a, node] = some();
        auto name = some_name();
        w.sync([&] {
          node->set_name(name);
          auto b = net::osc_parameter_string(*node);
          SIM_CHECK(node->osc_address() == b, "addr-cache", "osc_address() %s of %s", node->osc_address().c_str(), b.c_str());
          w.moved(a, b);
          for(auto& [x, p] : w.nodes)
            seen.insert(x);
        });
        break;
      }
      case 4: {
        auto [a, node] = some();
        w.sync([&] {
          auto* parent = node->get_parent();
          w.removed(a);
          parent->remove_child(*node);
        });
        break;
      }
      case 5: {
        // the parameter alone is replaced
        auto [a, node] = some();
        bool listened = sim::choose(2);
        w.sync([&] {
          auto* old = node->get_parameter();
          w.alive.erase(old);
          w.cbs.erase(old);
          node->remove_parameter();
          auto* q = node->create_parameter(val_type::INT);
          w.alive.insert(q);
          if(listened)
            w.listen(q, true);
        });
        break;
      }
      case 6: {
        auto [a, node] = some();
        bool on = sim::choose(2);
        w.sync([&] { w.listen(node->get_parameter(), on); });
        break;
      }
      case 7:
        if(sim::chance(1, 4))
        {
          auto name = some_name();
          w.sync([&] { w.dev->set_name(name); });
        }
        break;
      default: break;
    }
    // messages
    int k = sim::choose(3);
    for(int j = 0; j < k && !seen.empty(); j++)
    {
      auto it = seen.begin();
      std::advance(it, sim::choose(seen.size()));
      auto addr = *it;
      if(addr.find(' ') != addr.npos)
        continue;
      bool pattern = sim::chance(1, 4);
      std::set<const net::parameter_base*> want;
      auto cut = addr.rfind('/');
      auto target = pattern ? addr.substr(0, cut) + "/*" : addr;
      for(auto& [a, p] : w.nodes)
        if(a == addr || (pattern && a.rfind('/') == cut && a.compare(0, cut + 1, addr, 0, cut + 1) == 0))
          want.insert(p->get_parameter());
      {
        sim::oracle o;
        w.applied.clear();
        w.called.clear();
        w.unhandled.clear();
      }
      int v = ++counter;
      net::full_parameter_data d;
      d.address = target;
      d.set_value(v);
      w.tproto->push_raw(d);
      sim::settle(5000000000ull);
      std::map<const net::parameter_base*, int> count;
      for(auto& x : w.applied)
      {
        SIM_CHECK(w.alive.count(x.p), "addr-removed", "a message for %s was applied to a parameter which was removed", target.c_str());
        SIM_CHECK(want.count(x.p), "addr-wrong", "a message for %s was applied to %s", target.c_str(),
                  net::osc_parameter_string(*x.p).c_str());
        SIM_CHECK(x.v == value{v}, "addr-value", "%s got %s", target.c_str(), str(x.v).c_str());
        count[x.p]++;
      }
      for(auto* p : want)
      {
        SIM_CHECK(count[p] == 1, "addr-lost", "a message for %s was applied %d times to %s", target.c_str(), count[p],
                  net::osc_parameter_string(*p).c_str());
        SIM_CHECK(p->value() == value{v}, "addr-value", "%s holds %s", target.c_str(), str(p->value()).c_str());
        long c = 0;
        for(auto& x : w.called)
          c += x.p == p;
        SIM_CHECK(c == (long)w.cbs[p].size(), "addr-callback", "%ld callbacks of %s called, it has %zu", c,
                  net::osc_parameter_string(*p).c_str(), w.cbs[p].size());
      }
      for(auto& x : w.called)
        SIM_CHECK(want.count(x.p), "addr-callback", "a message for %s called a callback of another parameter", target.c_str());
      SIM_CHECK(w.unhandled.size() == (want.empty() ? 1 : 0), "addr-unhandled", "a message for %s, which %zu parameters have, was reported as unhandled %zu times",
                target.c_str(), want.size(), w.unhandled.size());
    }
  }
  for(auto& r : w.run)
    r.stop();
  w.talker.reset();
  w.dev.reset();
}
}
SIM_SCENARIO("P13", addr_udp, 4) { addresses(UDP, sim::chance(1, 4)); }
SIM_SCENARIO("P13", addr_streams, 2) { addresses(sim::pick({TCP_SIZE, TCP_SLIP, UNIX_SIZE, UNIX_SLIP, UNIX_DGRAM}), sim::chance(1, 4)); }
SIM_SCENARIO("P13", addr_ws) { addresses(WS, sim::chance(1, 4)); }
