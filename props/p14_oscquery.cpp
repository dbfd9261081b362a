// P14: an OSCQuery mirror shows the tree of its server and goes on following it
#include "osc_common.hpp"
#include <ossia/protocols/oscquery/oscquery_server_asio.hpp>
#include <ossia/protocols/oscquery/oscquery_mirror_asio.hpp>
#include <ossia/network/dataspace/dataspace_visitors.hpp>
#include <ossia/network/sockets/websocket_client.hpp>
#include <ossia/network/sockets/websocket_server.hpp>
#include <ossia/network/oscquery/detail/json_writer.hpp>
#include <ossia/network/http/http_client.hpp>
#include <set>

namespace
{
using server_t = ossia::oscquery_asio::oscquery_server_protocol;
using mirror_t = ossia::oscquery_asio::oscquery_mirror_asio_protocol;

// runs f on the thread of the context and waits for it
void sync(runner& r, std::function<void()> f)
{
  std::mutex m;
  std::condition_variable cv;
  bool done = false;
  boost::asio::post(r.ctx->context, [&] {
    f();
    std::lock_guard l{m};
    done = true;
    cv.notify_one();
  });
  std::unique_lock l{m};
  cv.wait(l, [&] { return done; });
}

struct peer
{
  runner run;
  std::unique_ptr<net::generic_device> dev;
  mirror_t* proto{};
  bool zombies = false;
};

struct world
{
  runner run;
  std::unique_ptr<net::generic_device> dev;
  server_t* proto{};
  std::vector<std::unique_ptr<peer>> peers;
  bool zombies = false; // nodes removed at the server stay at the mirrors, hidden
};

std::string attributes(const net::node_base& n, bool all)
{
  std::string r;
  auto add = [&](const char* k, const std::string& v) { r += std::string(" ") + k + "=" + v; };
  if(!all)
    return n.get_parameter() ? "type=" + std::to_string((int)n.get_parameter()->get_value_type()) : std::string();
  if(auto d = net::get_description(n))
    add("description", *d);
  if(auto t = net::get_tags(n))
    for(auto& x : *t)
      add("tag", x);
  if(auto p = net::get_priority(n))
    add("priority", std::to_string(*p));
  if(auto p = net::get_refresh_rate(n))
    add("refresh", std::to_string(*p));
  if(auto p = net::get_value_step_size(n))
    add("step", std::to_string(*p));
  if(auto p = net::get_instance_bounds(n))
    add("instances", std::to_string(p->min_instances) + ".." + std::to_string(p->max_instances));
  if(net::get_critical(n))
    add("critical", "");
  if(net::get_hidden(n))
    add("hidden", "");
  if(net::get_disabled(n))
    add("disabled", "");
  if(auto e = net::get_extended_type(n))
    add("extended", *e);
  if(auto e = net::get_app_name(n))
    add("app", *e);
  if(auto p = n.get_parameter())
  {
    add("type", std::to_string((int)p->get_value_type()));
    add("access", std::to_string((int)p->get_access()));
    add("bounding", std::to_string((int)p->get_bounding()));
    add("repetition", std::to_string((int)p->get_repetition_filter()));
    add("unit", std::string(ossia::get_pretty_unit_text(p->get_unit())));
    if(p->get_domain())
    {
      auto [lo, hi] = p->get_domain().get_min().valid() || p->get_domain().get_max().valid()
                          ? std::pair{str(p->get_domain().get_min()), str(p->get_domain().get_max())}
                          : std::pair{std::string("-"), std::string("-")};
      add("domain", lo + ".." + hi);
    }
    if(auto d = net::get_default_value(n))
      add("default", str(*d));
  }
  return r;
}

void list(const net::node_base& n, std::map<std::string, std::string>& out, bool values, bool all)
{
  for(auto& c : n.children_copy())
  {
    if(net::get_zombie(*c))
      continue;
    auto a = net::osc_parameter_string(*c);
    SIM_CHECK(c->osc_address() == a, "oscq-address", "osc_address() %s of %s", c->osc_address().c_str(), a.c_str());
    auto s = attributes(*c, all);
    if(values)
      if(auto p = c->get_parameter())
        s += " value=" + str(p->value());
    out[a] = s;
    list(*c, out, values, all);
  }
}

void same_tree(world& w, peer& p, const char* when, bool values)
{
  std::map<std::string, std::string> a, b;
  list(w.dev->get_root_node(), a, values, !p.zombies || values);
  list(p.dev->get_root_node(), b, values, !p.zombies || values);
  for(auto& [k, v] : a)
  {
    auto it = b.find(k);
    SIM_CHECK(it != b.end(), "oscq-missing", "%s: the mirror has no %s", when, k.c_str());
    if(!p.zombies || !v.empty())
      SIM_CHECK(it->second == v, "oscq-differs", "%s: %s is%s at the mirror,%s at the server", when, k.c_str(), it->second.c_str(), v.c_str());
  }
  for(auto& [k, v] : b)
    SIM_CHECK(a.count(k), "oscq-extra", "%s: the mirror has %s, which the server has not", when, k.c_str());
}

std::vector<net::node_base*> all(net::node_base& n)
{
  std::vector<net::node_base*> r;
  for(auto& c : n.children_copy())
    if(!net::get_zombie(*c))
    {
      r.push_back(c);
      for(auto x : all(*c))
        r.push_back(x);
    }
  return r;
}

const char* names[] = {"a", "b", "c", "foo", "a.1"};
const val_type kinds[] = {val_type::INT, val_type::FLOAT, val_type::STRING, val_type::BOOL, val_type::VEC2F, val_type::VEC3F,
                          val_type::VEC4F, val_type::LIST, val_type::IMPULSE, val_type::CHAR};

value some_value(val_type t)
{
  switch(t)
  {
    case val_type::STRING: return std::string(sim::choose(20), 'a' + sim::choose(26));
    case val_type::CHAR: return char('a' + sim::choose(26));
    case val_type::LIST: {
      std::vector<value> l;
      for(int i = sim::choose(5); i >= 0; i--)
        switch(sim::choose(3))
        {
          case 0: l.push_back((int)sim::choose(1000)); break;
          case 1: l.push_back(sim::choose(1000) / 8.f); break;
          case 2: l.push_back(std::string("x") + std::to_string(sim::choose(50))); break;
        }
      return l;
    }
    default: return random_value(t, 2, false);
  }
}

bool plain_parameters; // nothing which changes or filters values

void add_parameter(net::node_base& n)
{
  auto t = kinds[sim::choose(std::size(kinds))];
  auto* p = n.create_parameter(t);
  if(sim::choose(2))
    p->set_value(some_value(t));
  if(plain_parameters)
    return;
  if(sim::choose(3) == 1 && (t == val_type::INT || t == val_type::FLOAT))
  {
    int lo = -(int)sim::choose(100), hi = 1 + sim::choose(100);
    p->set_domain(t == val_type::INT ? make_domain(lo, hi) : make_domain((float)lo, (float)hi));
    p->set_bounding(sim::pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP, bounding_mode::FOLD}));
  }
  if(sim::choose(4) == 1)
    p->set_access(sim::pick({access_mode::GET, access_mode::SET, access_mode::BI}));
  if(sim::choose(5) == 1)
    p->set_repetition_filter(repetition_filter::ON);
}

void attribute(net::node_base& n)
{
  switch(sim::choose(plain_parameters ? 5 : 7))
  {
    case 0: net::set_description(n, std::string("what ") + std::to_string(sim::choose(100))); break;
    case 1: net::set_tags(n, net::tags{"t" + std::to_string(sim::choose(5)), "u"}); break;
    case 2: net::set_priority(n, (float)sim::choose(10)); break;
    case 3: net::set_critical(n, true); break;
    case 4: net::set_hidden(n, true); break;
    case 5:
      if(auto p = n.get_parameter())
        p->set_access(sim::pick({access_mode::GET, access_mode::SET, access_mode::BI}));
      break;
    case 6:
      if(auto p = n.get_parameter(); p && (p->get_value_type() == val_type::INT || p->get_value_type() == val_type::FLOAT))
      {
        int lo = -(int)sim::choose(100), hi = 1 + sim::choose(100);
        p->set_domain(p->get_value_type() == val_type::INT ? make_domain(lo, hi) : make_domain((float)lo, (float)hi));
      }
      break;
  }
}

void edit(world& w)
{
  sync(w.run, [&] {
    auto nodes = all(w.dev->get_root_node());
    switch(nodes.empty() ? 0 : sim::choose(6))
    {
      case 0:
      case 1: {
        auto* parent = nodes.empty() || sim::choose(2) ? &w.dev->get_root_node() : sim::pick_from(nodes);
        if(std::count(parent->osc_address().begin(), parent->osc_address().end(), '/') > 4)
          break;
        auto* c = parent->create_child(names[sim::choose(std::size(names))]);
        sim::log("create %s", c->osc_address().c_str());
        if(sim::choose(4))
          add_parameter(*c);
        if(sim::choose(3) == 1)
          attribute(*c);
        break;
      }
      case 2: {
        auto* n = sim::pick_from(nodes);
        sim::log("remove %s", n->osc_address().c_str());
        n->get_parent()->remove_child(*n);
        break;
      }
      case 3: {
        if(w.zombies)
          break;
        auto* n = sim::pick_from(nodes);
        auto old = n->osc_address();
        n->set_name(names[sim::choose(std::size(names))]);
        sim::log("rename %s to %s", old.c_str(), n->osc_address().c_str());
        break;
      }
      default: {
        auto* n = sim::pick_from(nodes);
        sim::log("attribute %s", n->osc_address().c_str());
        attribute(*n);
        break;
      }
    }
  });
}

bool with_values(net::node_base& n) { return n.get_parameter() && n.get_parameter()->get_value_type() != val_type::IMPULSE; }


struct hit
{
  std::string path;
  value v;
};

// a server, its mirrors, and the values which were given to the callbacks of each device
struct session
{
  world w;
  std::vector<std::vector<hit>> called; // 0: the server
  void listen(net::device_base& d, std::size_t who)
  {
    if(called.size() <= who)
      called.resize(who + 1);
    for(auto* n : all(d.get_root_node()))
      if(auto* p = n->get_parameter(); p && p->callback_count() == 0)
      {
        p->add_callback([this, who, p](const value& v) {
          sim::oracle o;
          called[who].push_back({p->get_node().osc_address(), v});
        });
      }
  }
};

void quiet_network()
{
  auto& n = sim::net();
  sim::net_random_faults();
  auto k = n;
  n = {};
  n.segment = k.segment;
  n.short_read = k.short_read;
  n.short_write = k.short_write;
}

void serve(world& w)
{
  auto sp = std::make_unique<server_t>(w.run.ctx, 1234, 5678);
  w.proto = sp.get();
  w.dev = std::make_unique<net::generic_device>(std::move(sp), "server");
}

void updated(peer& p)
{
  std::future<void> f;
  sync(p.run, [&] { f = p.dev->get_protocol().update_async(p.dev->get_root_node()); });
  sim::settle(5000000000ull);
  SIM_CHECK(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "oscq-update", "update_async() did not finish");
}

peer& mirror(world& w)
{
  int i = w.peers.size();
  auto p = std::make_unique<peer>();
  auto mp = std::make_unique<mirror_t>(p->run.ctx, "ws://127.0.0.1:5678", 10203 + i);
  p->proto = mp.get();
  p->zombies = w.zombies && sim::choose(2);
  p->proto->set_zombie_on_remove(p->zombies);
  p->dev = std::make_unique<net::generic_device>(std::move(mp), "mirror" + std::to_string(i));
  bool ok = false;
  if(sim::stalls())
  {
    // update() gives up after some seconds
    p->run.start();
    updated(*p);
    ok = true;
  }
  else if(sim::choose(2))
  {
    ok = p->dev->get_protocol().update(p->dev->get_root_node());
    p->run.start();
  }
  else
  {
    p->run.start();
    sync(p->run, [&] { ok = p->dev->get_protocol().update(p->dev->get_root_node()); });
  }
  SIM_CHECK(ok, "oscq-update", "update() failed");
  sim::settle(5000000000ull);
  same_tree(w, *p, "after update()", true);
  w.peers.push_back(std::move(p));
  return *w.peers.back();
}

void finish(world& w)
{
  w.run.stop();
  for(auto& p : w.peers)
    p->run.stop();
  std::vector<int> order;
  for(auto& p : w.peers)
    p->dev.reset();
  w.dev.reset();
}

void mirrored(bool edits)
{
  quiet_network();
  world w;
  serve(w);
  w.zombies = sim::choose(4) == 1;
  w.run.start();
  int initial = sim::choose(8);
  for(int i = 0; i < initial; i++)
    edit(w);
  int np = 1 + sim::choose(2);
  for(int i = 0; i < np; i++)
    mirror(w);
  int steps = edits ? 1 + sim::choose(12) : 0;
  for(int i = 0; i < steps; i++)
  {
    for(int k = sim::choose(3); k >= 0; k--)
      edit(w);
    sim::settle(5000000000ull);
    for(auto& p : w.peers)
      same_tree(w, *p, "after an edit", false);
  }
  finish(w);
}

// values which are pushed at one device arrive at all the others, once and in order
void values(bool bundles, bool moves)
{
  plain_parameters = moves;
  quiet_network();
  session s;
  world& w = s.w;
  serve(w);
  bool echo = sim::choose(3);
  w.dev->set_echo(echo);
  w.run.start();
  int initial = 2 + sim::choose(8);
  for(int i = 0; i < initial; i++)
    sync(w.run, [&] {
      auto& root = w.dev->get_root_node();
      auto nodes = all(root);
      auto* parent = nodes.empty() || sim::choose(2) ? &root : sim::pick_from(nodes);
      auto* c = parent->create_child(names[sim::choose(std::size(names))]);
      auto t = kinds[sim::choose(std::size(kinds))];
      auto* p = c->create_parameter(t);
      if(sim::choose(4) == 1)
        p->set_access(sim::pick({access_mode::GET, access_mode::SET, access_mode::BI}));
      if(sim::choose(4) == 1)
        p->set_critical(true);
    });
  int np = 1 + sim::choose(3);
  for(int i = 0; i < np; i++)
    mirror(w);
  s.listen(*w.dev, 0);
  for(int i = 0; i < np; i++)
    s.listen(*w.peers[i]->dev, i + 1);
  sim::settle(5000000000ull);
  int steps = 1 + sim::choose(10);
  for(int k = 0; k < steps; k++)
  {
    std::size_t who = sim::choose(np + 1);
    auto& dev = who ? *w.peers[who - 1]->dev : *w.dev;
    if(moves && sim::choose(2))
    {
      for(int j = sim::choose(3); j >= 0; j--)
        edit(w);
      if(sim::choose(3) == 1)
        sync(w.run, [&] { w.dev->get_root_node().set_name(names[sim::choose(std::size(names))]); });
      sim::settle(5000000000ull);
      s.listen(*w.dev, 0);
      for(int i = 0; i < np; i++)
      {
        same_tree(w, *w.peers[i], "after an edit", false);
        s.listen(*w.peers[i]->dev, i + 1);
      }
      sim::settle(5000000000ull);
    }
    if(moves && all(dev.get_root_node()).empty())
      continue;
    for(auto& c : s.called)
      c.clear();
    std::map<std::string, std::vector<value>> sent;
    auto push_bundle = [&] {
      auto nodes = all(dev.get_root_node());
      std::vector<const net::parameter_base*> ps;
      for(auto* n : nodes)
      {
        auto* p = n->get_parameter();
        if(!p || !sim::choose(2) || p->get_value_type() == val_type::IMPULSE || (who && p->get_access() == access_mode::GET))
          continue;
        auto v = some_value(p->get_value_type());
        sim::log("%zu: in a bundle %s %s", who, n->osc_address().c_str(), str(v).c_str());
        p->set_value_quiet(v);
        ps.push_back(p);
        sim::oracle o;
        sent[n->osc_address()].push_back(v);
      }
      if(!ps.empty())
        dev.get_protocol().push_bundle(ps);
    };
    auto push = [&] {
      if(bundles && sim::choose(2))
        return push_bundle();
      for(int j = sim::choose(5); j >= 0; j--)
      {
        auto nodes = all(dev.get_root_node());
        auto* n = sim::pick_from(nodes);
        auto* p = n->get_parameter();
        if(!p)
          continue;
        auto v = some_value(p->get_value_type());
        sim::log("%zu: push %s %s", who, n->osc_address().c_str(), str(v).c_str());
        if(who == 0 || p->get_access() != access_mode::GET)
        {
          sim::oracle o;
          sent[n->osc_address()].push_back(v);
        }
        p->push_value(v);
      }
    };
    bool inside = sim::choose(2);
    if(inside)
      sync(who ? w.peers[who - 1]->run : w.run, push);
    else
      push();
    sim::settle(5000000000ull);
    sim::oracle o;
    for(std::size_t i = 0; i < s.called.size(); i++)
    {
      std::map<std::string, std::vector<value>> got;
      for(auto& h : s.called[i])
        got[h.path].push_back(h.v);
      if(i == who)
      {
        for(auto& [a, vs] : sent)
          SIM_CHECK(got[a].size() <= vs.size(), "oscq-echoed", "device %zu pushed %zu values to %s and got some back: %zu calls", who, vs.size(), a.c_str(), got[a].size());
        continue;
      }
      for(auto& [a, vs] : sent)
      {
        if(who && i && !echo)
          continue;
        auto& g = got[a];
        for(std::size_t j = 0; j < vs.size(); j++)
        {
          SIM_CHECK(j < g.size(), "oscq-lost", "device %zu got %zu of %zu values which %zu pushed to %s", i, g.size(), vs.size(), who, a.c_str());
          SIM_CHECK(same(g[j], vs[j]), "oscq-value", "device %zu got %s as value %zu of %s, %zu pushed %s", i, str(g[j]).c_str(), j, a.c_str(), who, str(vs[j]).c_str());
        }
        SIM_CHECK(g.size() == vs.size(), "oscq-twice", "device %zu got %zu values of %s, %zu pushed %zu", i, g.size(), a.c_str(), who, vs.size());
      }
      for(auto& [a, g] : got)
        SIM_CHECK(sent.count(a) || g.empty(), "oscq-invented", "device %zu got %s %s, which nobody pushed", i, a.c_str(), str(g[0]).c_str());
    }
  }
  finish(w);
}

std::unique_ptr<peer> new_peer(world& w, int port)
{
  auto p = std::make_unique<peer>();
  auto mp = std::make_unique<mirror_t>(p->run.ctx, "ws://127.0.0.1:5678", port);
  p->proto = mp.get();
  p->proto->set_zombie_on_remove(false);
  p->dev = std::make_unique<net::generic_device>(std::move(mp), "mirror");
  p->run.start();
  return p;
}

void leave(std::unique_ptr<peer> p)
{
  if(sim::choose(2))
  {
    sync(p->run, [&] { p->dev.reset(); });
    sim::sleep_ns(sim::choose(3) * 200000);
    p->run.stop();
  }
  else
  {
    p->run.stop();
    p->dev.reset();
  }
}

// mirrors come and go, connections break: those which are there work
void sessions(bool breaks)
{
  quiet_network();
  sim::step_limit(1000000);
  world w;
  serve(w);
  w.run.start();
  for(int i = 1 + sim::choose(5); i >= 0; i--)
    edit(w);
  int port = 10203;
  auto push = [&](net::generic_device& dev) {
    auto nodes = all(dev.get_root_node());
    if(nodes.empty())
      return;
    if(auto* p = sim::pick_from(nodes)->get_parameter())
    {
      auto v = some_value(p->get_value_type());
      try
      {
        p->push_value(v);
      }
      catch(const std::exception& e)
      {
        sim::log("push: %s", e.what());
      }
    }
  };
  int steps = 2 + sim::choose(10);
  for(int k = 0; k < steps; k++)
  {
    switch(sim::choose(7))
    {
      case 0:
      case 1:
        if(w.peers.size() < 3)
        {
          sim::log("a mirror comes");
          w.peers.push_back(new_peer(w, port++));
        }
        break;
      case 2:
        if(!w.peers.empty())
        {
          auto i = sim::choose(w.peers.size());
          sim::log("a mirror goes");
          auto p = std::move(w.peers[i]);
          w.peers.erase(w.peers.begin() + i);
          leave(std::move(p));
        }
        break;
      case 3: edit(w); break;
      case 4:
        for(int i = sim::choose(4); i >= 0; i--)
        {
          bool inside = sim::choose(2);
          if(w.peers.empty() || sim::choose(2))
            inside ? sync(w.run, [&] { push(*w.dev); }) : push(*w.dev);
          else
          {
            // the tree of a mirror belongs to its thread
            auto& p = *sim::pick_from(w.peers);
            sync(p.run, [&] { push(*p.dev); });
          }
        }
        break;
      case 5:
        if(!w.peers.empty())
        {
          auto& p = *sim::pick_from(w.peers);
          sync(p.run, [&] {
            sim::log("update");
            p.dev->get_protocol().update_async(p.dev->get_root_node());
          });
        }
        break;
      case 6:
        if(breaks)
        {
          sim::log("connections break");
          sim::reset_connections(5678);
        }
        break;
    }
    if(sim::choose(2))
      sim::sleep_ns(sim::choose(4) * 300000);
  }
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
    sync(p->run, [&] {
      if(!p->dev->get_protocol().connected())
      {
        sim::log("reconnect");
        p->dev->get_protocol().connect();
      }
    });
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
  {
    SIM_CHECK(p->dev->get_protocol().connected(), "oscq-connect", "connect() did not connect");
    updated(*p);
    same_tree(w, *p, "in the end", true);
  }
  for(int i = 0; i < 3; i++)
    sync(w.run, [&] { push(*w.dev); });
  edit(w);
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
    same_tree(w, *p, "after the last push", false);
  if(sim::choose(2))
    sync(w.run, [&] { w.dev.reset(); });
  finish(w);
}

// values are pushed from several threads while connections break and come back
void threads()
{
  quiet_network();
  sim::step_limit(1000000);
  world w;
  serve(w);
  bool echo = sim::choose(2);
  w.dev->set_echo(echo);
  w.run.start();
  for(int i = 1 + sim::choose(4); i >= 0; i--)
    sync(w.run, [&] {
      auto* c = w.dev->get_root_node().create_child(names[sim::choose(std::size(names))]);
      auto* p = c->create_parameter(kinds[sim::choose(std::size(kinds))]);
      if(sim::choose(3) == 1)
        p->set_critical(true);
    });
  int np = 1 + sim::choose(2);
  for(int i = 0; i < np; i++)
  {
    w.peers.push_back(new_peer(w, 10203 + i));
    updated(*w.peers[i]);
    same_tree(w, *w.peers[i], "after update_async()", true);
  }
  auto push = [&](net::generic_device& dev) {
    auto nodes = all(dev.get_root_node());
    auto* p = sim::pick_from(nodes)->get_parameter();
    try
    {
      p->push_value(some_value(p->get_value_type()));
    }
    catch(const std::exception& e)
    {
      sim::log("push: %s", e.what());
    }
  };
  std::atomic_bool stop{};
  std::thread server_side{[&] {
    for(int i = sim::choose(30); i >= 0 && !stop; i--)
    {
      push(*w.dev);
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(4) * 100000);
    }
  }};
  for(int i = sim::choose(20); i >= 0; i--)
  {
    auto& p = *sim::pick_from(w.peers);
    switch(sim::choose(6))
    {
      case 0: sim::reset_connections(5678); break;
      case 1: sync(p.run, [&] { p.dev->get_protocol().connect(); }); break;
      default: push(*p.dev); break;
    }
    if(sim::choose(2))
      sim::sleep_ns(sim::choose(4) * 100000);
  }
  stop = true;
  server_side.join();
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
    sync(p->run, [&] {
      if(!p->dev->get_protocol().connected())
        p->dev->get_protocol().connect();
    });
  sim::settle(5000000000ull);
  for(auto* n : all(w.dev->get_root_node()))
    n->get_parameter()->push_value(some_value(n->get_parameter()->get_value_type()));
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
    same_tree(w, *p, "in the end", true);
  finish(w);
}

std::string address(world& w)
{
  auto nodes = all(w.dev->get_root_node());
  switch(sim::choose(8))
  {
    case 0: return "/";
    case 1: return "";
    case 2: return "/nowhere/at/all";
    case 3: return "//a*?{b,[c-z]}";
    case 4: return std::string(sim::choose(300), '/');
    case 5: return "foo";
    default: return nodes.empty() ? "/a" : sim::pick_from(nodes)->osc_address();
  }
}

std::string json_value(world& w, int depth = 0)
{
  switch(sim::choose(depth > 3 ? 7 : 10))
  {
    case 0: return "null";
    case 1: return "true";
    case 2: return std::to_string((int)sim::choose(100000) - 50000);
    case 3: return "1e30";
    case 4: return "\"" + std::string(sim::choose(20), 'x') + "\"";
    case 5: return "\"" + address(w) + "\"";
    case 6: return "-0.5";
    case 7: {
      std::string r = "[";
      for(int i = sim::choose(4); i > 0; i--)
        r += json_value(w, depth + 1) + (i > 1 ? "," : "");
      return r + "]";
    }
    default: {
      static const char* keys[] = {"DATA", "COMMAND", "LOCAL_SERVER_PORT", "LOCAL_SENDER_PORT", "FULL_PATH", "VALUE", "TYPE", "OLD", "NEW", "x"};
      std::string r = "{";
      for(int i = sim::choose(4); i > 0; i--)
        r += std::string("\"") + (sim::choose(3) ? keys[sim::choose(std::size(keys))] : address(w)) + "\":" + json_value(w, depth + 1) + (i > 1 ? "," : "");
      return r + "}";
    }
  }
}

std::string mutated(std::string s)
{
  for(int i = sim::choose(3) == 1 ? 1 + sim::choose(4) : 0; i > 0 && !s.empty(); i--)
    switch(sim::choose(3))
    {
      case 0: s[sim::choose(s.size())] = (char)sim::choose(256); break;
      case 1: s.erase(sim::choose(s.size()), 1 + sim::choose(5)); break;
      case 2: s.resize(sim::choose(s.size())); break;
    }
  return s;
}

std::string request(world& w)
{
  static const char* queries[] = {"VALUE", "TYPE", "RANGE", "CONTENTS", "FULL_PATH", "HOST_INFO", "HTML", "LISTEN", "UNIT", "ADD_NODE", "REMOVE_NODE", "RENAME_NODE", "DEFAULT_VALUE", "nothing", ""};
  std::string r = address(w);
  if(sim::choose(4))
  {
    r += '?';
    for(int i = sim::choose(3); i >= 0; i--)
    {
      r += queries[sim::choose(std::size(queries))];
      if(sim::choose(3) == 1)
        r += "=" + sim::pick({std::string("true"), std::string("false"), std::string("a b%20%zz%"), std::string(), std::string("foo")});
      if(i)
        r += '&';
    }
  }
  return mutated(r);
}

std::string command(world& w)
{
  static const char* commands[] = {"LISTEN", "IGNORE", "START_OSC_STREAMING", "PATH_ADDED", "nothing"};
  if(sim::choose(40) == 1)
  {
    // deeply nested
    int n = 1 << (6 + sim::choose(12));
    std::string r, one = sim::pick({"[", "{\"a\":"}) ;
    for(int i = 0; i < n; i++)
      r += one;
    return "{\"" + address(w) + "\":" + r + (sim::choose(2) ? "1" + std::string(n, one == "[" ? ']' : '}') + "}" : "");
  }
  switch(sim::choose(4))
  {
    case 0: return request(w);
    case 1: return mutated(json_value(w));
    case 2: return mutated("{\"" + address(w) + "\":" + json_value(w) + "}");
    default: return mutated(std::string("{\"COMMAND\":\"") + commands[sim::choose(std::size(commands))] + "\",\"DATA\":" + json_value(w) + "}");
  }
}

struct got_answer
{
  template <typename T, typename S>
  void operator()(T& req, const S&) { req.close(); }
  template <typename T>
  void operator()(T& req) { req.close(); }
};

// clients which ask for nonsense
void hostile()
{
  quiet_network();
  sim::step_limit(1000000);
  world w;
  serve(w);
  w.run.start();
  for(int i = 1 + sim::choose(6); i >= 0; i--)
    edit(w);
  if(sim::choose(2))
    mirror(w);
  std::map<std::string, std::string> before;
  list(w.dev->get_root_node(), before, false, true);
  {
    runner ctx;
    ctx.start();
    std::unique_ptr<ossia::net::websocket_client> ws;
    int answers = 0;
    sync(ctx, [&] {
      ws = std::make_unique<ossia::net::websocket_client>(ctx.ctx->context, [&](auto&&, auto&&, std::string&) { answers++; });
      ws->connect("ws://127.0.0.1:5678");
    });
    sim::settle(5000000000ull);
    for(int i = 1 + sim::choose(20); i >= 0; i--)
    {
      sync(ctx, [&] {
        if(sim::choose(3))
        {
          auto c = command(w);
          sim::log("ws: %s", c.c_str());
          if(sim::choose(8))
            ws->send_message(c);
          else
            ws->send_binary_message(c);
        }
        else
        {
          auto c = request(w);
          sim::log("http: %s", c.c_str());
          using request_t = ossia::net::http_get_request<got_answer, got_answer>;
          auto r = std::make_shared<request_t>(got_answer{}, got_answer{}, ctx.ctx->context, "127.0.0.1", c);
          r->resolve("127.0.0.1", "5678");
        }
      });
      if(sim::choose(2))
        sim::settle(5000000000ull);
    }
    sim::settle(5000000000ull);
    sync(ctx, [&] { ws.reset(); });
    ctx.stop();
  }
  std::map<std::string, std::string> after;
  list(w.dev->get_root_node(), after, false, true);
  SIM_CHECK(before == after, "oscq-hostile", "the tree changed");
  auto& p = mirror(w);
  edit(w);
  sim::settle(5000000000ull);
  for(auto& p : w.peers)
    same_tree(w, *p, "after hostile clients", false);
  finish(w);
}

// a server which answers and announces nonsense
std::string announcement(world& w)
{
  static const char* commands[] = {"PATH_ADDED", "PATH_REMOVED", "PATH_RENAMED", "PATH_CHANGED", "ATTRIBUTES_CHANGED", "LISTEN"};
  static const char* keys[] = {"FULL_PATH", "VALUE", "TYPE", "RANGE", "CLIPMODE", "ACCESS", "UNIT", "EXTENDED_TYPE", "TAGS", "DESCRIPTION", "CONTENTS", "DEFAULT_VALUE", "CRITICAL", "PRIORITY"};
  static const char* types[] = {"i", "f", "s", "T", "F", "ff", "fff", "ffff", "r", "[ff", "]", "", "N", "I", "c", "iii", "[i[f]]", "h"};
  std::function<std::string(int)> object = [&](int depth) {
    std::string r = "{";
    for(int i = sim::choose(6); i >= 0; i--)
    {
      auto k = keys[sim::choose(std::size(keys))];
      r += std::string("\"") + k + "\":";
      if(!strcmp(k, "FULL_PATH") && sim::choose(4))
        r += "\"" + address(w) + "\"";
      else if(!strcmp(k, "TYPE") && sim::choose(4))
        r += std::string("\"") + types[sim::choose(std::size(types))] + "\"";
      else if(!strcmp(k, "CONTENTS") && sim::choose(4))
        r += depth < 3 ? "{\"n" + std::to_string(sim::choose(3)) + "\":" + object(depth + 1) + "}" : "{}";
      else if(!strcmp(k, "RANGE") && sim::choose(4))
        r += sim::choose(2) ? "[{\"MIN\":" + json_value(w) + ",\"MAX\":" + json_value(w) + "}]" : "[{\"VALS\":" + json_value(w) + "}]";
      else
        r += json_value(w);
      if(i)
        r += ",";
    }
    return r + "}";
  };
  switch(sim::choose(5))
  {
    case 0: return command(w);
    case 1: return mutated(object(0));
    case 2: return mutated("{\"NAME\":" + json_value(w) + ",\"OSC_IP\":" + json_value(w) + ",\"OSC_PORT\":" + json_value(w) + ",\"EXTENSIONS\":" + json_value(w) + "}");
    case 3: return mutated("{\"COMMAND\":\"PATH_RENAMED\",\"DATA\":{\"OLD\":\"" + address(w) + "\",\"NEW\":\"" + address(w) + "\"}}");
    default: {
      auto c = commands[sim::choose(std::size(commands))];
      return mutated(std::string("{\"COMMAND\":\"") + c + "\",\"DATA\":" + (strcmp(c, "ATTRIBUTES_CHANGED") ? (sim::choose(4) ? "\"" + address(w) + "\"" : json_value(w)) : object(0)) + "}");
    }
  }
}

void hostile_server()
{
  quiet_network();
  sim::step_limit(1000000);
  world w; // the addresses which are used
  w.dev = std::make_unique<net::generic_device>("model");
  for(int i = 2 + sim::choose(6); i >= 0; i--)
  {
    auto* c = w.dev->get_root_node().create_child(names[sim::choose(std::size(names))]);
    if(sim::choose(4))
      add_parameter(*c);
    if(sim::choose(2))
      add_parameter(*c->create_child("x"));
  }
  runner rs;
  ossia::net::websocket_server srv{rs.ctx->context};
  std::vector<ossia::net::websocket_server::connection_handler> clients;
  srv.set_open_handler([&](ossia::net::websocket_server::connection_handler h) { clients.push_back(h); });
  srv.set_message_handler([&](auto&& h, auto&&, const std::string& s) -> ossia::net::server_reply {
    if(!s.empty() && s[0] == '/' && sim::choose(3))
    {
      auto r = s == "/?HOST_INFO" ? ossia::oscquery::json_writer::query_host_info("model", 1234) : ossia::oscquery::json_writer::query_namespace(w.dev->get_root_node());
      return mutated(r.GetString());
    }
    return announcement(w);
  });
  srv.listen(5678);
  rs.start();
  {
    auto p = new_peer(w, 10203);
    sim::settle(5000000000ull);
    sync(p->run, [&] { p->dev->get_protocol().update_async(p->dev->get_root_node()); });
    sim::settle(5000000000ull);
    for(int i = 1 + sim::choose(20); i >= 0; i--)
    {
      sync(rs, [&] {
        for(auto& h : clients)
        {
          auto a = announcement(w);
          sim::log("announce %s", a.c_str());
          try
          {
            srv.send_message(h, a);
          }
          catch(const std::exception& e)
          {
          }
        }
      });
      if(sim::choose(8) == 1)
        sync(p->run, [&] {
          if(!p->dev->get_protocol().connected())
            p->dev->get_protocol().connect();
          p->dev->get_protocol().update_async(p->dev->get_root_node());
        });
      if(sim::choose(2))
        sim::settle(5000000000ull);
    }
    sim::settle(5000000000ull);
    // whatever it believes now, its nodes have parents and addresses
    std::map<std::string, std::string> t;
    sync(p->run, [&] { list(p->dev->get_root_node(), t, true, true); });
    leave(std::move(p));
  }
  rs.stop();
  w.dev.reset();
}
}
SIM_SCENARIO("P14", oscq_hostile_server) { hostile_server(); }
SIM_SCENARIO("P14", oscq_hostile) { hostile(); }
SIM_SCENARIO("P14", oscq_threads) { threads(); }
SIM_SCENARIO("P14", oscq_sessions) { sessions(false); }
SIM_SCENARIO("P14", oscq_breaks) { sessions(true); }
SIM_SCENARIO("P14", oscq_update) { mirrored(false); }
SIM_SCENARIO("P14", oscq_edits) { mirrored(true); }
SIM_SCENARIO("P14", oscq_values) { values(false, false); }
SIM_SCENARIO("P14", oscq_bundles) { values(true, false); }
SIM_SCENARIO("P14", oscq_moved) { values(false, true); }
