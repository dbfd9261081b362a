// P19: what parameters receive between ticks reaches the event inlets
#include "common.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph_interface.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <iostream>
#include <map>
#include <optional>

using namespace ossia;
namespace
{
struct rnode final : graph_node
{
  int id;
  std::vector<value_inlet*> in;
  value_outlet* out{};
  int to_write = 0;
  bool ran = false;
  std::vector<std::vector<int>> got; // per inlet, in the tick

  explicit rnode(int i)
      : id{i}
  {
  }
  value_inlet* add()
  {
    auto p = new value_inlet;
    p->data.is_event = true;
    // what the graph wrote earlier in the tick would replace what was received
    p->scope = port::scope_t::global;
    in.push_back(p);
    root_inputs().push_back(p);
    return p;
  }
  void run(const token_request& t, exec_state_facade st) noexcept override
  {
    std::vector<std::vector<int>> g;
    for(auto p : in)
    {
      g.emplace_back();
      for(auto& v : p->data.get_data())
      {
        auto i = v.value.target<int>();
        g.back().push_back(i ? *i : -1);
      }
    }
    if(out && to_write)
      out->data.write_value(to_write, 0);
    sim::oracle o;
    ran = true;
    got = g;
  }
};
struct pushed
{
  int thread, value;
  uint64_t from, to;
};
std::string show(const std::vector<int>& v)
{
  std::string r;
  for(int i : v)
    r += std::to_string(i) + " ";
  return r;
}
}

namespace
{
void event_inlets(bool churn)
{
  int nd = 1 + sim::choose(2);
  std::vector<std::unique_ptr<net::generic_device>> devs;
  std::vector<net::parameter_base*> ps;
  execution_state e;
  int np = 2 + sim::choose(3);
  for(int i = 0; i < nd; i++)
  {
    devs.push_back(std::make_unique<net::generic_device>(std::make_unique<net::multiplex_protocol>(), "dev" + std::to_string(i)));
    e.register_device(devs.back().get());
  }
  for(int i = 0; i < np; i++)
    ps.push_back(devs[i % nd]->create_child("p" + std::to_string(i))->create_parameter(val_type::INT));
  sim::cooperate(sim::pick({3u, 8u, 30u}), sim::pick({20u, 60u, 200u}));
  sim::step_limit(800000);
  graph_setup_options opt;
  if(sim::chance(1, 3))
    opt.parallel = true;
  else
    opt.scheduling = decltype(opt.scheduling)(sim::choose(4));
  auto g = make_graph(opt);
  // hears everything
  auto ref = std::make_shared<rnode>(0);
  for(auto p : ps)
    ref->add()->address = p;
  g->add_node(ref);
  struct listener
  {
    std::shared_ptr<rnode> n;
    std::vector<bool> reg;
    std::vector<int> param; // -1: all, by a path
  };
  std::vector<listener> ls;
  int nl = 1 + sim::choose(3);
  for(int i = 0; i < nl; i++)
  {
    listener l{std::make_shared<rnode>(i + 1), {}, {}};
    int k = 1 + sim::choose(2);
    for(int j = 0; j < k; j++)
    {
      auto p = l.n->add();
      if(sim::chance(1, 5))
      {
        p->address = *traversal::make_path("//p.*");
        l.param.push_back(-1);
      }
      else
      {
        l.param.push_back(sim::choose(np));
        p->address = ps[l.param.back()];
      }
      l.reg.push_back(false);
    }
    g->add_node(l.n);
    ls.push_back(l);
  }
  auto wr = std::make_shared<rnode>(100);
  wr->out = new value_outlet;
  wr->root_outputs().push_back(wr->out);
  int wp = sim::choose(np);
  wr->out->address = ps[wp];
  g->add_node(wr);

  // devices are in use from the next tick on
  e.begin_tick();
  g->state(e);
  e.commit();
  // when what each parameter receives had to arrive: from, from at the earliest, to, to at the latest
  struct window
  {
    uint64_t from0, from, to, to1;
  };
  std::vector<std::vector<window>> windows(np);
  std::vector<bool> there(nd, true);
  std::vector<int> uses(np, 0);
  auto use = [&](value_inlet* in, int param, bool on) {
    auto b = sim::seq();
    if(on)
      e.register_port(*in);
    else
      e.unregister_port(*in);
    auto a = sim::seq();
    sim::oracle o;
    for(int p = 0; p < np; p++)
      if(param < 0 || p == param)
      {
        auto& w = windows[p];
        if(on && uses[p]++ == 0)
          w.push_back({b, a, UINT64_MAX, UINT64_MAX});
        else if(!on && --uses[p] == 0)
          w.back().to = b, w.back().to1 = a;
      }
  };
  std::vector<bool> hears(np, false);
  auto hear = [&](int p, bool on) {
    hears[p] = on;
    sim::log("%sregister the reference of %d", on ? "" : "un", p);
    use(ref->in[p], p, on);
  };
  for(int p = 0; p < np; p++)
    hear(p, true);

  std::vector<std::vector<pushed>> hist(np); // of each parameter
  std::vector<std::vector<int>> heard(np);
  std::atomic<int> going;
  std::atomic<bool> over{false};
  int nt = 1 + sim::choose(3);
  going = nt;
  std::vector<std::thread> ts;
  for(int t = 0; t < nt; t++)
  {
    int n = 1 + sim::choose(12);
    unsigned gap = sim::pick({0u, 1u, 20u, 300u});
    if(sim::chance(1, 25))
    {
      // a flood
      n = sim::chance(1, 8) ? 2000 : 50 + sim::choose(300);
      gap = 0;
      if(n == 2000)
        sim::step_limit(4000000);
    }
    std::vector<std::pair<int, unsigned>> plan;
    for(int i = 0; i < n; i++)
      plan.push_back({(int)sim::choose(np), gap ? sim::choose(gap) : 0});
    ts.emplace_back([&, t, plan] {
      int v = (t + 1) * 10000;
      for(auto& [p, d] : plan)
      {
        pushed x{t, ++v, 0, 0};
        x.from = sim::seq();
        ps[p]->push_value(v);
        x.to = sim::seq();
        {
          sim::oracle o;
          hist[p].push_back(x);
        }
        if(d)
          sim::sleep_ns(d * 1000);
      }
      going--;
      // a thread that ends while a queue it wrote to is deleted is a race of moodycamel's own
      while(!over)
        sim::sleep_ns(100000);
    });
  }
  int wv = 50000;
  std::vector<bool> coming(nd, false);
  std::vector<int> closing;
  auto all = [&](int p) { return p < 0 ? std::find(there.begin(), there.end(), false) == there.end() : bool(there[p % nd]); };
  int quiet_ticks = 0;
  std::vector<std::pair<uint64_t, uint64_t>> began; // of each tick
  std::map<int, int> when;                          // the tick in which each value was heard
  for(int tick = 1; quiet_ticks < 2; tick++)
  {
    SIM_CHECK(tick < 100000, "no-progress", "the threads that push do not end");
    if(going == 0)
      quiet_ticks++;
    // edit
    if(churn)
    {
      for(int p = 0; p < np; p++)
        if(there[p % nd] && sim::chance(1, 6))
          hear(p, !hears[p]);
      for(int d = 0; d < nd; d++)
      {
        if(there[d] && sim::chance(1, 8))
        {
          // nothing of it is heard any more
          bool cut = sim::chance(1, 2);
          if(cut)
          {
            // the device leaves with its ports still there
            auto b = sim::seq();
            e.unregister_device(devs[d].get());
            sim::oracle o;
            for(int p = d; p < np; p += nd)
            {
              if(uses[p])
              {
                windows[p].back().to = b;
                closing.push_back(p);
              }
              uses[p] = 0;
              hears[p] = false;
            }
          }
          for(auto& l : ls)
            for(size_t i = 0; i < l.reg.size(); i++)
              if(l.reg[i] && (l.param[i] < 0 || l.param[i] % nd == d))
              {
                if(!cut)
                  use(l.n->in[i], l.param[i], false);
                else if(l.param[i] < 0)
                {
                  // the other devices it listens to
                  auto b = sim::seq();
                  e.unregister_port(*l.n->in[i]);
                  for(int p = 0; p < np; p++)
                    if(p % nd != d && --uses[p] == 0)
                    {
                      windows[p].back().to = b;
                      closing.push_back(p);
                    }
                }
                l.reg[i] = false;
              }
          for(int p = d; p < np; p += nd)
            if(hears[p])
              hear(p, false);
          if(!cut)
            e.unregister_device(devs[d].get());
          there[d] = false;
          sim::probe("unregister-device");
          if(sim::chance(1, 2))
          {
            // and back in the same tick
            e.register_device(devs[d].get());
            coming[d] = true;
          }
        }
        else if(!there[d] && !coming[d] && sim::chance(1, 3))
        {
          e.register_device(devs[d].get());
          coming[d] = true;
        }
      }
    }
    for(auto& l : ls)
      for(size_t i = 0; i < l.reg.size(); i++)
        if(all(l.param[i]) && sim::chance(1, 4))
        {
          l.reg[i] = !l.reg[i];
          sim::log("%sregister %d.%zu of %d", l.reg[i] ? "" : "un", l.n->id, i, l.param[i]);
          use(l.n->in[i], l.param[i], l.reg[i]);
        }
    ref->ran = false;
    token_request r;
    r.prev_date = time_value{tick * 10};
    r.date = time_value{tick * 10 + 10};
    ref->request(r);
    for(auto& l : ls)
    {
      l.n->ran = false;
      if(sim::chance(3, 4))
        l.n->request(r);
    }
    wr->to_write = 0;
    if(sim::chance(1, 3))
    {
      wr->request(r);
      wr->to_write = ++wv;
    }
    uint64_t b0 = sim::seq();
    e.begin_tick();
    {
      sim::oracle o;
      began.push_back({b0, sim::seq()});
      for(int p : closing)
        windows[p].back().to1 = sim::seq();
      closing.clear();
    }
    for(int d = 0; d < nd; d++)
      if(coming[d])
        there[d] = true, coming[d] = false;
    g->state(e);
    uint64_t from = sim::seq();
    e.commit();
    {
      sim::oracle o;
      if(wr->to_write)
        hist[wp].push_back({100, wr->to_write, from, sim::seq()});
      SIM_CHECK(ref->ran, "events-not-run", "the node did not run");
      for(int p = 0; p < np; p++)
      {
        if(!ref->got[p].empty())
          sim::log("tick %d: p%d got %s", tick, p, show(ref->got[p]).c_str());
        for(int v : ref->got[p])
          when[v] = tick;
        heard[p].insert(heard[p].end(), ref->got[p].begin(), ref->got[p].end());
      }
      for(auto& l : ls)
        if(l.n->ran)
          for(size_t i = 0; i < l.param.size(); i++)
          {
            auto& got = l.n->got[i];
            std::vector<int> want;
            if(l.param[i] >= 0)
              want = ref->got[l.param[i]];
            else if(!all(-1))
              continue;
            else
            {
              // all the parameters, one after another
              std::vector<int> a = got;
              for(auto& x : ref->got)
                want.insert(want.end(), x.begin(), x.end());
              if(a != want)
              {
                std::sort(a.begin(), a.end());
                auto b = want;
                std::sort(b.begin(), b.end());
                if(a == b)
                  want = got;
              }
              sim::probe("path");
            }
            SIM_CHECK(got == want, "events-differ", "tick %d: inlet %d.%zu got %s instead of %s", tick, l.n->id, i, show(got).c_str(),
                      show(want).c_str());
          }
    }
    if(unsigned w = sim::pick({0u, 1u, 50u, 500u}))
      sim::sleep_ns(w * 1000);
  }
  over = true;
  for(auto& t : ts)
    t.join();
  sim::oracle o;
  for(int p = 0; p < np; p++)
  {
    // the last value of the last tick is still under way
    if(p == wp && wr->to_write)
      std::erase_if(hist[p], [&](auto& x) { return x.value == wr->to_write; });
    std::map<int, int> count;
    for(int v : heard[p])
      count[v]++;
    size_t n = 0;
    for(auto& x : hist[p])
    {
      bool must = false, may = false;
      for(auto& w : windows[p])
      {
        must = must || (x.from > w.from && x.to < w.to);
        may = may || (x.to > w.from0 && x.from < w.to1);
      }
      SIM_CHECK(count[x.value] >= must && count[x.value] <= may, "events-lost", "p%d: %d was received %d times, between %d and %d expected",
                p, x.value, count[x.value], must, may);
      if(!must)
        sim::probe("not-heard");
      n += count[x.value];
      if(must && count[x.value])
      {
        // not before it was pushed, and at the latest in the first tick that begins after that
        int t = when[x.value];
        SIM_CHECK(began[t - 1].second > x.from, "events-early", "%d was received by tick %d, before it was pushed", x.value, t);
        SIM_CHECK(t == 1 || began[t - 2].first < x.to, "events-late", "p%d: %d was received by tick %d, not by the one before", p,
                  x.value, t);
      }
    }
    SIM_CHECK(heard[p].size() == n, "events-made-up", "p%d: %zu values were received, %zu pushed", p, heard[p].size(), n);
    std::map<int, int> last;
    for(int v : heard[p])
    {
      int t = v / 10000;
      SIM_CHECK(v > last[t], "events-order", "p%d: %d was received after %d", p, v, last[t]);
      last[t] = v;
    }
  }
  g->clear();
}
}

SIM_SCENARIO("P19", event_inlets)
{
  event_inlets(false);
}

SIM_SCENARIO("P19", event_churn)
{
  event_inlets(true);
}
