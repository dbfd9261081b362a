// P18: the dataflow graph runs every node once per tick, after those it depends on
#include "common.hpp"
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph_interface.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/editor/state/state.hpp>
#include <ossia/editor/state/message.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/destination.hpp>
#include <cmath>
#include <iostream>
#include <map>
#include <optional>
#include <set>

using namespace ossia;
namespace
{
using sample = std::pair<long, long>; // value, timestamp
using samples = std::vector<sample>;
constexpr int N = 4; // of an audio buffer
bool in_tick;
int current;
std::vector<net::parameter_base*> params;
std::set<int> running;

struct vnode;
struct cable
{
  int kind; // 0 glutton, 1 strict, 2 delayed glutton, 3 delayed strict, 4 dependency
  int sides = 3;
  vnode *src, *dst;
  int out = -1, in = -1; // ports; in -2: the gain of the first audio outlet
  edge_ptr e;
  std::vector<samples> values;
  std::vector<std::optional<double>> audio;
  size_t pos = 0;
};
struct one_run
{
  long prev, date;
  bool sd, ed;
  uint64_t from, to;
  std::vector<samples> in;
  std::vector<std::optional<double>> ain;
};
long id_of(int tick, int node, int out, int tok) { return ((tick * 32 + node) * 4 + out) * 4 + tok + 1; }

// one node and what is known about it
struct vnode final : graph_node
{
  int id;
  std::vector<value_inlet*> vin;
  std::vector<audio_inlet*> ain;
  std::vector<value_outlet*> vout;
  std::vector<audio_outlet*> aout;
  std::vector<int> in_addr, out_addr; // of the value ports, -1 for none
  int state_addr = -1;                // writes there by a state
  unsigned slow = 0;
  // model
  bool in_graph = false;
  std::vector<long> tokens;
  bool sd = false, ed = false;
  bool on = false;
  double gain = 1;
  std::vector<samples> odata;
  std::vector<std::optional<double>> oaudio;
  std::vector<one_run> runs;

  void run(const token_request& t, exec_state_facade st) noexcept override
  {
    one_run x;
    for(auto p : vin)
    {
      samples s;
      for(auto& v : p->data.get_data())
      {
        auto i = v.value.target<int>();
        s.push_back({i ? *i : -1, (long)v.timestamp});
      }
      x.in.push_back(s);
    }
    for(auto p : ain)
    {
      std::optional<double> r;
      if(!p->data.samples.empty() && !p->data.samples[0].empty())
      {
        r = p->data.samples[0][0];
        bool same = p->data.samples[0].size() == N;
        for(double d : p->data.samples[0])
          same &= d == *r;
        if(!same)
          r = NAN;
      }
      x.ain.push_back(r);
    }
    int tok;
    {
      sim::oracle o;
      x.prev = t.prev_date.impl;
      x.date = t.date.impl;
      x.sd = t.start_discontinuous;
      x.ed = t.end_discontinuous;
      x.from = sim::seq();
      tok = runs.size();
      runs.push_back(x);
      sim::log("node %d runs %ld..%ld", id, x.prev, x.date);
      SIM_CHECK(in_tick, "graph-outside-tick", "node %d runs although no tick is under way", id);
      SIM_CHECK(running.insert(id).second, "graph-twice", "node %d runs on two threads", id);
      if(running.size() > 1)
        sim::probe("nodes-in-parallel");
    }
    if(slow)
    {
      sim::yield();
      if(slow > 1)
        sim::sleep_ns(slow * 1000);
    }
    for(size_t i = 0; i < vout.size(); i++)
    {
      int k = 1 + (i + id) % 2;
      for(int j = 0; j < k; j++)
        vout[i]->data.write_value(int(id_of(current, id, i, tok) + 100000000 * j), tok + j);
    }
    for(size_t i = 0; i < aout.size(); i++)
    {
      auto& s = aout[i]->data.samples;
      s.resize(1);
      s[0].resize(N);
      for(auto& v : s[0])
        v += id_of(current, id, 2 + i, tok) % 1000;
    }
    if(state_addr >= 0)
    {
      state s;
      s.add(message{destination{*params[state_addr]}, int(id_of(current, id, 3, tok))});
      st.insert(s);
    }
    if(slow)
      sim::yield();
    {
      sim::oracle o;
      runs.back().to = sim::seq();
      running.erase(id);
    }
  }
};

void write(samples& d, data_mix_method m, sample s)
{
  if(m == mix_replace)
    for(auto& x : d)
      if(x.second == s.second)
      {
        x.first = s.first;
        return;
      }
  d.push_back(s);
}
std::string show(const samples& s)
{
  std::string r;
  for(auto& x : s)
    r += std::to_string(x.first) + "@" + std::to_string(x.second) + " ";
  return r;
}

struct world
{
  net::generic_device dev{std::make_unique<net::multiplex_protocol>(), "dev"};
  execution_state e;
  std::shared_ptr<graph_interface> g;
  std::vector<std::shared_ptr<vnode>> nodes;
  std::vector<std::shared_ptr<cable>> cables;
  std::vector<int> writer; // node that writes each parameter, -1
  std::vector<long> value;
  int sched;
  bool parallel;
  int commit;
  int next_id = 0;
  int max_nodes;
  bool delays = true;

  world()
  {
    params.clear();
    running.clear();
    in_tick = false;
    current = 0;
    for(int i = 0; i < 3; i++)
    {
      auto n = dev.create_child("p" + std::to_string(i));
      params.push_back(n->create_parameter(val_type::INT));
      writer.push_back(-1);
      value.push_back(0);
    }
    e.register_device(&dev);
    e.bufferSize = N;
    graph_setup_options o;
    sched = sim::choose(4);
    parallel = sched == graph_setup_options::Dynamic ? false : sim::choose(4) != 0;
    o.scheduling = decltype(o.scheduling)(sched);
    o.parallel = parallel;
    g = make_graph(o);
    commit = sim::choose(4);
    max_nodes = 3 + sim::choose(6);
    sim::log("graph: scheduling %d %s commit %d", sched, parallel ? "parallel" : "", commit);
  }
  ~world()
  {
    cables.clear();
    g->clear();
    g.reset();
    nodes.clear();
  }
  bool ordered_addresses() const { return sched == graph_setup_options::StaticBFS || sched == graph_setup_options::StaticTC; }

  void add_node()
  {
    if((int)nodes.size() >= max_nodes || next_id >= 32)
      return;
    auto n = std::make_shared<vnode>();
    n->id = next_id++;
    n->slow = sim::pick({0u, 0u, 1u, 3u, 40u});
    if(sim::chance(1, 6))
    {
      // like the states of an event: no port at all
      int a = sim::choose(params.size());
      if(writer[a] < 0)
      {
        writer[a] = n->id;
        n->state_addr = a;
      }
    }
    else
    {
      int vi = sim::choose(3), vo = sim::choose(3), ai = sim::choose(2), ao = sim::choose(2);
      for(int i = 0; i < vi; i++)
      {
        auto p = new value_inlet;
        n->vin.push_back(p);
        n->root_inputs().push_back(p);
        p->data.mix_method = sim::chance(1, 4) ? mix_replace : mix_append;
        n->in_addr.push_back(-1);
        if(sim::choose(2))
        {
          n->in_addr.back() = sim::choose(params.size());
          p->address = params[n->in_addr.back()];
          if(sim::chance(1, 4))
            p->scope = port::scope_t::global;
        }
      }
      for(int i = 0; i < ai; i++)
      {
        n->ain.push_back(new audio_inlet);
        n->root_inputs().push_back(n->ain.back());
      }
      for(int i = 0; i < vo; i++)
      {
        auto p = new value_outlet;
        n->vout.push_back(p);
        n->root_outputs().push_back(p);
        p->data.mix_method = sim::chance(1, 4) ? mix_replace : mix_append;
        n->out_addr.push_back(-1);
        if(sim::choose(2))
        {
          int a = sim::choose(params.size());
          if(writer[a] < 0)
          {
            writer[a] = n->id;
            n->out_addr.back() = a;
            p->address = params[a];
            if(sim::chance(1, 4))
              p->scope = port::scope_t::global;
          }
        }
      }
      for(int i = 0; i < ao; i++)
      {
        n->aout.push_back(new audio_outlet);
        n->root_outputs().push_back(n->aout.back());
      }
    }
    n->odata.resize(n->vout.size());
    n->oaudio.resize(n->aout.size());
    sim::log("add node %d: in %zu+%zu out %zu+%zu state %d", n->id, n->vin.size(), n->ain.size(), n->vout.size(), n->aout.size(),
             n->state_addr);
    for(size_t i = 0; i < n->vin.size(); i++)
      if(n->in_addr[i] >= 0)
        sim::log("  inlet %zu reads p%d%s", i, n->in_addr[i], n->vin[i]->scope == port::scope_t::global ? " global" : "");
    for(size_t i = 0; i < n->vout.size(); i++)
      if(n->out_addr[i] >= 0)
        sim::log("  outlet %zu writes p%d%s", i, n->out_addr[i], n->vout[i]->scope == port::scope_t::global ? " global" : "");
    g->add_node(n);
    n->in_graph = true;
    nodes.push_back(n);
  }
  void remove_node()
  {
    if(nodes.empty())
      return;
    int i = sim::choose(nodes.size());
    auto n = nodes[i];
    sim::log("remove node %d", n->id);
    g->remove_node(n);
    std::erase_if(cables, [&](auto& c) { return c->src == n.get() || c->dst == n.get(); });
    for(auto& w : writer)
      if(w == n->id)
        w = -1;
    nodes.erase(nodes.begin() + i);
  }
  bool reaches(const vnode* a, const vnode* b) const // along the cables
  {
    if(a == b)
      return true;
    for(auto& c : cables)
      if(c->src == a && reaches(c->dst, b))
        return true;
    return false;
  }
  void connect(std::shared_ptr<cable> c)
  {
    auto &s = *c->src, &d = *c->dst;
    outlet* o = nullptr;
    inlet* i = nullptr;
    if(c->out >= 0)
    {
      o = s.root_outputs()[c->out];
      i = c->in == -2 ? &d.aout[0]->gain_inlet : d.root_inputs()[c->in];
    }
    auto sp = [&](vnode* n) -> node_ptr {
      for(auto& x : nodes)
        if(x.get() == n)
          return x;
      abort();
    };
    connection con;
    switch(c->kind)
    {
      case 0:
        con = immediate_glutton_connection{};
        break;
      case 1:
        con = immediate_strict_connection{immediate_strict_connection::required_sides_t(c->sides)};
        break;
      case 2:
        con = delayed_glutton_connection{};
        break;
      case 3:
        con = delayed_strict_connection{};
        break;
      case 4:
        con = dependency_connection{};
        break;
    }
    c->e = make_edge(con, o, i, sp(c->src), sp(c->dst));
    sim::log("connect %d.%d -> %d.%d kind %d sides %d", s.id, c->out, d.id, c->in, c->kind, c->sides);
    g->connect(c->e);
    cables.push_back(c);
  }
  bool add_cable()
  {
    if(nodes.size() < 2)
      return false;
    auto c = std::make_shared<cable>();
    c->src = sim::pick_from(nodes).get();
    c->dst = sim::pick_from(nodes).get();
    if(reaches(c->dst, c->src))
      std::swap(c->src, c->dst);
    if(reaches(c->dst, c->src))
      return false;
    auto &s = *c->src, &d = *c->dst;
    c->kind = sim::choose(delays ? 5 : 3);
    if(!delays && c->kind == 2)
      c->kind = 4;
    c->sides = sim::pick({3, 3, 1, 2});
    bool audio = sim::choose(2);
    if(audio && !s.aout.empty() && !d.ain.empty())
    {
      c->out = s.vout.size();
      c->in = d.vin.size();
    }
    else if(!s.vout.empty() && !d.aout.empty() && sim::chance(1, 4))
    {
      c->out = sim::choose(s.vout.size());
      c->in = -2;
    }
    else if(!s.vout.empty() && !d.vin.empty())
    {
      c->out = sim::choose(s.vout.size());
      c->in = sim::choose(d.vin.size());
    }
    else
      c->kind = 4;
    if(c->kind == 4 && sim::choose(2))
      c->out = c->in = -1;
    // TODO of graph_base::connect: only one cable between the same ports
    for(auto& o : cables)
      if(o->src == c->src && o->dst == c->dst && o->out == c->out && o->in == c->in)
        return false;
    connect(c);
    return true;
  }
  void remove_cable(int i)
  {
    auto c = cables[i];
    sim::log("disconnect %d.%d -> %d.%d", c->src->id, c->out, c->dst->id, c->in);
    if(sim::choose(2))
      g->disconnect(c->e);
    else
      g->disconnect(c->e.get());
    cables.erase(cables.begin() + i);
  }
  // ---- a tick
  void request()
  {
    for(auto& n : nodes)
    {
      n->runs.clear();
      n->tokens.clear();
      if(sim::chance(1, 8))
        n->set_mute(!n->muted());
      int k = sim::pick({1, 1, 1, 0, 2});
      long t = current * 100;
      for(int i = 0; i < k; i++)
      {
        token_request r;
        r.prev_date = time_value{t};
        t += 1 + sim::choose(50);
        r.date = time_value{t};
        n->request(r);
        n->tokens.push_back(t);
      }
      if(sim::chance(1, 8))
      {
        n->set_start_discontinuous(true);
        n->sd = true;
      }
      if(sim::chance(1, 8))
      {
        n->set_end_discontinuous(true);
        n->ed = true;
      }
      sim::log("node %d: %d tokens%s", n->id, k, n->muted() ? " muted" : "");
    }
  }
  void do_tick()
  {
    e.begin_tick();
    {
      sim::oracle o;
      in_tick = true;
    }
    g->state(e);
    {
      sim::oracle o;
      in_tick = false;
      for(auto& n : nodes)
        SIM_CHECK(!running.count(n->id), "graph-not-finished", "the tick ended while node %d was running", n->id);
    }
    switch(commit)
    {
      case 0:
        e.commit();
        break;
      case 1:
        e.commit_merged();
        break;
      case 2:
        e.commit_ordered();
        break;
      case 3:
        e.commit_priorized();
        break;
    }
  }
  bool address_cycle(std::map<const vnode*, std::set<const vnode*>>& after) const
  {
    for(auto& c : cables)
      after[c->src].insert(c->dst);
    for(auto& w : nodes)
      for(auto& r : nodes)
        if(w != r)
          for(int a : w->out_addr)
            for(int b : r->in_addr)
              if(a >= 0 && a == b)
                after[w.get()].insert(r.get());
    std::map<const vnode*, int> st;
    std::function<bool(const vnode*)> dfs = [&](const vnode* n) {
      st[n] = 1;
      for(auto m : after[n])
        if(st[m] == 1 || (st[m] == 0 && dfs(m)))
          return true;
      st[n] = 2;
      return false;
    };
    for(auto& n : nodes)
      if(st[n.get()] == 0 && dfs(n.get()))
        return true;
    return false;
  }
  void deliver(samples& d, data_mix_method m, const cable& c)
  {
    static const samples none;
    const samples* from = &none;
    if(c.kind == 0 || c.kind == 1)
      from = &c.src->odata[c.out];
    else if(c.kind == 2 || c.kind == 3)
      from = c.pos < c.values.size() ? &c.values[c.pos] : &none;
    for(auto& s : *from)
      write(d, m, s);
  }
  void check_tick()
  {
    sim::oracle o;
    // who is enabled
    for(auto& n : nodes)
      n->on = !n->tokens.empty();
    for(bool again = true; again;)
    {
      again = false;
      std::vector<vnode*> off;
      for(auto& n : nodes)
        if(n->on && n->muted())
          off.push_back(n.get());
      for(auto& c : cables)
      {
        if(c->out < 0)
          continue;
        if(c->kind == 1)
        {
          if((c->sides & 2) && c->dst->on && !c->src->on)
            off.push_back(c->dst);
          if((c->sides & 1) && c->src->on && !c->dst->on)
            off.push_back(c->src);
        }
        else if(c->kind == 3 && c->dst->on && c->pos >= c->values.size() + c->audio.size())
          off.push_back(c->dst);
      }
      for(auto n : off)
        if(n->on)
        {
          n->on = false;
          again = true;
        }
    }
    // what ran
    for(auto& n : nodes)
    {
      if(!n->on)
      {
        SIM_CHECK(n->runs.empty(), "graph-disabled", "node %d ran although it is disabled", n->id);
        continue;
      }
      SIM_CHECK(n->runs.size() == n->tokens.size(), "graph-runs", "node %d ran %zu times for %zu tokens", n->id, n->runs.size(),
                n->tokens.size());
      for(size_t i = 0; i < n->runs.size(); i++)
      {
        SIM_CHECK(n->runs[i].date == n->tokens[i], "graph-token", "node %d: token %zu ends at %ld instead of %ld", n->id, i, n->runs[i].date,
                  n->tokens[i]);
        bool s = i == 0 && n->sd, e = i == 0 && n->ed;
        SIM_CHECK(n->runs[i].sd == s && n->runs[i].ed == e, "graph-discontinuous",
                  "node %d: token %zu is told start %d end %d instead of %d %d", n->id, i, n->runs[i].sd, n->runs[i].ed, s, e);
      }
      n->sd = n->ed = false;
    }
    // in which order
    auto before = [&](const vnode& a, const vnode& b, const char* why) {
      if(a.on && b.on)
        SIM_CHECK(a.runs.back().to < b.runs.front().from, "graph-order", "node %d ran before the end of node %d (%s)", b.id, a.id, why);
    };
    for(auto& c : cables)
      if(c->out >= 0 || sched != graph_setup_options::Dynamic)
        before(*c->src, *c->dst, "cable");
    std::map<const vnode*, std::set<const vnode*>> after;
    bool cyc = address_cycle(after);
    bool ordered = ordered_addresses() && !cyc;
    if(cyc)
      sim::probe("addresses-in-a-cycle");
    if(ordered)
      for(auto& a : after)
        for(auto b : a.second)
          before(*a.first, *b, "address");
    // what they wrote
    for(auto& n : nodes)
    {
      for(size_t i = 0; i < n->vout.size(); i++)
      {
        n->odata[i].clear();
        if(n->on)
          for(size_t t = 0; t < n->tokens.size(); t++)
          {
            int k = 1 + (i + n->id) % 2;
            for(int j = 0; j < k; j++)
              write(n->odata[i], n->vout[i]->data.mix_method, {id_of(current, n->id, i, t) + 100000000 * j, long(t + j)});
          }
      }
    }
    for(auto& c : cables)
      if(c->kind >= 2 && c->kind <= 3 && c->src->on && c->out < (int)c->src->vout.size())
        c->values.push_back(c->src->odata[c->out]);
    auto gather = [&](inlet* in, data_mix_method m, samples d) {
      for(auto src : in->sources)
        for(auto& c : cables)
          if(c->e.get() == src)
            deliver(d, m, *c);
      return d;
    };
    for(auto& n : nodes)
      for(size_t i = 0; i < n->aout.size(); i++)
      {
        n->oaudio[i].reset();
        if(!n->on)
          continue;
        auto gd = gather(&n->aout[i]->gain_inlet, mix_append, {});
        if(!gd.empty())
        {
          n->gain = float(gd.back().first);
          sim::probe("gain-cable");
        }
        double s = 0;
        for(size_t t = 0; t < n->tokens.size(); t++)
          s += id_of(current, n->id, 2 + i, t) % 1000;
        n->oaudio[i] = s * n->gain;
      }
    for(auto& c : cables)
      if(c->kind >= 2 && c->kind <= 3 && c->src->on && c->out >= (int)c->src->vout.size())
        c->audio.push_back(c->src->oaudio[c->out - c->src->vout.size()]);
    // what goes to the addresses
    struct written
    {
      samples local, global;
      vnode* by = nullptr;
    };
    std::vector<written> env(params.size());
    for(auto& n : nodes)
    {
      if(!n->on)
        continue;
      if(n->state_addr >= 0)
      {
        auto& w = env[n->state_addr];
        w.by = n.get();
        for(size_t t = 0; t < n->tokens.size(); t++)
          w.local.push_back({id_of(current, n->id, 3, t), 0});
      }
      for(size_t i = 0; i < n->vout.size(); i++)
        if(n->out_addr[i] >= 0)
        {
          bool copy = true, any = false;
          for(auto& c : cables)
            if(c->src == n.get() && c->out == (int)i)
            {
              if(!any)
                copy = false;
              any = true;
              if(c->kind == 0 && !c->dst->on)
                copy = true;
            }
          if(!copy)
            continue;
          auto& w = env[n->out_addr[i]];
          w.by = n.get();
          if(n->vout[i]->scope == port::scope_t::global)
            w.global = n->odata[i];
          else
            for(auto s : n->odata[i])
              write(w.local, n->vout[i]->data.mix_method, s);
        }
    }
    // what they read
    for(auto& n : nodes)
    {
      if(!n->on)
        continue;
      for(size_t i = 0; i < n->vin.size(); i++)
      {
        auto in = n->vin[i];
        bool copy = true, any = false;
        for(auto& c : cables)
          if(c->dst == n.get() && c->in == (int)i)
          {
            if(!any)
              copy = false;
            any = true;
            if((c->kind == 0 && !c->src->on) || c->kind == 4)
              copy = true;
          }
        // what may come from the address
        std::vector<samples> from;
        int a = n->in_addr[i];
        if(!copy || a < 0)
          from.push_back({});
        else
        {
          auto& w = env[a];
          samples old{{value[a], 0}};
          bool self = w.by == n.get();
          bool is_state = w.by && w.by->state_addr == a;
          bool sure = w.by && !self && !is_state && ordered;
          for(auto& c : cables)
            if(w.by && c->src == w.by && c->dst == n.get() && !(c->out < 0 && sched == graph_setup_options::Dynamic))
              sure = true;
          if(!w.by || self)
            from.push_back(old);
          else if(!w.local.empty())
          {
            if(in->scope == port::scope_t::global)
              from.push_back(old);
            else
            {
              from.push_back(w.local);
              if(is_state)
                for(size_t k = 1; k < w.local.size(); k++)
                  from.push_back(samples{w.local.begin(), w.local.begin() + k});
              if(!sure)
                from.push_back(old);
              else
                sim::probe("address-of-this-tick");
            }
          }
          else
          {
            if(!w.global.empty())
              from.push_back({{w.global.back().first, 0}});
            if(w.global.empty() || !sure)
              from.push_back(old);
            if(!sure)
              for(auto& g : w.global)
                from.push_back({{g.first, 0}});
          }
        }
        for(size_t r = 0; r < n->runs.size(); r++)
        {
          auto& got = n->runs[r].in[i];
          bool ok = false;
          samples want;
          for(auto& f : from)
          {
            samples d;
            for(auto& s : f)
              write(d, in->data.mix_method, s);
            want = gather(in, in->data.mix_method, d);
            ok |= want == got;
          }
          SIM_CHECK(ok, "graph-data", "node %d, inlet %zu, token %zu: got %s instead of (one of %zu) %s", n->id, i, r, show(got).c_str(), from.size(),
                    show(want).c_str());
        }
      }
      for(size_t i = 0; i < n->ain.size(); i++)
      {
        std::optional<double> want;
        for(auto& c : cables)
          if(c->dst == n.get() && c->in >= (int)n->vin.size())
          {
            std::optional<double> d;
            int ch = c->out - (int)c->src->vout.size();
            if(c->kind == 0 || c->kind == 1)
              d = c->src->oaudio[ch];
            else if(c->kind != 4 && c->pos < c->audio.size())
              d = c->audio[c->pos];
            if(d)
              want = want.value_or(0) + *d;
          }
        for(size_t r = 0; r < n->runs.size(); r++)
        {
          auto& got = n->runs[r].ain[i];
          SIM_CHECK(got.has_value() == want.has_value() && (!got || std::fabs(*got - *want) <= 1e-9 * std::fabs(*want)), "graph-audio",
                    "node %d, audio inlet %zu: got %g instead of %g", n->id, i, got.value_or(-1), want.value_or(-1));
        }
      }
    }
    for(auto& c : cables)
      if(c->dst->on && c->out >= 0 && (c->kind == 2 || c->kind == 3))
        c->pos++;
    // what the parameters have become
    for(size_t a = 0; a < params.size(); a++)
    {
      auto& w = env[a];
      if(!w.local.empty())
        value[a] = w.local.back().first;
      else if(!w.global.empty())
        value[a] = w.global.back().first;
      auto v = params[a]->value();
      auto i = v.target<int>();
      SIM_CHECK(i && *i == value[a], "graph-commit", "p%zu is %d after the tick instead of %ld", a, i ? *i : -1, value[a]);
    }
  }
  void tick()
  {
    current++;
    request();
    do_tick();
    check_tick();
  }
  void edit()
  {
    switch(sim::choose(6))
    {
      case 0:
        add_node();
        break;
      case 1:
        if(sim::choose(3) == 0)
          remove_node();
        break;
      case 2:
        if(!cables.empty())
          remove_cable(sim::choose(cables.size()));
        break;
      case 3:
        g->mark_dirty();
        break;
      default:
        add_cable();
        break;
    }
  }
};
struct quiet
{
  std::streambuf* b;
  quiet() { b = std::cout.rdbuf(nullptr); }
  ~quiet() { std::cout.rdbuf(b); }
};
}

SIM_SCENARIO("P18", graph_ticks, 3)
{
  world w;
  sim::cooperate(sim::pick({3u, 8u, 30u}), sim::pick({20u, 60u, 200u}));
  sim::step_limit(800000);
  int nn = 2 + sim::choose(w.max_nodes);
  for(int i = 0; i < nn; i++)
    w.add_node();
  int nc = sim::choose(2 * w.nodes.size() + 1);
  for(int i = 0; i < nc; i++)
    w.add_cable();
  int ticks = 2 + sim::choose(6);
  for(int t = 0; t < ticks; t++)
  {
    w.tick();
    int k = sim::choose(4);
    for(int i = 0; i < k; i++)
      w.edit();
  }
}

// a cable that closes a cycle: nothing can be said about the ticks until it is removed
SIM_SCENARIO("P18", graph_cycles, 1)
{
  quiet q;
  world w;
  w.delays = false;
  sim::cooperate(sim::pick({3u, 8u, 30u}), sim::pick({20u, 60u, 200u}));
  sim::step_limit(800000);
  int nn = 2 + sim::choose(w.max_nodes);
  for(int i = 0; i < nn; i++)
    w.add_node();
  int nc = 1 + sim::choose(2 * w.nodes.size() + 1);
  for(int i = 0; i < nc; i++)
    w.add_cable();
  for(int k = 0; k < 3; k++)
  {
    if(k || sim::choose(3))
      w.tick();
    if(w.nodes.empty())
      break;
    auto c = std::make_shared<cable>();
    if(!w.cables.empty() && sim::choose(3))
    {
      auto o = sim::pick_from(w.cables);
      c->src = o->dst;
      c->dst = o->src;
    }
    else
      c->src = c->dst = sim::pick_from(w.nodes).get();
    c->kind = 4;
    w.connect(c);
    sim::probe("cycle");
    int ticks = 1 + sim::choose(2);
    for(int t = 0; t < ticks; t++)
    {
      if(sim::choose(4) == 0)
        w.remove_node();
      current++;
      w.request();
      w.do_tick();
      for(auto& n : w.nodes)
      {
        SIM_CHECK(n->runs.size() <= n->tokens.size(), "graph-runs", "node %d ran %zu times for %zu tokens", n->id, n->runs.size(), n->tokens.size());
        n->disable();
        n->set_start_discontinuous(false);
        n->set_end_discontinuous(false);
        n->sd = n->ed = false;
      }
    }
    for(size_t i = 0; i < w.cables.size(); i++)
      if(w.cables[i] == c)
        w.remove_cable(i);
    for(size_t a = 0; a < params.size(); a++)
    {
      auto v = params[a]->value();
      w.value[a] = *v.target<int>();
    }
  }
  w.tick();
}
