// P16: a scenario plays the same whatever the ticks
#include "common.hpp"
#include <ossia/dataflow/token_request.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/editor/scenario/clock.hpp>
#include <ossia/editor/expression/expression_atom.hpp>
#include <ossia/editor/expression/expression_pulse.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/destination.hpp>
#include <thread>
#include <map>

using namespace ossia;
namespace
{
int64_t tick_from, tick_to; // of the root, being played
struct played
{
  int64_t from, to;   // in the interval
  int64_t at;         // date of its beginning for the root
};
// what the interval gives to its processes
struct listener : time_process
{
  const char* what;
  int id;
  std::vector<played> tokens;
  int started = 0, stopped = 0;
  bool running = false;
  void state(const token_request& t) override
  {
    SIM_CHECK(running, "scenario-not-started", "%s %d: played before it was started or after it was stopped", what, id);
    tokens.push_back({t.prev_date.impl, t.date.impl, tick_from + t.offset.impl});
    sim::log("%s %d plays %ld..%ld at %ld", what, id, (long)t.prev_date.impl, (long)t.date.impl, long(tick_from + t.offset.impl));
    SIM_CHECK(t.offset.impl <= tick_to - tick_from, "scenario-offset", "%s %d: offset %ld in a tick of %ld", what, id, (long)t.offset.impl,
              long(tick_to - tick_from));
  }
  void start() override
  {
    started++;
    running = true;
  }
  void stop() override
  {
    if(running)
      stopped++;
    running = false;
  }
  void offset_impl(time_value) override { }
  void transport_impl(time_value) override { }
  void forget()
  {
    tokens.clear();
    started = stopped = 0;
  }
};

struct model_interval
{
  int from, to; // events
  int64_t duration;
  std::shared_ptr<time_interval> itv;
  std::shared_ptr<listener> proc;
  int child = -1; // scenario
};
struct model_event
{
  int sync;
  bool condition = true;
  std::vector<int> prev;
  bool alive = false;
  std::shared_ptr<time_event> ev;
  std::shared_ptr<listener> proc;
  int happened = 0, disposed = 0;
  int64_t when = -1; // first end of a tick after it
};
struct model_scenario
{
  std::shared_ptr<scenario> sc;
  int64_t start; // date for the root
  int64_t end;   // for the root; it may be longer
  bool plays = false;
  std::vector<int64_t> dates; // of the syncs
  std::vector<std::shared_ptr<time_sync>> syncs;
  std::vector<int> sync_triggered;
  std::vector<model_event> events;
  std::vector<model_interval> intervals;
};

struct score
{
  bool conditions = true, nested = true, joins = true;
  std::vector<std::unique_ptr<model_scenario>> all;
  int next_id = 0;

  int make(int depth, int64_t start, int64_t end)
  {
    int me = all.size();
    all.push_back(std::make_unique<model_scenario>());
    auto& m = *all.back();
    m.sc = std::make_shared<scenario>();
    m.start = start;
    m.end = end;
    int n = 2 + sim::choose(depth == 0 ? 6 : 3);
    // dates: distinct, possibly close to one another
    std::vector<int64_t> d{0};
    for(int i = 1; i < n; i++)
    {
      int64_t gap = sim::choose(3) == 1 ? 1 + sim::choose(5) : 1 + sim::choose(300);
      d.push_back(d.back() + gap);
    }
    m.dates = d;
    m.sync_triggered.assign(n, 0);
    m.events.reserve(n * 3);
    for(int i = 0; i < n; i++)
    {
      std::shared_ptr<time_sync> s = i == 0 ? m.sc->get_start_time_sync() : std::make_shared<time_sync>();
      m.syncs.push_back(s);
      s->triggered.add_callback([&m, i] { m.sync_triggered[i]++; });
      for(int k = 1 + (sim::choose(3) == 1); k > 0; --k)
      {
        m.events.emplace_back();
        int id = m.events.size() - 1;
        auto& e = m.events.back();
        e.sync = i;
        e.condition = !conditions || !sim::chance(1, 5);
        e.ev = *s->emplace(
            s->get_time_events().end(),
            [&m, id](time_event::status st) {
              auto& e = m.events[id];
              if(st == time_event::status::HAPPENED)
              {
                e.happened++;
                e.when = tick_to;
              }
              if(st == time_event::status::DISPOSED)
                e.disposed++;
            },
            e.condition ? expressions::make_expression_true() : expressions::make_expression_false());
        e.proc = std::make_shared<listener>();
        e.proc->what = "event";
        e.proc->id = next_id++;
        e.ev->add_time_process(e.proc);
      }
      if(i > 0)
        m.sc->add_time_sync(s);
    }
    auto link = [&](int a, int b) {
      m.intervals.emplace_back();
      auto& v = m.intervals.back();
      v.from = a;
      v.to = b;
      v.duration = d[m.events[b].sync] - d[m.events[a].sync];
      auto t = time_value{v.duration};
      v.itv = time_interval::create({}, *m.events[a].ev, *m.events[b].ev, t, t, t);
      v.proc = std::make_shared<listener>();
      v.proc->what = "interval";
      v.proc->id = next_id++;
      v.itv->add_time_process(v.proc);
      m.events[b].prev.push_back(m.intervals.size() - 1);
    };
    // every event but the first ones has an interval before it, some have several
    for(int b = 0; b < (int)m.events.size(); b++)
      if(m.events[b].sync > 0)
        for(int k = 1 + (joins && sim::choose(3) == 1); k > 0; --k)
        {
          std::vector<int> before;
          for(int a = 0; a < (int)m.events.size(); a++)
            if(m.events[a].sync < m.events[b].sync)
            {
              bool already = false;
              for(int i : m.events[b].prev)
                already |= m.intervals[i].from == a;
              if(!already)
                before.push_back(a);
            }
          if(!before.empty())
            link(sim::pick_from(before), b);
        }
    // in any order
    std::vector<int> order;
    for(int i = 0; i < (int)m.intervals.size(); i++)
      order.insert(order.begin() + sim::choose(i + 1), i);
    for(int i : order)
      m.sc->add_time_interval(m.intervals[i].itv);
    // what happens
    for(int b = 0; b < (int)m.events.size(); b++)
    {
      auto& e = m.events[b];
      bool any = e.sync == 0;
      for(int i : e.prev)
        any |= m.events[m.intervals[i].from].alive;
      e.alive = any && e.condition;
    }
    // some contain scenarios, which may be shorter or longer than they are
    if(nested && depth < 2)
      for(auto i = 0u; i < m.intervals.size(); i++)
        if(sim::choose(4) == 1)
        {
          int64_t begin = m.start + d[m.events[m.intervals[i].from].sync];
          int c = make(depth + 1, begin, std::min(m.end, begin + m.intervals[i].duration));
          m.intervals[i].child = c;
          m.intervals[i].itv->add_time_process(all[c]->sc);
        }
    return me;
  }
  void mark(int s, bool plays)
  {
    auto& m = *all[s];
    m.plays = plays;
    for(auto& v : m.intervals)
      if(v.child >= 0)
        mark(v.child, plays && m.events[v.from].alive);
  }
  // what was played up to a date
  void check(int s, int64_t now, const char* when)
  {
    auto& m = *all[s];
    for(auto& v : m.intervals)
    {
      auto& p = *v.proc;
      int64_t begin = m.start + m.dates[m.events[v.from].sync];
      int64_t until = std::min(now, m.end);
      bool plays = m.plays && m.events[v.from].alive && begin <= until;
      if(begin >= m.end) // together with the end of what contains it, or never
        SIM_CHECK(p.tokens.empty() || p.tokens.back().to == 0, "scenario-played", "%s: interval %d, which begins at %ld, was played after the end %ld",
                  when, p.id, (long)begin, (long)m.end);
      else if(!plays)
        SIM_CHECK(p.tokens.empty(), "scenario-played", "%s: interval %d, which begins at %ld, was played at %ld", when, p.id, (long)begin, (long)now);
      else
      {
        int64_t last = std::min(v.duration, until - begin);
        int64_t pos = 0;
        SIM_CHECK(p.started == 1, "scenario-started", "%s: interval %d was started %d times", when, p.id, p.started);
        for(auto& t : p.tokens)
        {
          SIM_CHECK(t.from == pos, "scenario-gap", "%s: interval %d plays %ld..%ld after %ld", when, p.id, (long)t.from, (long)t.to, (long)pos);
          if(t.to != t.from)
            SIM_CHECK(t.at == begin + t.from, "scenario-date", "%s: interval %d began at %ld and plays %ld..%ld at %ld", when, p.id,
                      (long)begin, (long)t.from, (long)t.to, (long)t.at);
          pos = t.to;
        }
        SIM_CHECK(pos == last, "scenario-position", "%s: interval %d of %ld began at %ld and is at %ld instead of %ld", when, p.id,
                  (long)v.duration, (long)begin, (long)pos, (long)last);
        bool ended = begin + v.duration <= now || m.end <= now;
        SIM_CHECK(p.running == !ended, "scenario-stopped", "%s: interval %d, %ld..%ld, is %s at %ld", when, p.id, (long)begin,
                  long(begin + v.duration), p.running ? "running" : "stopped", (long)now);
      }
      if(v.child >= 0)
        check(v.child, now, when);
    }
    for(auto i = 0u; i < m.events.size(); i++)
    {
      auto& e = m.events[i];
      int64_t date = m.start + m.dates[e.sync];
      bool due = m.plays && date <= std::min(now, m.end);
      if(date == m.end)
        continue; // together with the end of the interval
      bool sure = due;
      SIM_CHECK(e.happened == (sure && e.alive), "scenario-event", "%s: event %d at %ld%s happened %d times at %ld", when, e.proc->id, (long)date,
                e.alive ? "" : " (not to happen)", e.happened, (long)now);
      if(sure && !e.alive)
        SIM_CHECK(e.disposed == 1, "scenario-disposed", "%s: event %d at %ld was disposed %d times at %ld", when, e.proc->id, (long)date, e.disposed,
                  (long)now);
      if(e.alive)
        SIM_CHECK(e.disposed == 0, "scenario-disposed", "%s: event %d at %ld was disposed", when, e.proc->id, (long)date);
      SIM_CHECK((int)e.proc->tokens.size() == (sure && e.alive), "scenario-event", "%s: the process of event %d at %ld was played %zu times at %ld", when,
                e.proc->id, (long)date, e.proc->tokens.size(), (long)now);
    }
  }
};


// The root interval, which a thread plays in real time: the time that went by since its
// last turn is what each tick plays.
struct player
{
  std::shared_ptr<time_sync> begin = std::make_shared<time_sync>(), finish = std::make_shared<time_sync>();
  std::shared_ptr<time_interval> root;
  struct probe_process : time_process
  {
    std::function<void(const token_request&)> f;
    void state(const token_request& t) override { f(t); }
    void offset_impl(time_value) override { }
    void transport_impl(time_value) override { }
  };
  std::shared_ptr<probe_process> before = std::make_shared<probe_process>(), after = std::make_shared<probe_process>();
  int64_t unit_ns;
  std::atomic<int64_t> now{0}; // what was played
  unsigned ticks = 0;

  player(std::shared_ptr<scenario> sc, std::function<void(int64_t)> check)
  {
    auto a = *begin->emplace(begin->get_time_events().end(), {}, expressions::make_expression_true());
    auto b = *finish->emplace(finish->get_time_events().end(), {}, expressions::make_expression_true());
    root = time_interval::create({}, *a, *b);
    before->f = [this](const token_request& t) {
      SIM_CHECK(t.prev_date.impl == now.load(), "tick-gap", "a tick %ld..%ld after %ld", (long)t.prev_date.impl, (long)t.date.impl, (long)now.load());
      tick_from = t.prev_date.impl;
      tick_to = t.date.impl;
      sim::log("tick %ld..%ld", (long)tick_from, (long)tick_to);
    };
    after->f = [this, check](const token_request& t) {
      now = t.date.impl;
      ticks++;
      check(now);
    };
    root->add_time_process(before);
    root->add_time_process(sc);
    root->add_time_process(after);
  }
  void play(int64_t total)
  {
    now = 0;
    tick_from = tick_to = 0;
    if(sim::choose(2))
    {
      // the clock of the library: a unit is so many microseconds
      int us = sim::pick({1000, 200, 50});
      ossia::clock c{*root, double(us)};
      c.set_granularity(std::chrono::microseconds(us * (1 + sim::choose(40))));
      c.start_and_tick();
      while(now < total)
        sim::sleep_ns(1000 * us * (10 + sim::choose(200)));
      if(sim::chance(1, 2))
      {
        c.pause();
        sim::sleep_ns(1000 * us * (10 + sim::choose(200)));
        c.resume();
        sim::sleep_ns(1000 * us * (10 + sim::choose(200)));
      }
      c.stop();
    }
    else
    {
      // as a sound card does: whole buffers, several of them when late
      root->start_and_tick();
      std::thread th{[&] {
        int buffer = 1 + sim::choose(64);
        if(sim::chance(1, 3))
          buffer *= 10;
        uint64_t t0 = sim::now_ns();
        int64_t played = 0;
        while(played < total)
        {
          sim::sleep_ns(1000 * buffer);
          int64_t n = (sim::now_ns() - t0) / (1000 * buffer) * buffer - played;
          if(n > 0)
            root->tick_offset(time_value{n}, 0_tv, token_request{});
          played += n;
        }
      }};
      th.join();
      root->stop();
    }
  }
};

void rigid()
{
  score s;
  s.make(0, 0, INT64_MAX);
  s.mark(0, true);
  bool started = false;
  player p{s.all[0]->sc, [&](int64_t now) {
    sim::oracle o;
    s.check(0, now, started ? "after a tick" : "started");
    started = true;
  }};
  int plays = 1 + (sim::choose(4) == 1);
  while(plays-- > 0)
  {
    // perhaps not up to its end
    int64_t total = s.all[0]->dates.back() + 50;
    p.play(sim::choose(4) == 1 ? 1 + sim::choose(total) : total);
    sim::oracle o;
    for(auto& m : s.all)
    {
      for(auto& v : m->intervals)
      {
        SIM_CHECK(v.proc->started == v.proc->stopped && !v.proc->running, "scenario-stopped", "interval %d was started %d times and stopped %d times",
                  v.proc->id, v.proc->started, v.proc->stopped);
        v.proc->forget();
      }
      for(auto& e : m->events)
      {
        e.proc->forget();
        e.happened = e.disposed = 0;
      }
    }
    started = false;
    if(plays)
      sim::probe("played again");
  }
  for(auto& m : s.all)
    m->sc->node.reset();
}

// ---- a chain of intervals whose ends wait for parameters, which other threads change
struct push_record
{
  int param;
  int value;
  uint64_t begin, end;
};
struct link_model
{
  int64_t min, max; // max < 0: infinite
  std::shared_ptr<time_interval> itv;
  std::shared_ptr<listener> proc;
  // the sync at its end
  std::shared_ptr<time_sync> sync;
  std::shared_ptr<time_event> ev;
  std::shared_ptr<listener> evproc;
  enum
  {
    none,
    at_least,
    equal,
    pulse
  } expr = none;
  int param = 0, value = 0;
  int happened = 0;
  uint64_t evaluated_begin = 0, evaluated_end = 0; // first tick in which the expression was evaluated
  // as of the last tick
  int64_t pos = 0;
  std::size_t seen = 0;
  bool ended = false;
};
struct chain
{
  std::vector<link_model> links;
  std::vector<push_record> pushes;
  uint64_t tick_begin = 0;
  int current = 0;       // interval being played
  int64_t now = 0;

  bool holds(const link_model& l, int v) { return l.expr == link_model::at_least ? v >= l.value : v == l.value; }
  // what an evaluation in this window may find
  void may(const link_model& l, uint64_t w0, uint64_t w1, bool& t, bool& f)
  {
    if(l.expr == link_model::none)
    {
      t = true;
      f = false;
      return;
    }
    if(l.expr == link_model::pulse)
    {
      // from the first evaluation on, one is enough
      t = f = false;
      bool sure = false;
      for(auto& p : pushes)
        if(p.param == l.param)
        {
          t |= p.begin < w1 && p.end > l.evaluated_begin;
          sure |= p.begin > l.evaluated_end && p.end < w0;
        }
      f = !sure;
      return;
    }
    int last = 0;
    uint64_t last_end = 0;
    for(auto& p : pushes)
      if(p.param == l.param && p.end < w0)
      {
        last = p.value;
        last_end = p.end;
      }
    (void)last_end;
    t = holds(l, last);
    f = !t;
    for(auto& p : pushes)
      if(p.param == l.param && p.end >= w0 && p.begin < w1)
        (holds(l, p.value) ? t : f) = true;
  }
  void tick(int64_t to)
  {
    uint64_t w0 = tick_begin, w1 = sim::seq();
    int64_t left = to - now;
    now = to;
    bool fresh = false; // begun by its expression in this tick
    while(current < (int)links.size())
    {
      auto& l = links[current];
      auto& p = *l.proc;
      SIM_CHECK(p.started == 1, "trigger-started", "interval %d was started %d times", current, p.started);
      // what it played in this tick
      int64_t pos = l.pos;
      for(; l.seen < p.tokens.size(); l.seen++)
      {
        auto& t = p.tokens[l.seen];
        SIM_CHECK(t.from == pos, "trigger-gap", "interval %d plays %ld..%ld after %ld", current, (long)t.from, (long)t.to, (long)pos);
        pos = t.to;
      }
      int64_t d = pos - l.pos;
      int64_t most = l.max < 0 ? left : std::min(left, l.max - l.pos);
      if(fresh)
        most = 0;
      SIM_CHECK(d == most, "trigger-position", "interval %d (%ld..%ld) plays %ld after %ld in a tick, instead of %ld", current, (long)l.min, (long)l.max,
                (long)d, (long)l.pos, (long)most);
      l.pos = pos;
      SIM_CHECK(l.happened <= 1, "trigger-twice", "the end of interval %d happened %d times", current, l.happened);
      bool at_max = l.max >= 0 && pos >= l.max;
      if(l.happened)
      {
        SIM_CHECK(pos >= l.min, "trigger-early", "the end of interval %d happened at %ld, before %ld", current, (long)pos, (long)l.min);
        if(l.evaluated_begin == 0)
        {
          l.evaluated_begin = w0;
          l.evaluated_end = w1;
        }
        if(!at_max)
        {
          bool t = false, f = false;
          may(l, w0, w1, t, f);
          SIM_CHECK(t, "trigger-false", "the end of interval %d happened at %ld (%ld..%ld) though its condition did not hold", current, (long)pos,
                    (long)l.min, (long)l.max);
          sim::probe("triggered");
        }
        else
          sim::probe("maximum");
        SIM_CHECK(!p.running && p.stopped == 1, "trigger-stopped", "interval %d, which ended, is still running", current);
        SIM_CHECK(l.evproc->tokens.size() == 1, "trigger-event", "the process of event %d was played %zu times", current, l.evproc->tokens.size());
        left = at_max ? left - d : 0;
        fresh = left == 0; // nothing to play: not looked at in this tick
        l.ended = true;
        current++;
      }
      else
      {
        SIM_CHECK(!at_max, "trigger-late", "the end of interval %d did not happen at its maximum %ld", current, (long)l.max);
        SIM_CHECK(p.running, "trigger-stopped", "interval %d is stopped before its end", current);
        if(pos >= l.min && !fresh)
        {
          if(l.evaluated_begin == 0)
          {
            l.evaluated_begin = w0;
            l.evaluated_end = w1;
          }
          bool t = false, f = false;
          may(l, w0, w1, t, f);
          SIM_CHECK(f, "trigger-missed", "the end of interval %d (%ld..%ld) did not happen at %ld though its condition holds", current, (long)l.min,
                    (long)l.max, (long)pos);
        }
        break;
      }
    }
    for(int i = current + 1; i < (int)links.size(); i++)
      SIM_CHECK(links[i].proc->tokens.empty() && !links[i].happened, "trigger-order", "interval %d was played before interval %d ended", i, current);
    for(int i = 0; i < current && i < (int)links.size(); i++)
      SIM_CHECK(links[i].seen == links[i].proc->tokens.size(), "trigger-after", "interval %d was played after its end", i);
  }
};

void triggers()
{
  ossia::net::generic_device dev{std::make_unique<ossia::net::multiplex_protocol>(), "dev"};
  std::vector<ossia::net::parameter_base*> params;
  int n_params = 1 + sim::choose(3);
  for(int i = 0; i < n_params; i++)
  {
    params.push_back(ossia::net::create_node(dev, "/p" + std::to_string(i)).create_parameter(ossia::val_type::INT));
    params.back()->set_value(0);
  }
  {
    auto sc = std::make_shared<scenario>();
    chain c;
    auto first = sc->get_start_time_sync();
    auto prev = *first->emplace(first->get_time_events().end(), {}, expressions::make_expression_true());
    int n = 1 + sim::choose(5);
    c.links.resize(n);
    int64_t total = 100;
    for(int i = 0; i < n; i++)
    {
      auto& l = c.links[i];
      l.sync = std::make_shared<time_sync>();
      l.ev = *l.sync->emplace(l.sync->get_time_events().end(), [&l](time_event::status st) {
        if(st == time_event::status::HAPPENED)
          l.happened++;
      }, expressions::make_expression_true());
      l.evproc = std::make_shared<listener>();
      l.evproc->what = "event";
      l.evproc->id = i;
      l.ev->add_time_process(l.evproc);
      l.expr = sim::pick({link_model::none, link_model::at_least, link_model::equal, link_model::pulse});
      l.param = sim::choose(n_params);
      l.value = 1 + sim::choose(3);
      auto d = destination{*params[l.param]};
      switch(l.expr)
      {
        case link_model::none: break;
        case link_model::at_least:
          l.sync->set_expression(expressions::make_expression_atom(d, expressions::comparator::GREATER_EQUAL, ossia::value{l.value}));
          break;
        case link_model::equal:
          l.sync->set_expression(expressions::make_expression_atom(d, expressions::comparator::EQUAL, ossia::value{l.value}));
          break;
        case link_model::pulse: l.sync->set_expression(expressions::make_expression_pulse(d)); break;
      }
      sc->add_time_sync(l.sync);
      l.min = sim::choose(3) ? sim::choose(200) : 0;
      // nothing to wait for: it ends at its maximum
      int64_t nominal = l.min + 1 + sim::choose(200);
      if(l.expr == link_model::none)
        l.max = l.min = nominal;
      else
        l.max = sim::chance(1, 3) ? -1 : nominal + sim::choose(100);
      total += nominal + 150;
      l.itv = time_interval::create({}, *prev, *l.ev, time_value{nominal}, time_value{l.min}, l.max < 0 ? Infinite : time_value{l.max});
      l.proc = std::make_shared<listener>();
      l.proc->what = "interval";
      l.proc->id = i;
      l.itv->add_time_process(l.proc);
      prev = l.ev;
    }
    for(auto& l : c.links)
      sc->add_time_interval(l.itv);
    player p{sc, [&](int64_t now) {
      sim::oracle o;
      c.tick(now);
    }};
    auto before = p.before->f;
    p.before->f = [&](const token_request& t) {
      {
        sim::oracle o;
        c.tick_begin = sim::seq();
      }
      before(t);
    };
    // each parameter is changed by one thread
    std::vector<std::thread> others;
    int nt = 1 + sim::choose(n_params);
    for(int k = 0; k < nt; k++)
      others.emplace_back([&, k] {
        int m = sim::choose(12);
        while(m-- > 0)
        {
          sim::sleep_ns(1000 * sim::choose(20000));
          int i = sim::choose(n_params);
          if(i % nt != k)
            continue;
          int v = sim::choose(4);
          std::size_t id;
          {
            sim::oracle o;
            id = c.pushes.size();
            c.pushes.push_back({i, v, sim::seq(), UINT64_MAX});
            sim::log("push p%d %d", i, v);
          }
          params[i]->push_value(v);
          {
            sim::oracle o;
            c.pushes[id].end = sim::seq();
          }
        }
      });
    int plays = 1 + (sim::choose(4) == 1);
    while(plays-- > 0)
    {
      p.play(sim::choose(4) == 1 ? 1 + sim::choose(total) : total);
      // who is no longer played no longer listens
      for(int i = 0; i < n_params; i++)
      {
        unsigned pulses = 0;
        for(auto& l : c.links)
          pulses += l.expr == link_model::pulse && l.param == i;
        SIM_CHECK(params[i]->callback_count() == pulses, "trigger-listens", "%zu callbacks of parameter %d after the end, %u before it",
                  params[i]->callback_count(), i, pulses);
      }
      sim::oracle o;
      for(auto& l : c.links)
      {
        SIM_CHECK(l.proc->started == l.proc->stopped && !l.proc->running, "trigger-stopped", "interval %d was started %d times and stopped %d times",
                  l.proc->id, l.proc->started, l.proc->stopped);
        l.proc->forget();
        l.evproc->forget();
        l.pos = l.seen = l.happened = 0;
        l.evaluated_begin = l.evaluated_end = 0;
        l.ended = false;
      }
      c.current = 0;
      c.now = 0;
    }
    for(auto& t : others)
      t.join();
    sc->node.reset();
  }
}
}
SIM_SCENARIO("P16", rigid) { rigid(); }
SIM_SCENARIO("P16", triggers) { triggers(); }
