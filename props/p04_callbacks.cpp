// P04: callback_container. Every registered callback gets every message sent while it
// is registered exactly once, none once removed; the first/last hooks bracket the
// non-empty periods.
#include "common.hpp"
#include <ossia/detail/callback_container.hpp>
#include <list>
#include <map>

namespace
{
using cb_t = std::function<void(int)>;
struct entry
{
  uint64_t add_begin = 0, add_end = UINT64_MAX, rm_begin = UINT64_MAX, rm_end = UINT64_MAX;
  std::map<int, int> got;
};
struct sent_t
{
  uint64_t begin = 0, end = UINT64_MAX;
  bool threw = false;
};
struct world
{
  std::list<entry> entries;
  std::map<int, sent_t> sent;
  int next_msg = 0;
  int hooks_first = 0, hooks_last = 0;
  bool in_hook = false;
};
struct container : ossia::callback_container<cb_t>
{
  world& w;
  bool hooked = true;
  explicit container(world& w) : w{w} { }
  container(const container& o) : ossia::callback_container<cb_t>{o}, w{o.w}, hooked{false} { }
  container(container&& o) noexcept : ossia::callback_container<cb_t>{std::move(o)}, w{o.w}, hooked{false} { }
  container& operator=(const container& o)
  {
    ossia::callback_container<cb_t>::operator=(o);
    return *this;
  }
  void on_first_callback_added() override
  {
    if(!hooked)
      return;
    sim::oracle o;
    w.hooks_first++;
    SIM_CHECK(w.hooks_first == w.hooks_last + 1, "hook-order", "first-callback hook %d after %d last-callback hooks",
              w.hooks_first, w.hooks_last);
  }
  void on_removing_last_callback() override
  {
    if(!hooked)
      return;
    sim::oracle o;
    w.hooks_last++;
    SIM_CHECK(w.hooks_first == w.hooks_last, "hook-order", "last-callback hook %d after %d first-callback hooks",
              w.hooks_last, w.hooks_first);
  }
};
struct boom
{
};
cb_t make_cb(entry& e, bool may_throw)
{
  return [&e, may_throw](int m) {
    bool t = false;
    {
      sim::oracle o;
      SIM_CHECK(e.rm_end == UINT64_MAX, "called-after-removal", "message %d delivered to a callback already removed", m);
      e.got[m]++;
      SIM_CHECK(e.got[m] == 1, "called-twice", "message %d delivered %d times to one callback", m, e.got[m]);
    }
    if(sim::choose(8) == 1)
      sim::yield();
    if(may_throw)
      t = sim::fault("callback_throws", 150);
    if(t)
      throw boom{};
  };
}
void send(world& w, container& c, sent_t** rec = nullptr)
{
  int m;
  sent_t* s;
  {
    sim::oracle o;
    m = w.next_msg++;
    s = &w.sent[m];
    s->begin = sim::seq();
    if(rec)
      *rec = s;
  }
  bool threw = false;
  try
  {
    c.send(m);
  }
  catch(const boom&)
  {
    threw = true;
  }
  sim::oracle o;
  s->threw = threw;
  s->end = sim::seq();
}
struct handle
{
  entry* e;
  container::iterator it;
};
handle add(world& w, container& c, bool may_throw)
{
  entry* e;
  {
    sim::oracle o;
    w.entries.emplace_back();
    e = &w.entries.back();
    e->add_begin = sim::seq();
  }
  auto it = c.add_callback(make_cb(*e, may_throw));
  sim::oracle o;
  e->add_end = sim::seq();
  return {e, it};
}
void remove(container& c, handle& h)
{
  {
    sim::oracle o;
    h.e->rm_begin = sim::seq();
  }
  c.remove_callback(h.it);
  sim::oracle o;
  h.e->rm_end = sim::seq();
}
void verify(world& w)
{
  for(auto& e : w.entries)
    for(auto& [m, s] : w.sent)
    {
      auto it = e.got.find(m);
      int n = it == e.got.end() ? 0 : it->second;
      if(s.begin > e.add_end && s.end < e.rm_begin && !s.threw)
        SIM_CHECK(n == 1, "not-called", "message %d was not delivered to a callback registered all along", m);
      if(s.end < e.add_begin || s.begin > e.rm_end)
        SIM_CHECK(n == 0, "called-unregistered", "message %d was delivered to a callback not registered", m);
    }
}
}

SIM_SCENARIO("P04", churn, 3)
{
  world w;
  container c{w};
  bool may_throw = sim::chance(1, 4);
  int nsend = 1 + sim::choose(3), nchurn = 1 + sim::choose(3);
  std::vector<handle> left;
  std::mutex left_m;
  for(int i = sim::choose(3); i > 0; --i)
    left.push_back(add(w, c, may_throw));
  std::vector<std::thread> th;
  for(int i = 0; i < nsend; i++)
    th.emplace_back([&] {
      for(int k = 1 + sim::choose(6); k > 0; --k)
      {
        send(w, c);
        if(sim::choose(3) == 1)
          sim::yield();
      }
    });
  bool clear = sim::chance(1, 6);
  for(int i = 0; i < nchurn; i++)
    th.emplace_back([&] {
      std::vector<handle> mine;
      for(int k = 1 + sim::choose(8); k > 0; --k)
      {
        switch(sim::choose(4))
        {
          case 0:
          case 1: mine.push_back(add(w, c, may_throw)); break;
          case 2:
            if(!mine.empty())
            {
              size_t x = sim::choose(mine.size());
              remove(c, mine[x]);
              mine.erase(mine.begin() + x);
            }
            break;
          case 3:
          {
            size_t n = c.callback_count();
            bool e = c.callbacks_empty();
            SIM_CHECK(n >= mine.size(), "count", "%zu callbacks counted, this thread alone has %zu", n, mine.size());
            SIM_CHECK(mine.empty() || !e, "count", "container reported empty while holding callbacks");
            try
            {
              c.add_callback(cb_t{});
              sim::fail("empty-callback", "an empty callback was accepted");
            }
            catch(const ossia::invalid_callback_error&)
            {
            }
            break;
          }
        }
      }
      std::lock_guard l{left_m};
      for(auto& h : mine)
        left.push_back(h);
    });
  if(sim::chance(1, 3))
    th.emplace_back([&] {
      // a copy taken meanwhile works on its own
      std::vector<entry*> before;
      {
        sim::oracle o;
        uint64_t t = sim::seq();
        for(auto& e : w.entries)
          if(e.add_end < t)
            before.push_back(&e);
      }
      world none;
      container d{none};
      if(sim::choose(2))
        d = c;
      else
      {
        container copy{c};
        d = std::move(copy);
      }
      uint64_t t1;
      {
        sim::oracle o;
        t1 = sim::seq();
      }
      if(sim::choose(2))
        c.callback_count();
      size_t n = d.callback_count();
      sim::oracle o;
      size_t must = 0, may = 0;
      for(auto& e : w.entries)
      {
        if(std::find(before.begin(), before.end(), &e) != before.end() && e.rm_begin > t1)
          must++;
        may++;
      }
      SIM_CHECK(n >= must && n <= may, "copy", "a copy holds %zu callbacks, between %zu and %zu expected", n, must, may);
    });
  for(auto& t : th)
    t.join();
  verify(w);
  SIM_CHECK(c.callback_count() == left.size(), "count", "%zu callbacks at the end, %zu expected", c.callback_count(),
            left.size());
  if(clear)
  {
    {
      sim::oracle o;
      for(auto& h : left)
        h.e->rm_begin = sim::seq();
    }
    c.callbacks_clear();
    sim::oracle o;
    for(auto& h : left)
      h.e->rm_end = sim::seq();
  }
  else
  {
    size_t x;
    while(!left.empty())
    {
      x = sim::choose(left.size());
      remove(c, left[x]);
      left.erase(left.begin() + x);
    }
  }
  SIM_CHECK(c.callbacks_empty(), "count", "not empty after the removal of everything");
  SIM_CHECK(w.hooks_first == w.hooks_last, "hook-order", "%d first hooks, %d last hooks on an empty container",
            w.hooks_first, w.hooks_last);
  send(w, c);
  verify(w);
}

// moving, replacing and disabling callbacks
SIM_SCENARIO("P04", rearrange)
{
  world w;
  container c{w};
  std::vector<handle> hs;
  for(int i = 1 + sim::choose(4); i > 0; --i)
    hs.push_back(add(w, c, false));
  bool sender = sim::chance(1, 2);
  std::atomic_bool stop{false};
  std::thread t;
  if(sender)
    t = std::thread{[&] {
      for(int k = 2 + sim::choose(6); k > 0; --k)
        send(w, c);
    }};
  for(int k = 1 + sim::choose(4); k > 0; --k)
  {
    size_t x = sim::choose(hs.size());
    switch(sim::choose(3))
    {
      case 0:
      {
        // replaced in place: the old function is gone, the new one is called
        entry* e;
        {
          sim::oracle o;
          hs[x].e->rm_begin = sim::seq();
          w.entries.emplace_back();
          e = &w.entries.back();
          e->add_begin = sim::seq();
        }
        c.replace_callback(hs[x].it, make_cb(*e, false));
        {
          sim::oracle o;
          e->add_end = sim::seq();
          hs[x].e->rm_end = e->add_end;
        }
        hs[x].e = e;
        break;
      }
      case 1:
      {
        // disabled for a scope, back afterwards; the other handles stay usable
        entry* e = hs[x].e;
        {
          sim::oracle o;
          e->rm_begin = sim::seq();
        }
        {
          auto guard = c.disable_callback(hs[x].it);
          {
            sim::oracle o;
            e->rm_end = sim::seq();
          }
          send(w, c);
          if(hs.size() > 2 && sim::chance(1, 3))
          {
            size_t y = (x + 1) % hs.size();
            remove(c, hs[y]);
            hs.erase(hs.begin() + y);
          }
          else if(hs.size() > 1 && sim::chance(1, 3))
            hs.push_back(add(w, c, false));
          // what it gets from here on belongs to a new registration
          sim::oracle o;
          w.entries.emplace_back();
          w.entries.back().add_begin = sim::seq();
          entry copy = *e;
          auto& n = w.entries.back();
          n.got = std::move(copy.got);
          n.rm_begin = copy.rm_begin;
          n.rm_end = copy.rm_end;
          n.add_begin = copy.add_begin;
          n.add_end = copy.add_end;
          e->got.clear();
          e->add_begin = sim::seq();
          e->add_end = UINT64_MAX;
          e->rm_begin = e->rm_end = UINT64_MAX;
        }
        {
          sim::oracle o;
          e->add_end = sim::seq();
        }
        send(w, c);
        break;
      }
      case 2:
      {
        size_t n = c.callback_count();
        SIM_CHECK(n == hs.size(), "count", "%zu callbacks, %zu expected", n, hs.size());
        break;
      }
    }
  }
  if(t.joinable())
    t.join();
  send(w, c);
  verify(w);
  if(!sender && sim::chance(1, 3))
  {
    size_t n = c.callback_count();
    container d{std::move(c)};
    SIM_CHECK(d.callback_count() == n, "move", "a moved container holds %zu callbacks, %zu expected", d.callback_count(), n);
    send(w, d);
    verify(w);
    while(!hs.empty())
    {
      remove(d, hs.back());
      hs.pop_back();
    }
    return;
  }
  while(!hs.empty())
  {
    remove(c, hs.back());
    hs.pop_back();
  }
  SIM_CHECK(c.callbacks_empty() && w.hooks_first == w.hooks_last, "hook-order", "%d first hooks and %d last hooks at the end",
            w.hooks_first, w.hooks_last);
}
