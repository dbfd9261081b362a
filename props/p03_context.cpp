// P03: the network context (run, stop, failing handlers) and ossia::timer.
#include "common.hpp"
#include <ossia/detail/timer.hpp>
#include <ossia/network/context.hpp>
#include <ossia/network/context_functions.hpp>
#include <optional>

using namespace ossia::net;

// Handlers posted to a running context all run, once, in posting order, on its thread,
// whatever other handlers throw; stop ends run().
SIM_SCENARIO("P03", context_handlers, 2)
{
  auto ctx = create_network_context();
  bool early = sim::chance(1, 2);
  int nthreads = 1 + sim::choose(3);
  struct item { int thread, n; };
  std::vector<item> ran;
  std::atomic_int ctx_thread{-1};
  std::vector<int> posted(nthreads, 0);
  bool throwing = false;
  auto poster = [&](int th, int count) {
    for(int i = 0; i < count; i++)
    {
      int kind = sim::fault("handler_throws", 200) ? 1 + sim::fchoose(2) : 0;
      boost::asio::post(ctx->context, [&, th, i, kind] {
        {
          sim::oracle o;
          ran.push_back({th, i});
          int id = sim::thread_id();
          if(ctx_thread < 0)
            ctx_thread = id;
          SIM_CHECK(ctx_thread == id, "wrong-thread", "a handler ran on thread %d, others on %d", id, ctx_thread.load());
          if(kind)
            throwing = true;
        }
        if(kind == 1)
          throw std::runtime_error("handler");
        if(kind == 2)
          throw 42;
      });
      {
        sim::oracle o;
        posted[th]++;
      }
      if(sim::choose(4) == 1)
        sim::sleep_ns(sim::choose(100000));
    }
  };
  if(early)
    poster(0, 1 + sim::choose(4));
  std::thread t = run_threaded_network_context(*ctx);
  int first = posted[0];
  std::vector<std::thread> ths;
  std::vector<int> base(nthreads, 0);
  for(int i = early ? 1 : 0; i < nthreads; i++)
    ths.emplace_back([&, i] { poster(i, 1 + sim::choose(8)); });
  for(auto& x : ths)
    x.join();
  sim::settle(1000000000);
  {
    sim::oracle o;
    std::vector<int> next(nthreads, 0);
    for(auto& r : ran)
    {
      SIM_CHECK(r.n == next[r.thread], "handler-order", "handler %d of thread %d ran, %d expected", r.n, r.thread,
                next[r.thread]);
      next[r.thread]++;
    }
    for(int i = 0; i < nthreads; i++)
      SIM_CHECK(next[i] == posted[i], "handler-lost", "%d of %d handlers of thread %d ran%s", next[i], posted[i], i,
                throwing ? " (a handler threw)" : "");
  }
  (void)first;
  // still idle, still running; then stopped from outside or from one of its handlers
  // others are queued behind: none starts after a handler stopped the context, and at
  // most the one which is being started after another thread did
  std::atomic<bool> stopped{false};
  int after = 0;
  auto behind = [&] {
    for(int i = sim::choose(4); i > 0; i--)
      boost::asio::post(ctx->context, [&] {
        sim::oracle o;
        after += stopped;
      });
  };
  bool inside = sim::chance(1, 2);
  auto stop = [&] {
    behind();
    stop_network_context(*ctx);
    {
      sim::oracle o;
      stopped = true;
    }
    behind();
  };
  if(inside)
    boost::asio::post(ctx->context, stop);
  else
    stop();
  behind();
  t.join(); // never returning is reported as a deadlock
  {
    sim::oracle o;
    SIM_CHECK(after <= !inside, "ran-after-stop", "%d handlers ran after the context was stopped", after);
  }
  size_t n = ran.size();
  boost::asio::post(ctx->context, [&] {
    sim::oracle o;
    ran.push_back({0, -1});
  });
  run_network_context(*ctx); // stopped: returns at once
  SIM_CHECK(ran.size() == n, "ran-after-stop", "a handler ran on a stopped context");
}

// poll executes what is ready and never blocks
SIM_SCENARIO("P03", context_poll)
{
  auto ctx = create_network_context();
  std::atomic_int ran{0};
  int n = 1 + sim::choose(6);
  bool other = sim::chance(1, 2);
  std::thread t;
  auto post_all = [&] {
    for(int i = 0; i < n; i++)
      boost::asio::post(ctx->context, [&] { ran++; });
  };
  if(other)
    t = std::thread{post_all};
  else
    post_all();
  uint64_t t0 = sim::now_ns();
  poll_network_context(*ctx);
  SIM_CHECK(other || ran == n, "poll-missed", "%d of %d ready handlers ran in poll", ran.load(), n);
  if(t.joinable())
    t.join();
  SIM_CHECK(sim::now_ns() - t0 < 1000000000ull, "poll-blocked", "poll took %llu ns", (unsigned long long)(sim::now_ns() - t0));
  // a context which ran out of work is restarted before it is polled again
  ctx->context.restart();
  poll_network_context(*ctx);
  SIM_CHECK(ran == n, "poll-missed", "%d of %d handlers ran", ran.load(), n);
}

// A timer calls back every period while it is started, on the context's thread, never
// early, and never after stop() or destruction.
SIM_SCENARIO("P03", timers, 3)
{
  using namespace std::chrono;
  h::io_thread io;
  struct state
  {
    std::optional<ossia::timer> tm;
    uint64_t period = 0, last = 0, started = 0;
    int calls = 0, budget = 0, runs = 0;
    bool running = false;
    int action = 0, target = 0, when = 0;
  };
  int n = 1 + sim::choose(3);
  std::vector<state> st(n);
  uint64_t slack = 50000000; // scheduling of the simulated threads
  bool slow = sim::fault("slow_handler", 300);
  bool stalls = sim::stalls();
  std::function<void(int)> start;
  auto stop_one = [&](int k) {
    if(!st[k].tm)
      return;
    if(sim::choose(2))
      st[k].tm->stop();
    else
      st[k].tm.reset();
    sim::oracle o;
    st[k].running = false;
    sim::log("stop %d", k);
  };
  start = [&](int i) {
    auto& s = st[i];
    if(!s.tm)
      s.tm.emplace(io.ctx);
    s.tm->set_delay(milliseconds(s.period / 1000000));
    {
      sim::oracle o;
      s.running = true;
      s.last = s.started = sim::now_ns();
      s.calls = 0;
      s.runs++;
    }
    s.tm->start([&, i] {
      auto& s = st[i];
      int run = s.runs;
      {
        sim::oracle o;
        SIM_CHECK(s.running, "timer-after-stop", "timer %d called back after it was stopped", i);
        uint64_t now = sim::now_ns();
        SIM_CHECK(now >= s.last + s.period, "timer-early", "timer %d of period %llu ns called back after %llu ns", i,
                  (unsigned long long)s.period, (unsigned long long)(now - s.last));
        s.calls++;
      }
      if(slow && sim::choose(3) == 1)
        sim::sleep_ns(sim::choose(20) * 1000000ull);
      if(s.calls == s.when)
      {
        sim::probe("timer acted on from a callback");
        if(s.action == 1)
          stop_one(s.target);
        else if(s.action == 2)
        {
          stop_one(s.target);
          if(st[s.target].runs < 3)
            start(s.target);
        }
      }
      sim::oracle o;
      if(s.runs == run)
        s.last = sim::now_ns();
    });
  };
  for(int i = 0; i < n; i++)
  {
    st[i].period = (1 + sim::choose(5)) * 1000000ull * (sim::choose(2) ? 1 : 10);
    st[i].action = sim::choose(3);
    st[i].target = sim::choose(n);
    st[i].when = 1 + sim::choose(4);
  }
  // a deleted target may be the timer which is running: then it must be stopped, not destroyed
  io.sync([&] {
    for(int i = 0; i < n; i++)
      start(i);
  });
  uint64_t total = 30000000ull + sim::choose(200) * 1000000ull;
  uint64_t t0 = sim::now_ns();
  sim::sleep_ns(total);
  io.sync([&] {
    uint64_t now = sim::now_ns();
    for(int i = 0; i < n; i++)
    {
      auto& s = st[i];
      if(!s.running || slow || stalls)
        continue;
      // progress: at least one call per period, up to scheduling delays
      uint64_t el = now - s.started;
      SIM_CHECK(el < s.period * 2 + slack || s.calls >= 1, "timer-dead", "timer %d of period %llu ns never called back in %llu ns", i,
                (unsigned long long)s.period, (unsigned long long)el);
      SIM_CHECK(now - s.last < s.period + slack, "timer-dead", "timer %d of period %llu ns silent for %llu ns", i,
                (unsigned long long)s.period, (unsigned long long)(now - s.last));
    }
    for(int i = 0; i < n; i++)
      stop_one(i);
  });
  (void)t0;
  sim::sleep_ns(200000000);
  io.stop();
}
