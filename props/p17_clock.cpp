// P17: a clock plays an interval in real time
#include "common.hpp"
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/dataflow/token_request.hpp>
#include <ossia/editor/expression/expression.hpp>
#include <ossia/editor/scenario/clock.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_process.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <atomic>
#include <thread>

using namespace ossia;
namespace
{
struct played
{
  int64_t from, to;
  uint64_t at; // ns
};
struct listener : time_process
{
  std::vector<played> tokens;
  int started = 0;
  bool running = false;
  bool may_tick = true; // after stop() returned: no more
  unsigned in_pause = 0;
  bool paused = false;
  int in_state = 0;
  unsigned load_us = 0;
  void state(const token_request& t) override
  {
    {
      sim::oracle o;
      SIM_CHECK(in_state == 0, "clock-concurrent", "two ticks at the same time");
      SIM_CHECK(running, "clock-not-started", "played %ld..%ld before start() or after stop()", (long)t.prev_date.impl, (long)t.date.impl);
      SIM_CHECK(may_tick, "clock-after-stop", "played %ld..%ld after stop() returned", (long)t.prev_date.impl, (long)t.date.impl);
      in_state++;
      if(paused)
      {
        in_pause++;
        SIM_CHECK(in_pause <= 1, "clock-paused", "played %ld..%ld while paused", (long)t.prev_date.impl, (long)t.date.impl);
      }
      int64_t last = tokens.empty() ? 0 : tokens.back().to;
      SIM_CHECK(t.prev_date.impl == last && t.date.impl >= last, "clock-backwards", "plays %ld..%ld after %ld", (long)t.prev_date.impl, (long)t.date.impl,
                (long)last);
      tokens.push_back({t.prev_date.impl, t.date.impl, sim::now_ns()});
      sim::log("plays %ld..%ld", (long)t.prev_date.impl, (long)t.date.impl);
    }
    if(load_us)
      sim::sleep_ns(1000 * sim::choose(load_us));
    sim::oracle o;
    in_state--;
  }
  void start() override
  {
    started++;
    running = true;
  }
  void stop() override { running = false; }
  void offset_impl(time_value) override { }
  void transport_impl(time_value) override { }
};

void play()
{
  auto begin = std::make_shared<time_sync>(), finish = std::make_shared<time_sync>();
  auto a = *begin->emplace(begin->get_time_events().end(), {}, expressions::make_expression_true());
  auto b = *finish->emplace(finish->get_time_events().end(), {}, expressions::make_expression_true());
  int64_t duration = sim::chance(1, 3) ? 20 + sim::choose(400) : 0;
  auto root = duration ? time_interval::create({}, *a, *b, time_value{duration}, time_value{duration}, time_value{duration})
                       : time_interval::create({}, *a, *b);
  auto proc = std::make_shared<listener>();
  root->add_time_process(proc);
  if(sim::chance(1, 4))
    proc->load_us = 1 + sim::choose(3000);

  const int us = sim::pick({1000, 200, 50}); // a unit of the interval
  const int granularity = us * (1 + sim::choose(30));
  std::atomic<int> stopped{0};
  {
    ossia::clock c{*root, double(us)};
    c.set_granularity(std::chrono::microseconds(granularity));
    c.set_exec_status_callback([&](ossia::clock::exec_status st) {
      sim::log("status %d", (int)st);
      if(st == ossia::clock::STOPPED)
        stopped++;
    });
    int plays = 1 + sim::choose(3);
    for(int k = 0; k < plays; k++)
    {
      {
        sim::oracle o;
        proc->tokens.clear();
        proc->may_tick = true;
        proc->started = 0;
        stopped = 0;
      }
      uint64_t t_start = sim::now_ns();
      uint64_t paused_ns = 0; // surely
      c.start_and_tick();
      uint64_t t_started = sim::now_ns();
      // another one looks
      std::atomic<bool> done{false};
      std::thread watch{[&] {
        int64_t last = 0;
        while(!done)
        {
          int64_t d = c.get_date().impl;
          SIM_CHECK(d >= last || done, "clock-date", "the date of the clock goes from %ld to %ld", (long)last, (long)d);
          SIM_CHECK(d * 1000 <= int64_t(sim::now_ns() - t_start), "clock-date", "the date of the clock is %ld us after %ld us", (long)d,
                    long(sim::now_ns() - t_start) / 1000);
          last = d;
          sim::sleep_ns(1000 * us * (1 + sim::choose(60)));
        }
      }};
      int ops = sim::choose(4);
      uint64_t maybe_paused = 0;
      unsigned pauses = 0;
      for(int i = 0; i < ops; i++)
      {
        sim::sleep_ns(1000 * us * (1 + sim::choose(150)));
        if(sim::choose(2))
        {
          sim::log("pause");
          uint64_t p0 = sim::now_ns();
          c.pause();
          {
            sim::oracle o;
            proc->paused = true;
            proc->in_pause = 0;
          }
          uint64_t p1 = sim::now_ns();
          sim::sleep_ns(1000 * us * sim::choose(150));
          {
            sim::oracle o;
            proc->paused = false;
          }
          sim::log("resume");
          uint64_t p2 = sim::now_ns();
          c.resume();
          paused_ns += p2 - p1;
          maybe_paused += sim::now_ns() - p0;
          pauses++;
          sim::probe("paused");
        }
      }
      sim::sleep_ns(1000 * us * (1 + sim::choose(150)));
      bool wait_end = duration && sim::choose(2);
      if(wait_end)
      {
        uint64_t limit = sim::now_ns() + 1000ull * us * duration * 3 + 2000000000ull;
        while(c.running() && sim::now_ns() < limit)
          sim::sleep_ns(1000 * us * 20);
        SIM_CHECK(!c.running(), "clock-end", "the clock of an interval of %ld units still runs after %ld us", (long)duration,
                  long(sim::now_ns() - t_start) / 1000);
        sim::probe("ended by itself");
      }
      uint64_t t_stop = sim::now_ns();
      done = true;
      c.stop();
      uint64_t t_end = sim::now_ns();
      {
        sim::oracle o;
        proc->may_tick = false;
      }
      watch.join();
      sim::oracle o;
      SIM_CHECK(proc->started == 1 && !proc->running, "clock-started", "the process was started %d times and is %s", proc->started,
                proc->running ? "running" : "stopped");
      SIM_CHECK(stopped == 1, "clock-status", "STOPPED was told %d times", stopped.load());
      SIM_CHECK(!proc->tokens.empty(), "clock-first", "no tick at the beginning");
      // never ahead of the real time (each tick is rounded up to a unit)
      for(auto i = 0u; i < proc->tokens.size(); i++)
      {
        auto& t = proc->tokens[i];
        int64_t most = int64_t(t.at - t_start) / (1000 * us) + 1 + i;
        SIM_CHECK(t.to <= most, "clock-ahead", "tick %u, %ld..%ld, was played %ld us after the start: at most %ld", i, (long)t.from, (long)t.to,
                  long(t.at - t_start) / 1000, (long)most);
      }
      int64_t last = proc->tokens.back().to;
      int64_t most = int64_t(t_end - t_start - paused_ns) / (1000 * us) + 1 + proc->tokens.size() + pauses * (granularity / us + 2);
      SIM_CHECK(last <= most, "clock-ahead", "the interval is at %ld after %ld us, paused %ld us: at most %ld", (long)last, long(t_end - t_start) / 1000,
                long(paused_ns) / 1000, (long)most);
      if(!sim::stalls() && !proc->load_us)
      {
        // nor late when nothing slows it
        int64_t least = (int64_t(t_stop - t_started) - int64_t(maybe_paused)) / (1000 * us);
        if(duration)
          least = std::min(least, duration);
        // what is between two readings of the clock is lost
        least -= int64_t(proc->tokens.size()) * 20 / us + 1;
        least -= (pauses + 2) * (granularity / us + 2) + pauses * (30000 / us + 2);
        SIM_CHECK(last >= least, "clock-late", "the interval is at %ld after %ld us, paused %ld us: at least %ld", (long)last, long(t_stop - t_started) / 1000,
                  long(maybe_paused) / 1000, (long)least);
        if(wait_end)
          SIM_CHECK(last >= duration - 2 && last <= duration + int64_t(2 * (granularity / us + 3) + proc->tokens.size()), "clock-end",
                    "an interval of %ld was played up to %ld", (long)duration, (long)last);
      }
    }
  }
  root->cleanup();
}
}
SIM_SCENARIO("P17", play) { play(); }
