#pragma once
#include "sim.hpp"
#include <ossia/detail/config.hpp>
#include <boost/asio.hpp>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace h
{
inline std::string hex(const std::string& s, size_t max = 24)
{
  std::string r;
  char b[4];
  for(size_t i = 0; i < s.size() && i < max; i++)
  {
    snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
    r += b;
  }
  if(s.size() > max)
    r += "..(" + std::to_string(s.size()) + ")";
  return r;
}
// what a receiver got, in order; safe to fill from any thread
struct recorder
{
  std::vector<std::string> v;
  void add(const char* p, size_t n)
  {
    sim::oracle o;
    v.emplace_back(p, n);
    sim::log("recv %s", hex(v.back()).c_str());
  }
  void add(std::string s)
  {
    sim::oracle o;
    v.push_back(s);
    sim::log("recv %s", s.c_str());
  }
  size_t size()
  {
    sim::oracle o;
    return v.size();
  }
  std::vector<std::string> copy()
  {
    sim::oracle o;
    return v;
  }
};
// runs an io_context on its own simulated thread until stopped
struct io_thread
{
  boost::asio::io_context ctx;
  boost::asio::executor_work_guard<boost::asio::io_context::executor_type> guard{ctx.get_executor()};
  std::thread t;
  io_thread()
  {
    t = std::thread{[this] { ctx.run(); }};
  }
  // runs f on the io thread and waits for it
  void sync(std::function<void()> f)
  {
    std::mutex m;
    std::condition_variable cv;
    bool done = false;
    boost::asio::post(ctx, [&] {
      f();
      std::lock_guard l{m};
      done = true;
      cv.notify_one();
    });
    std::unique_lock l{m};
    cv.wait(l, [&] { return done; });
  }
  void stop()
  {
    guard.reset();
    ctx.stop();
    if(t.joinable())
      t.join();
  }
  ~io_thread() { stop(); }
};
inline std::string random_payload(size_t max)
{
  size_t n = 1;
  switch(sim::choose(4))
  {
    case 0: n = 1 + sim::choose(8); break;
    case 1: n = 1 + sim::choose(40); break;
    case 2: n = 1 + sim::choose(300); break;
    case 3: n = 1 + sim::choose(max); break;
  }
  if(n > max)
    n = max;
  std::string s(n, 0);
  unsigned style = sim::choose(4);
  uint32_t x = sim::choose(1 << 30) * 2 + 1;
  static const unsigned char special[] = {192, 219, 220, 221, 0, 255};
  for(auto& c : s)
  {
    x = x * 1664525u + 1013904223u;
    c = style == 0 || style == 3 ? char('a' + (x >> 24) % 26) : style == 1 ? (char)special[(x >> 24) % 6] : (char)(x >> 24);
  }
  if(style == 3) // long plain runs, with special bytes at the ends of the blocks one might cut them in
    for(int i = 1 + sim::choose(4); i > 0; --i)
    {
      size_t at = sim::choose(2) ? sim::choose(n) : ((size_t)(1 + sim::choose(16)) << (5 + sim::choose(9))) + sim::choose(3) - 1;
      s[at % n] = special[sim::choose(6)];
    }
  return s;
}
}
