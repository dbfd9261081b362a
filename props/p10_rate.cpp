// P10: a rate-limited protocol sends the newest value of every parameter, not more often than asked.
#include "osc_common.hpp"
#include <ossia/network/local/local.hpp>
#include <ossia/network/rate_limiting_protocol.hpp>
#include <map>
#include <set>

namespace
{
struct sent_t
{
  value v;
  uint64_t t;
};
struct history
{
  std::map<const net::parameter_base*, int> index; // parameters which are there
  std::vector<std::vector<sent_t>> sent, pushed;
  std::vector<std::vector<value>> failed;
  std::vector<uint64_t> removed;
  int fail_until = 0, calls = 0;
  std::set<int> failing; // parameters which cannot be sent
  bool slow = false;
  int echoes = 0;
};

// the protocol whose rate is limited
struct wire final : net::protocol_base
{
  history& h;
  wire(history& h)
      : protocol_base{flags{SupportsMultiplex}}
      , h{h}
  {
  }
  bool pull(net::parameter_base&) override { return true; }
  bool observe(net::parameter_base&, bool) override { return true; }
  bool update(net::node_base&) override { return true; }
  bool push_raw(const net::full_parameter_data&) override { return true; }
  bool push(const net::parameter_base& p, const value& v) override
  {
    bool broken = false;
    // what every protocol reads of a parameter
    (void)p.get_node().osc_address().size();
    if(p.filter_value(v))
      return false;
    {
      sim::oracle o;
      auto it = h.index.find(&p);
      if(it == h.index.end())
        sim::fail("rate-removed", "a parameter which was removed is sent");
      int k = it->second;
      h.calls++;
      sim::log("sent %d %s", k, str(v).c_str());
      if(h.failing.count(k))
      {
        broken = true;
        h.failed[k].push_back(v);
      }
      else
        h.sent[k].push_back({v, sim::now_ns()});
    }
    if(broken)
      throw std::runtime_error("Message too long");
    if(h.slow && sim::choose(4) == 1)
      sim::sleep_ns(sim::choose(8000000));
    return true;
  }
};

enum
{
  PLAIN = 0,
  BROKEN = 1,
  REMOVE = 2,
  RETIME = 4
};

void limited(int what)
{
  history h;
  int np = 1 + sim::choose(6);
  int nthreads = 1 + sim::choose(3);
  h.sent.resize(np);
  h.pushed.resize(np);
  h.failed.resize(np);
  h.removed.resize(np);
  h.slow = sim::chance(1, 4);
  uint64_t period = 2 + sim::choose(30); // ms
  uint64_t first_period = period;
  if(what & RETIME)
    first_period = sim::choose(2) ? 2 + sim::choose(30) : 200 + sim::choose(800);
  if(sim::chance(1, 2))
    sim::cooperate(30 + sim::choose(200), 100);
  auto lim = std::make_unique<net::rate_limiting_protocol>(std::chrono::milliseconds(first_period), std::make_unique<wire>(h));
  auto* proto = lim.get();
  bool mux = sim::chance(1, 3);
  std::unique_ptr<net::generic_device> dev;
  if(mux)
  {
    auto m = std::make_unique<net::multiplex_protocol>();
    m->expose_to(std::move(lim));
    dev = std::make_unique<net::generic_device>(std::move(m), "dev");
  }
  else
    dev = std::make_unique<net::generic_device>(std::move(lim), "dev");
  std::vector<net::parameter_base*> p;
  std::vector<val_type> type;
  for(int k = 0; k < np; k++)
  {
    auto t = types[sim::pick({0, 1, 2, 3, 5})].first;
    type.push_back(t);
    auto* q = net::create_node(*dev, "/n" + std::to_string(k)).create_parameter(t);
    p.push_back(q);
    h.index[q] = k;
  }
  if(what & BROKEN)
    for(int k = 0; k < np; k++)
      if(sim::choose(3) == 1)
        h.failing.insert(k);
  // a value which says which push it comes from
  auto make = [&](int k, int i) -> value {
    switch(type[k])
    {
      case val_type::INT: return i;
      case val_type::FLOAT: return (float)i;
      case val_type::STRING: return std::to_string(i);
      case val_type::VEC2F: return make_vec((float)i, 1.f);
      default: return std::vector<value>{i, std::string("x")};
    }
  };
  std::vector<uint64_t> changed{sim::now_ns()};
  if(what & RETIME)
  {
    sim::sleep_ns(sim::choose(40000000));
    proto->set_duration(std::chrono::milliseconds(period));
    // what was going on ends within the former period
    sim::sleep_ns(2 * first_period * 1000000 + 5000000);
    sim::settle(1000000);
  }
  std::vector<std::thread> th;
  std::vector<int> count(np);
  auto burst = [&](int t, int n) {
    std::vector<int> mine;
    for(int k = 0; k < np; k++)
      if(k % nthreads == t && !h.removed[k])
        mine.push_back(k);
    if(mine.empty())
      return;
    for(int i = 0; i < n; i++)
    {
      int k = sim::pick_from(mine);
      auto v = make(k, ++count[k]);
      {
        sim::oracle o;
        h.pushed[k].push_back({v, sim::now_ns()});
        sim::log("push %d %s", k, str(v).c_str());
      }
      p[k]->push_value(v);
      if(sim::choose(2))
        sim::sleep_ns(sim::choose(3 * period * 1000000 / 2));
    }
  };
  for(int t = 0; t < nthreads; t++)
    th.emplace_back([&, t] {
      burst(t, 1 + sim::choose(24));
      if(what & REMOVE)
        for(int k = t; k < np; k += nthreads)
          if(sim::choose(2))
          {
            if(sim::choose(2))
              sim::sleep_ns(sim::choose(2 * period * 1000000));
            dev->get_root_node().remove_child("n" + std::to_string(k));
            sim::oracle o;
            h.removed[k] = sim::now_ns();
            h.index.erase(p[k]);
            sim::log("removed %d", k);
          }
      burst(t, sim::choose(12));
    });
  for(auto& t : th)
    t.join();
  uint64_t end = sim::now_ns();
  sim::sleep_ns((4 * period + 10) * 1000000);
  if(sim::stalls() || h.slow)
    sim::sleep_ns(1000000000);
  if(what & BROKEN)
  {
    // the cause goes away
    bool ok;
    {
      sim::oracle o;
      h.failing.clear();
      ok = true;
    }
    for(int k = 0; k < np && ok; k++)
    {
      auto v = make(k, ++count[k]);
      {
        sim::oracle o;
        h.pushed[k].push_back({v, sim::now_ns()});
      }
      p[k]->push_value(v);
    }
    end = sim::now_ns();
    sim::sleep_ns((4 * period + 10) * 1000000 + 1000000000);
  }
  sim::sync_all();
  for(int k = 0; k < np; k++)
  {
    auto& s = h.sent[k];
    auto& q = h.pushed[k];
    // in order, each once
    size_t j = 0;
    for(size_t i = 0; i < s.size(); i++)
    {
      while(j < q.size() && !(q[j].v == s[i].v))
        j++;
      SIM_CHECK(j < q.size(), "rate-order", "parameter %d: %s is sent, not pushed, or sent before", k, str(s[i].v).c_str());
      j++;
    }
    // the newest value gets out
    if(!q.empty() && !h.removed[k])
    {
      SIM_CHECK(!s.empty(), "rate-starved", "parameter %d: %zu values pushed, none sent in %llu ms", k, q.size(),
                (unsigned long long)((sim::now_ns() - end) / 1000000));
      SIM_CHECK(s.back().v == q.back().v, "rate-starved", "parameter %d: %s was pushed last, %s sent last", k, str(q.back().v).c_str(),
                str(s.back().v).c_str());
    }
    // and not too often
    double d = period - 1;
    for(size_t a = 0; a < s.size(); a++)
      for(size_t b = a + 2; b < s.size(); b++)
      {
        double w = (s[b].t - s[a].t) / 1e6;
        if(d > 0)
          SIM_CHECK(b - a + 1 <= w / d + 3, "rate-rate", "parameter %d: %zu values sent in %.1f ms, the period is %llu ms", k, b - a + 1, w,
                    (unsigned long long)period);
      }
    // while nothing stalls, a value waits for two periods at most
    if(!sim::stalls() && !h.slow && !h.removed[k])
      for(size_t i = 0; i + 1 < q.size(); i++)
      {
        uint64_t limit = q[i].t + (2 * period + 2) * 1000000;
        if(q[i + 1].t <= limit || (what & BROKEN))
          continue;
        bool seen = false;
        for(auto& x : s)
          seen |= x.v == q[i].v && x.t <= limit;
        SIM_CHECK(seen, "rate-late", "parameter %d: %s was not sent within two periods of %llu ms", k, str(q[i].v).c_str(),
                  (unsigned long long)period);
      }
  }
  // messages which wait when the device goes are dropped
  if(sim::choose(2))
    for(int k = 0; k < np; k++)
      if(!h.removed[k])
        p[k]->push_value(make(k, ++count[k]));
  if(sim::choose(2))
    sim::sleep_ns(sim::choose(period * 1000000));
  dev.reset();
  sim::log("gone");
}

// what other protocols receive is sent too, not more often
void echoing()
{
  history h;
  h.sent.resize(1);
  h.pushed.resize(1);
  h.failed.resize(1);
  runner a, b;
  auto m = std::make_unique<net::multiplex_protocol>();
  auto* mux = m.get();
  uint64_t period = 5 + sim::choose(20);
  bool first = sim::choose(2);
  auto lim = [&] { return std::make_unique<net::rate_limiting_protocol>(std::chrono::milliseconds(period), std::make_unique<wire>(h)); };
  if(first)
    m->expose_to(lim());
  m->expose_to(net::make_osc_protocol(a.ctx, configuration(UNIX_SLIP, true, 2)));
  if(!first)
    m->expose_to(lim());
  net::generic_device dev{std::move(m), "dev"};
  bool echo = sim::choose(2);
  dev.set_echo(echo);
  auto* p = net::create_node(dev, "/p").create_parameter(val_type::INT);
  h.index[p] = 0;
  net::generic_device peer{net::make_osc_protocol(b.ctx, configuration(UNIX_SLIP, false, 2)), "peer"};
  auto* q = net::create_node(peer, "/p").create_parameter(val_type::INT);
  a.start();
  b.start();
  sim::settle(1000000000);
  int n = 1 + sim::choose(20);
  for(int i = 1; i <= n; i++)
  {
    q->push_value(i);
    if(sim::choose(2))
      sim::sleep_ns(sim::choose(2 * period * 1000000));
  }
  sim::sleep_ns((4 * period + 1000) * 1000000);
  a.stop();
  b.stop();
  sim::sync_all();
  (void)mux;
  SIM_CHECK(p->value() == value{n}, "rate-echo", "%s received, %d sent", str(p->value()).c_str(), n);
  if(!echo)
    SIM_CHECK(h.sent[0].empty(), "rate-echo", "%zu values echoed by a device which does not", h.sent[0].size());
  else
  {
    SIM_CHECK(!h.sent[0].empty() && h.sent[0].back().v == value{n}, "rate-echo", "%d received, %zu echoed", n, h.sent[0].size());
    auto& s = h.sent[0];
    for(size_t i = 0; i + 1 < s.size(); i++)
      SIM_CHECK(*s[i].v.target<int>() < *s[i + 1].v.target<int>(), "rate-echo", "%s echoed after %s", str(s[i + 1].v).c_str(), str(s[i].v).c_str());
  }
}

// unchanged values are not sent again: that does not mean that they are not sent at all
void repeated()
{
  history h;
  h.sent.resize(1);
  h.pushed.resize(1);
  h.failed.resize(1);
  uint64_t period = 5 + sim::choose(20);
  net::generic_device dev{std::make_unique<net::rate_limiting_protocol>(std::chrono::milliseconds(period), std::make_unique<wire>(h)), "dev"};
  auto* p = net::create_node(dev, "/p").create_parameter(val_type::INT);
  h.index[p] = 0;
  p->set_repetition_filter(repetition_filter::ON);
  int n = 1 + sim::choose(6), last = 0;
  for(int i = 0; i < n; i++)
  {
    last = 1 + sim::choose(3);
    p->push_value(last);
    if(sim::choose(2))
      sim::sleep_ns(sim::choose(2 * period * 1000000));
  }
  sim::sleep_ns((4 * period + 1000) * 1000000);
  sim::sync_all();
  auto& s = h.sent[0];
  for(size_t i = 0; i < s.size(); i++)
    SIM_CHECK(s[i].v.target<int>() && *s[i].v.target<int>() >= 1 && *s[i].v.target<int>() <= 3, "rate-order", "%s sent", str(s[i].v).c_str());
  SIM_CHECK(!s.empty() && s.back().v == value{last}, "rate-repetition", "%d was pushed last, %s sent last", last,
            s.empty() ? "nothing" : str(s.back().v).c_str());
}
}
SIM_SCENARIO("P10", rate_repetition) { repeated(); }
SIM_SCENARIO("P10", rate, 3) { limited(PLAIN); }
SIM_SCENARIO("P10", rate_broken, 2) { limited(BROKEN); }
SIM_SCENARIO("P10", rate_remove, 2) { limited(REMOVE); }
SIM_SCENARIO("P10", rate_retime) { limited(RETIME); }
SIM_SCENARIO("P10", rate_echo) { echoing(); }
