// P08: values pushed through an OSC device reach the other device.
#include "osc_common.hpp"

namespace
{
struct param_t
{
  std::string path;
  val_type type;
  int dir = 0;       // 0: host to mirror
  int thread = 0;
  bool listened = false;
  bool local_only = false; // mirrors do not send to these
  bool repetition = false;
  bool grouped = false;
  bool blob = false;
  std::optional<std::pair<int, int>> clip[2];
  net::parameter_base* p[2]{};
  value last;
  std::vector<value> sent; // what the other side has to see
  std::vector<value> got;  // seen by callbacks
  std::vector<value> msgs; // seen by device_base::on_message
};

struct side
{
  runner run;
  std::unique_ptr<net::generic_device> dev;
  net::protocol_base* proto{};
  std::map<const net::parameter_base*, param_t*> incoming;
  std::vector<std::pair<std::string, value>> unhandled;
  int opened = 0;
  void on_message(const net::parameter_base& p)
  {
    auto v = p.value();
    sim::oracle o;
    auto it = incoming.find(&p);
    if(it == incoming.end())
      sim::fail("osc-target", "a message was applied to %s, which nobody sends", net::osc_parameter_string(p).c_str());
    it->second->msgs.push_back(v);
    sim::log("recv %s %s", it->second->path.c_str(), str(v).c_str());
  }
  void on_unhandled(std::string_view a, const value& v)
  {
    sim::oracle o;
    unhandled.emplace_back(std::string(a), v);
  }
  void on_open()
  {
    sim::oracle o;
    opened++;
  }
};

value clamped(const param_t& p, int s, value v)
{
  if(!p.clip[s])
    return v;
  auto [lo, hi] = *p.clip[s];
  if(auto i = v.target<int>())
    return std::min(std::max(*i, lo), hi);
  if(auto i = v.target<float>())
    return std::min(std::max(*i, (float)lo), (float)hi);
  return v;
}

void devices(int tr)
{
  sim::net_random_faults();
  auto& n = sim::net();
  n.udp_corrupt = 0;
  n.tcp_reset = 0;
  n.accept_error = 0;
  if(tr == UNIX_DGRAM)
    n.send_error = 0;
  int version = sim::choose(3);
  side s[2]; // 0: host
  std::vector<std::unique_ptr<param_t>> params;
  bool big = sim::chance(1, tr == WS ? 12 : 3);
  if(big)
    sim::step_limit(20000000);
  if(big)
  {
    // large messages in pieces of a few bytes only take time
    n.segment = std::min(n.segment, 20u);
    n.short_read = std::min(n.short_read, 20u);
    n.short_write = std::min(n.short_write, 20u);
  }
  int nthreads = 1 + sim::choose(3);
  int np = 1 + sim::choose(10);
  for(int i = 0; i < np; i++)
  {
    auto p = std::make_unique<param_t>();
    auto [t, nm] = types[sim::choose(std::size(types))];
    p->type = t;
    static const char* prefix[] = {"/", "/a/", "/a/b/", "/long_name.with-dots/", "/a/c~/"};
    p->path = prefix[sim::choose(5)] + std::string(nm) + std::to_string(i) + (sim::choose(3) == 1 ? "_and_more" : "");
    p->dir = sim::choose(2);
    p->thread = sim::choose(nthreads);
    p->listened = sim::choose(2);
    if(t == val_type::INT || t == val_type::FLOAT)
      for(int k = 0; k < 2; k++)
        if(sim::chance(1, 6))
          p->clip[k] = std::pair<int, int>(-100 - (int)sim::choose(100), 100 + sim::choose(100));
    p->local_only = sim::chance(1, 8);
    p->repetition = sim::chance(1, 6) && t != val_type::IMPULSE && !p->clip[0] && !p->clip[1];
    p->blob = t == val_type::STRING && sim::choose(3) == 1;
    params.push_back(std::move(p));
  }
  bool group = sim::chance(1, 3);
  int group_dir = sim::choose(2);
  if(group)
    for(int i = 0; i < 3; i++)
    {
      auto p = std::make_unique<param_t>();
      p->type = val_type::INT;
      p->path = "/group/x" + std::to_string(i);
      p->dir = group_dir;
      p->listened = sim::choose(2);
      p->grouped = true;
      params.push_back(std::move(p));
    }
  bool run_first = sim::choose(2);
  if(run_first)
    for(auto& x : s)
      x.run.start();
  for(int k = 0; k < 2; k++)
  {
    auto proto = net::make_osc_protocol(s[k].run.ctx, configuration(tr, k == 0, version));
    SIM_CHECK(proto != nullptr, "osc-factory", "no protocol for %s %s", tname[tr], k ? "mirror" : "host");
    s[k].proto = proto.get();
    if(tr == WS && k == 1 && !run_first)
      proto->on_connection_open.connect<&side::on_open>(s[k]);
    s[k].dev = std::make_unique<net::generic_device>(std::move(proto), k ? "mirror" : "host");
    s[k].dev->on_message.connect<&side::on_message>(s[k]);
    s[k].dev->on_unhandled_message.connect<&side::on_unhandled>(s[k]);
    for(auto& p : params)
    {
      auto& node = net::create_node(*s[k].dev, p->path);
      p->p[k] = node.create_parameter(p->type);
      if(p->clip[k])
      {
        p->p[k]->set_domain(p->type == val_type::INT ? make_domain(p->clip[k]->first, p->clip[k]->second)
                                                     : make_domain((float)p->clip[k]->first, (float)p->clip[k]->second));
        p->p[k]->set_bounding(bounding_mode::CLIP);
      }
      if(p->blob)
        net::set_extended_type(node, generic_buffer_type());
      if(p->local_only)
        p->p[k]->set_access(access_mode::GET);
      if(p->repetition)
        p->p[k]->set_repetition_filter(repetition_filter::ON);
      if(k != p->dir)
      {
        s[k].incoming[p->p[k]] = p.get();
        if(p->listened)
          p->p[k]->add_callback([pp = p.get()](const value& v) {
            sim::oracle o;
            pp->got.push_back(v);
          });
      }
    }
  }
  if(!run_first)
    for(auto& x : s)
      x.run.start();
  sim::settle(5000000000ull); // the connection is up
  if(sim::chance(1, 2))
    sim::cooperate(20 + sim::choose(100), 200);
  bool off = sim::chance(1, 4);
  // addresses which only the sender knows
  std::vector<std::vector<int>> unknown(2 * nthreads);
  std::vector<std::thread> th;
  for(int k = 0; k < 2; k++)
    for(int t = 0; t < nthreads; t++)
      th.emplace_back([&, k, t] {
        std::vector<param_t*> mine;
        for(auto& p : params)
          if(p->dir == k && p->thread == t && !p->grouped)
            mine.push_back(p.get());
        if(mine.empty())
          return;
        auto blocked = [&](param_t& p) { return p.local_only && k == 1; };
        auto expect = [&](param_t& p, const value& v) {
          sim::oracle o;
          sim::log("send %s %s", p.path.c_str(), str(v).c_str());
          if(!blocked(p))
            p.sent.push_back(clamped(p, 1 - k, clamped(p, k, v)));
        };
        auto fresh = [&](param_t& p, bool small) {
          if(p.repetition && p.last.valid() && sim::choose(2))
            return p.last;
          auto v = random_value(p.type, version, big && !small);
          if(p.blob)
            for(auto& c : *v.target<std::string>())
              if(c < 20)
                c = 0;
          return v;
        };
        int count = 1 + sim::choose(12);
        for(int i = 0; i < count; i++)
        {
          auto& p = *sim::pick_from(mine);
          auto* me = p.p[k];
          switch(sim::choose(8))
          {
            default: {
              auto v = fresh(p, false);
              if(!p.repetition || !(v == me->value()))
                expect(p, v);
              p.last = v;
              me->push_value(v);
              break;
            }
            case 5: {
              if(p.repetition)
                break;
              if(!off)
                break;
              // muted and disabled parameters say nothing
              bool m = sim::choose(2);
              m ? me->set_muted(true) : me->set_disabled(true);
              me->push_value(fresh(p, true));
              m ? me->set_muted(false) : me->set_disabled(false);
              break;
            }
            case 6: {
              // a bundle
              std::vector<const net::parameter_base*> b;
              std::vector<net::full_parameter_data> raw;
              std::vector<net::parameter_base*> hushed;
              bool use_raw = sim::choose(2);
              for(auto q : mine)
                if(!q->blob && sim::choose(2))
                {
                  auto v = fresh(*q, true);
                  // muted and unchanged ones stay out of it
                  bool silent = off && sim::choose(3) == 1, m = sim::choose(2);
                  bool same = q->repetition && v == q->p[k]->value();
                  if(use_raw && (q->repetition || silent))
                    continue;
                  if(silent)
                  {
                    m ? q->p[k]->set_muted(true) : q->p[k]->set_disabled(true);
                    hushed.push_back(q->p[k]);
                  }
                  else if(!same)
                    expect(*q, v);
                  if(use_raw)
                  {
                    net::full_parameter_data d;
                    d.address = q->path;
                    d.set_value(v);
                    if(q->clip[k])
                    {
                      d.domain = q->p[k]->get_domain();
                      d.bounding = bounding_mode::CLIP;
                    }
                    d.access = q->local_only ? access_mode::GET : access_mode::BI;
                    raw.push_back(d);
                  }
                  else
                  {
                    q->p[k]->set_value(v);
                    q->last = v;
                    b.push_back(q->p[k]);
                  }
                }
              if(!b.empty())
                s[k].proto->push_bundle(b);
              if(!raw.empty())
                s[k].proto->push_raw_bundle(raw);
              for(auto q : hushed)
              {
                q->set_muted(false);
                q->set_disabled(false);
              }
              break;
            }
            case 7: {
              net::full_parameter_data d;
              if(sim::choose(2))
              {
                int c = sim::choose(1000);
                d.address = "/nowhere/" + std::to_string(k * nthreads + t);
                d.set_value(c);
                {
                  sim::oracle o;
                  unknown[k * nthreads + t].push_back(c);
                }
                s[k].proto->push_raw(d);
              }
              else if(group && group_dir == k && t == 0)
              {
                static const std::pair<const char*, int> pat[] = {{"/group/*", 7}, {"/group/x?", 7}, {"/group/x[0-1]", 3}, {"/group/{x0,x2}", 5}, {"/*/x1", 2}};
                auto [a, mask] = pat[sim::choose(std::size(pat))];
                int c = sim::choose(1000);
                d.address = a;
                d.set_value(c);
                {
                  sim::oracle o;
                  for(auto& q : params)
                    if(q->grouped && (mask >> (q->path.back() - '0') & 1))
                      q->sent.push_back(c);
                }
                s[k].proto->push_raw(d);
              }
              break;
            }
          }
          if(sim::choose(4) == 1)
            sim::sleep_ns(sim::choose(2000000));
        }
      });
  // somebody starts and stops listening meanwhile
  std::thread churn;
  if(sim::chance(1, 2))
    churn = std::thread{[&] {
      for(int i = 0; i < 6; i++)
      {
        auto& p = *sim::pick_from(params);
        if(p.listened)
          continue;
        auto* q = p.p[1 - p.dir];
        auto it = q->add_callback([](const value&) {});
        sim::sleep_ns(sim::choose(1500000));
        q->remove_callback(it);
      }
    }};
  for(auto& t : th)
    t.join();
  if(churn.joinable())
    churn.join();
  sim::settle(100000000000ull);
  for(auto& x : s)
    x.run.stop();
  bool dgram = tr == UDP;
  bool lossy = dgram && (n.udp_loss || n.send_error), reorder = dgram && n.udp_reorder, dup = dgram && n.udp_dup;
  // a datagram which waits longer than the ones after it
  if(dgram && n.lat_jitter_us)
    reorder = true;
  for(auto& p : params)
  {
    compare(tname[tr], p->path, p->sent, p->msgs, "device", lossy, reorder, dup);
    if(p->listened)
    {
      SIM_CHECK(p->got.size() == p->msgs.size(), "osc-callback", "%s: %zu messages applied to %s, %zu callbacks", tname[tr], p->msgs.size(),
                p->path.c_str(), p->got.size());
      for(size_t i = 0; i < p->got.size(); i++)
        SIM_CHECK(p->got[i] == p->msgs[i], "osc-callback", "%s: message %zu of %s: callback with %s, value %s", tname[tr], i, p->path.c_str(),
                  str(p->got[i]).c_str(), str(p->msgs[i]).c_str());
    }
    if(!p->msgs.empty())
      SIM_CHECK(p->p[1 - p->dir]->value() == p->msgs.back(), "osc-value", "%s: %s holds %s after %s", tname[tr], p->path.c_str(),
                str(p->p[1 - p->dir]->value()).c_str(), str(p->msgs.back()).c_str());
  }
  for(int k = 0; k < 2; k++)
    for(int t = 0; t < nthreads; t++)
    {
      param_t u;
      u.path = "/nowhere/" + std::to_string(k * nthreads + t);
      for(int c : unknown[k * nthreads + t])
        u.sent.push_back(c);
      std::vector<value> got;
      for(auto& [a, v] : s[1 - k].unhandled)
        if(a == u.path)
          got.push_back(v);
      compare(tname[tr], u.path, u.sent, got, "unhandled", lossy, reorder, dup);
    }
  for(int k = 0; k < 2; k++)
    for(auto& [a, v] : s[k].unhandled)
      SIM_CHECK(a.find("/nowhere/") == 0, "osc-unhandled", "%s: %s reported as unhandled", tname[tr], a.c_str());
  if(tr == WS && !run_first)
    SIM_CHECK(s[1].opened == 1, "osc-open", "%s: on_connection_open called %d times", tname[tr], s[1].opened);
  for(auto& x : s)
    x.dev.reset();
}

// a device which learns has the nodes of the one which sends
void learning(int tr)
{
  sim::net_random_faults();
  auto& n = sim::net();
  n = {};
  n.segment = 300 * sim::choose(2);
  int version = sim::choose(3);
  side s[2];
  int from = sim::choose(2);
  for(int k = 0; k < 2; k++)
  {
    auto proto = net::make_osc_protocol(s[k].run.ctx, configuration(tr, k == 0, version));
    s[k].proto = proto.get();
    if(k != from)
      proto->set_learning(true);
    s[k].dev = std::make_unique<net::generic_device>(std::move(proto), k ? "mirror" : "host");
  }
  for(auto& x : s)
    x.run.start();
  sim::settle(5000000000ull);
  int np = 1 + sim::choose(8);
  struct learnt
  {
    std::string path;
    value v;
    net::parameter_base* p;
  };
  std::vector<learnt> all;
  for(int i = 0; i < np; i++)
  {
    static const val_type kinds[] = {val_type::INT, val_type::FLOAT, val_type::STRING, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST};
    auto t = kinds[sim::choose(7)];
    static const char* prefix[] = {"/", "/a/", "/a/b/"};
    learnt l{prefix[sim::choose(3)] + std::string("p") + std::to_string(i), random_value(t, version, false), nullptr};
    if(auto list = l.v.target<std::vector<value>>(); list && list->size() <= 4)
      for(int k = 0; k < 5; k++)
        list->push_back(k);
    l.p = net::create_node(*s[from].dev, l.path).create_parameter(t);
    l.p->push_value(l.v);
    all.push_back(l);
  }
  sim::settle(5000000000ull);
  auto* to = s[1 - from].dev.get();
  s[0].run.stop();
  s[1].run.stop();
  for(auto& l : all)
  {
    auto* node = net::find_node(to->get_root_node(), l.path);
    SIM_CHECK(node && node->get_parameter(), "osc-learn", "%s: %s was not learnt", tname[tr], l.path.c_str());
    SIM_CHECK(node->get_parameter()->value() == l.v, "osc-learn", "%s: %s learnt as %s, sent as %s", tname[tr], l.path.c_str(),
              str(node->get_parameter()->value()).c_str(), str(l.v).c_str());
    SIM_CHECK(node->get_parameter()->get_value_type() == l.p->get_value_type(), "osc-learn", "%s: %s learnt as type %d, sent as %d", tname[tr],
              l.path.c_str(), (int)node->get_parameter()->get_value_type(), (int)l.p->get_value_type());
  }
  for(auto& x : s)
    x.dev.reset();
}

// the other side already talks while a device is made
void early(int tr)
{
  sim::net_random_faults();
  auto& n = sim::net();
  n = {};
  sim::cooperate(15 + sim::choose(60), 60);
  int version = sim::choose(3);
  side s[2];
  s[0].run.start();
  s[1].run.start();
  std::atomic<bool> there{};
  std::mutex m;
  std::condition_variable cv;
  std::thread t{[&] {
    if(tr != UDP)
    {
      std::unique_lock l{m};
      cv.wait(l, [&] { return there.load(); });
    }
    auto proto = net::make_osc_protocol(s[1].run.ctx, configuration(tr, false, version));
    s[1].proto = proto.get();
    s[1].dev = std::make_unique<net::generic_device>(std::move(proto), "mirror");
    auto* p = net::create_node(*s[1].dev, "/i").create_parameter(val_type::INT);
    for(int i = 0; i < 6; i++)
    {
      p->push_value(i);
      sim::sleep_ns(sim::choose(400000));
    }
  }};
  if(tr == UDP)
    sim::sleep_ns(sim::choose(1000000));
  auto proto = net::make_osc_protocol(s[0].run.ctx, configuration(tr, true, version));
  s[0].proto = proto.get();
  {
    std::lock_guard l{m};
    there = true;
  }
  cv.notify_one();
  if(sim::choose(2))
    sim::sleep_ns(sim::choose(1000000));
  s[0].dev = std::make_unique<net::generic_device>(std::move(proto), "host");
  t.join();
  sim::settle(5000000000ull);
  auto* q = net::create_node(*s[0].dev, "/i").create_parameter(val_type::INT);
  s[1].dev->get_root_node().find_child("i")->get_parameter()->push_value(1234);
  sim::settle(5000000000ull);
  SIM_CHECK(q->value() == value{1234}, "osc-early", "%s: the device made while it received messages holds %s", tname[tr], str(q->value()).c_str());
  for(auto& x : s)
    x.run.stop();
  for(auto& x : s)
    x.dev.reset();
}
}
SIM_SCENARIO("P08", osc_udp, 3) { devices(UDP); }
SIM_SCENARIO("P08", osc_unix_dgram) { devices(UNIX_DGRAM); }
SIM_SCENARIO("P08", osc_tcp_size) { devices(TCP_SIZE); }
SIM_SCENARIO("P08", osc_tcp_slip) { devices(TCP_SLIP); }
SIM_SCENARIO("P08", osc_unix_size) { devices(UNIX_SIZE); }
SIM_SCENARIO("P08", osc_unix_slip) { devices(UNIX_SLIP); }
SIM_SCENARIO("P08", osc_ws, 2) { devices(WS); }
SIM_SCENARIO("P08", osc_learning) { learning(sim::choose(N_TRANSPORTS)); }
SIM_SCENARIO("P08", osc_early) { early(sim::pick({UDP, TCP_SIZE, UNIX_SLIP})); }
