// P05: parameters. Values set, read and pushed from several threads; a recording
// protocol stands for the network.
#include "common.hpp"
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/base/message_origin_identifier.hpp>
#include <ossia/network/common/complex_type.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/network/value/value.hpp>
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/network/value/format_value.hpp>
#include <map>
#include <set>

using namespace ossia;
using namespace ossia::net;
namespace
{
std::string str(const ossia::value& v)
{
  return value_to_pretty_string(v);
}
// comparison which also compares the types
bool same(const ossia::value& a, const ossia::value& b)
{
  return a.v.which() == b.v.which() && a == b;
}

struct event
{
  enum
  {
    push,
    observe,
    echo
  } what;
  int thread;
  uint64_t at;
  const parameter_base* p;
  ossia::value v;
  bool on = false;
  const protocol_base* from = nullptr;
  uintptr_t id = 0;
};
struct rec_protocol : protocol_base
{
  std::vector<event> ev;
  bool filter = false;
  std::vector<bool> filtered;
  std::function<ossia::value()> remote;
  rec_protocol()
      : protocol_base{flags(SupportsMultiplex)}
  {
  }
  void add(event e)
  {
    sim::oracle o;
    e.thread = sim::thread_id();
    e.at = sim::seq();
    ev.push_back(std::move(e));
  }
  bool pull(parameter_base& p) override
  {
    if(remote)
      p.set_value(remote());
    return (bool)remote;
  }
  bool push(const parameter_base& p, const ossia::value& v) override
  {
    ossia::value copy = v; // as a protocol would serialize it
    bool f = filter && p.filter_value(copy);
    add({event::push, 0, 0, &p, std::move(copy), f});
    return true;
  }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base& p, bool b) override
  {
    add({event::observe, 0, 0, &p, {}, b});
    return true;
  }
  bool observe_quietly(parameter_base& p, bool b) override { return observe(p, b); }
  bool update(node_base&) override { return true; }
  bool echo_incoming_message(const message_origin_identifier& id, const parameter_base& p, const ossia::value& v) override
  {
    add({event::echo, 0, 0, &p, v, false, &id.protocol, id.identifier});
    return true;
  }
};

// a value which tells who wrote it, and which cannot be a mix of two others
ossia::value tagged(val_type t, int tag)
{
  switch(t)
  {
    case val_type::INT: return int32_t(tag);
    case val_type::FLOAT: return float(tag);
    case val_type::STRING: return std::to_string(tag) + std::string(20 + tag % 30, 'a' + tag % 26);
    case val_type::VEC2F: return ossia::make_vec(float(tag), float(tag));
    case val_type::VEC3F: return ossia::make_vec(float(tag), float(tag), float(tag));
    case val_type::VEC4F: return ossia::make_vec(float(tag), float(tag), float(tag), float(tag));
    case val_type::LIST: {
      std::vector<ossia::value> l;
      for(int i = 0; i < 2 + tag % 5; i++)
        l.push_back(i % 2 ? ossia::value{std::string(18, 'a' + tag % 26)} : ossia::value{tag});
      return l;
    }
    default: return {};
  }
}
const std::initializer_list<val_type> types{val_type::STRING, val_type::LIST, val_type::INT, val_type::FLOAT, val_type::VEC3F,
                                            val_type::VEC2F, val_type::VEC4F};

// One register: is there an order of the operations, compatible with real time, in which
// every read returns the last value written?
struct reg_op
{
  bool write;
  int val; // -1: initial
  uint64_t inv, res;
};
bool linearizable(const std::vector<reg_op>& ops)
{
  size_t n = ops.size();
  if(n > 60)
    return true;
  std::set<std::pair<uint64_t, int>> seen;
  std::function<bool(uint64_t, int)> go = [&](uint64_t done, int cur) {
    if(done == (n == 64 ? ~0ull : (1ull << n) - 1))
      return true;
    if(!seen.insert({done, cur}).second)
      return false;
    uint64_t first_res = ~0ull;
    for(size_t i = 0; i < n; i++)
      if(!(done >> i & 1))
        first_res = std::min(first_res, ops[i].res);
    for(size_t i = 0; i < n; i++)
      if(!(done >> i & 1) && ops[i].inv <= first_res)
      {
        if(ops[i].write ? go(done | 1ull << i, ops[i].val) : ops[i].val == cur && go(done | 1ull << i, cur))
          return true;
      }
    return false;
  };
  return go(0, -1);
}

// what one thread did and saw
struct seen_call
{
  int thread;
  ossia::value v;
};
}

// Concurrent set, quiet set, push and read of one parameter.
SIM_SCENARIO("P05", shared_parameter, 4)
{
  auto pp = std::make_unique<rec_protocol>();
  auto& proto = *pp;
  proto.filter = sim::choose(2);
  generic_device dev{std::move(pp), "dev"};
  auto& node = create_node(dev, "/a/b");
  val_type type = sim::pick(types);
  auto& p = *node.create_parameter(type);
  const ossia::value init = p.value();
  if(proto.filter && sim::choose(2))
    p.set_repetition_filter(repetition_filter::ON);

  int ncb = sim::choose(3);
  std::vector<std::vector<seen_call>> calls(ncb);
  for(int c = 0; c < ncb; c++)
    p.add_callback([&, c](const ossia::value& v) {
      ossia::value copy = v;
      sim::oracle o;
      calls[c].push_back({sim::thread_id(), std::move(copy)});
    });
  size_t observed0 = proto.ev.size();

  struct th_t
  {
    int id = -1;
    std::vector<ossia::value> notified;                      // expected calls of each callback
    std::vector<ossia::value> pushed;                        // expected pushes; invalid: any current value
    std::vector<std::pair<uint64_t, uint64_t>> push_bounds;  // of the latter
    std::vector<reg_op> ops;
    std::vector<ossia::value> op_val;
  };
  int nth = 2 + sim::choose(3);
  std::vector<th_t> th(nth);
  std::map<int, ossia::value> written; // tag -> value as the parameter holds it
  static const unsigned means[][2] = {{0, 0}, {2, 0}, {4, 0}, {8, 60}, {0, 30}, {0, 100}, {4, 20}, {16, 300}};
  auto& mm = means[sim::choose(8)];
  sim::cooperate(mm[0], mm[1]);
  auto work = [&](int i, int count) {
    auto& t = th[i];
    t.id = sim::thread_id();
    for(int k = 0; k < count; k++)
    {
      int kind = sim::choose(8);
      int tag = 1 + i * 40 + k;
      val_type from = type;
      // a value of another type is converted to the type of the parameter
      if(sim::choose(5) == 1)
        from = type == val_type::INT ? val_type::FLOAT : type == val_type::FLOAT ? val_type::INT : type == val_type::STRING ? val_type::INT : type;
      ossia::value v = tagged(from, tag);
      ossia::value held = from == type ? v : ossia::convert(v, type);
      ossia::value ret;
      uint64_t inv = sim::seq();
      bool write = true;
      switch(kind)
      {
        case 0: ret = p.set_value(v); break;
        case 1: ret = p.set_value(ossia::value{v}); break;
        case 2: ret = p.set_value_quiet(v); break;
        case 3: ret = p.set_value_quiet(ossia::value{v}); break;
        case 4:
          p.push_value(v);
          ret = held;
          break;
        case 5:
          p.push_value(ossia::value{v});
          ret = held;
          break;
        case 6:
          ret = p.value();
          write = false;
          break;
        case 7:
          p.push_value();
          write = false;
          break;
      }
      uint64_t res = sim::seq();
      sim::oracle o;
      if(write)
      {
        written[tag] = held;
        SIM_CHECK(same(ret, held), "set-result", "setting %s returned %s", str(held).c_str(), str(ret).c_str());
        t.ops.push_back({true, tag, inv, res});
        if(kind != 2 && kind != 3)
          t.notified.push_back(held);
        if(kind == 4 || kind == 5)
          t.pushed.push_back(held);
      }
      else if(kind == 6)
      {
        t.ops.push_back({false, 0, inv, res});
        t.op_val.push_back(ret);
      }
      else
      {
        t.pushed.push_back({});
        t.push_bounds.push_back({inv, res});
      }
    }
  };
  // one more thread may register and remove another callback all along
  std::vector<std::thread> ts;
  bool churn = sim::choose(2);
  for(int i = 0; i < nth; i++)
  {
    int count = 1 + sim::choose(6);
    ts.emplace_back([&, i, count] { work(i, count); });
  }
  std::thread churner;
  if(churn)
    churner = std::thread{[&] {
      for(int k = 1 + sim::choose(4); k > 0; --k)
      {
        auto it = p.add_callback([](const ossia::value& v) { ossia::value copy = v; });
        p.remove_callback(it);
      }
    }};
  for(auto& t : ts)
    t.join();
  if(churner.joinable())
    churner.join();
  ossia::value last = p.value();
  sim::oracle o;
  // callbacks: each one called by each setter, once per set, in its order, with its value
  for(int c = 0; c < ncb; c++)
    for(auto& t : th)
    {
      size_t k = 0;
      for(auto& s : calls[c])
        if(s.thread == t.id)
        {
          SIM_CHECK(k < t.notified.size() && same(s.v, t.notified[k]), "callback-value",
                    "callback %d got %s from a thread which set %s", c, str(s.v).c_str(),
                    k < t.notified.size() ? str(t.notified[k]).c_str() : "nothing more");
          k++;
        }
      SIM_CHECK(k == t.notified.size(), "callback-lost", "callback %d was called %zu times for %zu sets of a thread", c, k,
                t.notified.size());
    }
  // pushes: what each thread pushed reaches the protocol once, in its order
  auto tag_of = [&](const ossia::value& v) {
    for(auto& [tag, w] : written)
      if(same(v, w))
        return tag;
    SIM_CHECK(same(v, init), "torn-value", "%s was never set", str(v).c_str());
    return -1;
  };
  for(auto& t : th)
  {
    size_t k = 0, anyk = 0;
    for(auto& e : proto.ev)
      if(e.what == event::push && e.thread == t.id)
      {
        SIM_CHECK(k < t.pushed.size(), "push-doubled", "%s pushed, nobody asked for it", str(e.v).c_str());
        if(t.pushed[k].valid())
          SIM_CHECK(same(t.pushed[k], e.v), "push-value", "%s reached the protocol, %s was pushed", str(e.v).c_str(),
                    str(t.pushed[k]).c_str());
        else
        {
          t.ops.push_back({false, tag_of(e.v), t.push_bounds[anyk].first, t.push_bounds[anyk].second});
          anyk++;
        }
        k++;
      }
    SIM_CHECK(k == t.pushed.size(), "push-lost", "%zu of %zu pushes reached the protocol", k, t.pushed.size());
  }
  // values: a register
  std::vector<reg_op> all;
  for(auto& t : th)
  {
    size_t r = 0;
    for(auto op : t.ops)
    {
      if(!op.write && op.val == 0)
        op.val = tag_of(t.op_val[r++]);
      all.push_back(op);
    }
  }
  all.push_back({false, tag_of(last), sim::seq(), sim::seq()});
  SIM_CHECK(linearizable(all), "value-order", "no order of the %zu operations explains the values read, the last one is %s", all.size(),
            str(last).c_str());
  // observation: on when the first callback came, off when the last one went, alternating
  bool on = false;
  for(auto& e : proto.ev)
    if(e.what == event::observe)
    {
      SIM_CHECK(e.on != on, "observe", "the protocol was told to %s the parameter twice", e.on ? "observe" : "ignore");
      on = e.on;
    }
  SIM_CHECK(on == (ncb > 0), "observe", "%d callbacks, the protocol %s", ncb, on ? "observes" : "does not observe");
  (void)observed0;
}

// A history of operations on one parameter of a device against a model of it.
SIM_SCENARIO("P05", parameter_history, 2)
{
  auto pp = std::make_unique<rec_protocol>();
  auto& proto = *pp;
  proto.filter = true;
  generic_device dev{std::move(pp), "dev"};
  auto& node = create_node(dev, "/p");
  val_type type = sim::pick(types);
  auto& p = *node.create_parameter(type);

  struct
  {
    ossia::value cur, prev;
    bool rep = false, muted = false, disabled = false, critical = false;
    access_mode access = access_mode::BI;
    bounding_mode bounding = bounding_mode::FREE;
    bool echo = false;
    std::vector<parameter_base::callback_index> cbs;
  } m;
  m.cur = p.value();
  m.prev = ossia::value{};
  SIM_CHECK(same(m.cur, init_value(type)), "initial-value", "a new parameter holds %s", str(m.cur).c_str());
  std::vector<std::string> attrs, want_attrs;
  struct sink : Nano::Observer
  {
    std::vector<std::string>* a;
    std::vector<const parameter_base*> msgs;
    void attr(node_base&, const std::string& s) { a->push_back(s); }
    void msg(const parameter_base& q) { msgs.push_back(&q); }
  } snk;
  snk.a = &attrs;
  dev.on_attribute_modified.connect<&sink::attr>(snk);
  dev.on_message.connect<&sink::msg>(snk);
  std::vector<ossia::value> notified;
  size_t want_notified = 0, want_push = 0, want_msg = 0, want_echo = 0;
  rec_protocol other;
  auto expect_set = [&](const ossia::value& v) {
    ossia::value held = v.v.which() == m.cur.v.which() ? v : ossia::convert(v, m.cur);
    m.prev = m.cur;
    m.cur = held;
    return held;
  };
  auto expect_push = [&](const ossia::value& v) {
    size_t n = 0;
    event* e = nullptr;
    for(auto& x : proto.ev)
      if(x.what == event::push)
        n++, e = &x;
    want_push++;
    SIM_CHECK(n == want_push, "push-lost", "%zu pushes for %zu asked", n, want_push);
    SIM_CHECK(same(e->v, v), "push-value", "%s pushed, %s expected", str(e->v).c_str(), str(v).c_str());
    bool f = m.disabled || m.muted || (m.rep && v == m.prev);
    SIM_CHECK(e->on == f, "filter", "%s is %sfiltered: disabled %d muted %d repetition filter %d previous %s", str(v).c_str(),
              e->on ? "" : "not ", m.disabled, m.muted, m.rep, str(m.prev).c_str());
  };
  int steps = 3 + sim::choose(25);
  int tag = 1;
  for(int s = 0; s < steps; s++)
  {
    // repeated values matter for the filter
    if(sim::choose(2))
      tag = 1 + sim::choose(200);
    val_type from = sim::choose(4) == 1 ? sim::pick(types) : type;
    ossia::value v = tagged(from, tag);
    int k = sim::choose(16);
    sim::log("op %d %s", k, str(v).c_str());
    switch(k)
    {
      case 0:
      case 1: {
        auto h = expect_set(v);
        auto r = k ? p.set_value(ossia::value{v}) : p.set_value(v);
        SIM_CHECK(same(r, h), "set-result", "set_value(%s) returned %s, %s expected", str(v).c_str(), str(r).c_str(), str(h).c_str());
        want_notified += m.cbs.size();
        break;
      }
      case 2:
      case 3: {
        auto h = expect_set(v);
        auto r = k == 3 ? p.set_value_quiet(ossia::value{v}) : p.set_value_quiet(v);
        SIM_CHECK(same(r, h), "set-result", "set_value_quiet(%s) returned %s", str(v).c_str(), str(r).c_str());
        break;
      }
      case 4:
      case 5: {
        auto h = expect_set(v);
        if(k == 4)
          p.push_value(v);
        else
          p.push_value(ossia::value{v});
        want_notified += m.cbs.size();
        expect_push(h);
        break;
      }
      case 6:
        p.push_value();
        expect_push(m.cur);
        break;
      case 7: {
        auto h = expect_set(v);
        p.push_value_quiet(v);
        expect_push(h);
        break;
      }
      case 8:
        m.cbs.push_back(p.add_callback([&](const ossia::value& x) { notified.push_back(x); }));
        break;
      case 9:
        if(!m.cbs.empty())
        {
          size_t x = sim::choose(m.cbs.size());
          p.remove_callback(m.cbs[x]);
          m.cbs.erase(m.cbs.begin() + x);
        }
        break;
      case 10: {
        auto b = sim::choose(2);
        if(b != m.rep)
          want_attrs.push_back(std::string(text_repetition_filter()));
        m.rep = b;
        p.set_repetition_filter(b ? repetition_filter::ON : repetition_filter::OFF);
        break;
      }
      case 11: {
        bool b = sim::choose(2);
        if(sim::choose(2))
        {
          if(b != m.muted)
            want_attrs.push_back(std::string(text_muted()));
          p.set_muted(m.muted = b);
        }
        else
        {
          if(b != m.disabled)
            want_attrs.push_back(std::string(text_disabled()));
          p.set_disabled(m.disabled = b);
        }
        break;
      }
      case 12: {
        auto a = sim::pick({access_mode::BI, access_mode::GET, access_mode::SET});
        if(a != m.access)
          want_attrs.push_back(std::string(text_access_mode()));
        p.set_access(m.access = a);
        auto b = sim::pick({bounding_mode::FREE, bounding_mode::CLIP, bounding_mode::WRAP});
        if(b != m.bounding)
          want_attrs.push_back(std::string(text_bounding_mode()));
        p.set_bounding(m.bounding = b);
        break;
      }
      case 13: {
        // an incoming message
        if(sim::choose(2))
          dev.set_echo(m.echo = !m.echo);
        auto h = expect_set(v);
        bool quiet = sim::choose(2);
        if(quiet)
          dev.apply_incoming_message_quiet({other, (uintptr_t)s}, p, ossia::value{v});
        else
          dev.apply_incoming_message({other, (uintptr_t)s}, p, ossia::value{v});
        if(!quiet)
          want_notified += m.cbs.size();
        want_msg++;
        if(m.echo)
        {
          want_echo++;
          auto& e = proto.ev.back();
          SIM_CHECK(e.what == event::echo && same(e.v, h) && e.from == &other && e.id == (uintptr_t)s, "echo",
                    "the message %s was not echoed with its origin", str(h).c_str());
        }
        break;
      }
      case 14: {
        type = sim::pick(types);
        p.set_value_type(type);
        m.cur = init_value(type);
        want_attrs.push_back(std::string(text_value_type()));
        break;
      }
      case 15: {
        auto r = tagged(type, tag);
        proto.remote = [&] { return r; };
        auto h = expect_set(r);
        auto got = p.fetch_value();
        want_notified += m.cbs.size();
        SIM_CHECK(same(got, h), "fetch", "fetched %s, the remote value is %s", str(got).c_str(), str(h).c_str());
        break;
      }
    }
    SIM_CHECK(same(p.value(), m.cur), "value", "after operation %d the value is %s, %s expected", k, str(p.value()).c_str(),
              str(m.cur).c_str());
    SIM_CHECK(p.get_value_type() == type, "type", "the type is %d, %d expected", (int)p.get_value_type(), (int)type);
    SIM_CHECK(notified.size() == want_notified, "callback-lost", "%zu notifications, %zu expected", notified.size(), want_notified);
    if(want_notified && k <= 5 && !m.cbs.empty() && k != 2 && k != 3)
      SIM_CHECK(same(notified.back(), m.cur), "callback-value", "the callback got %s, %s was set", str(notified.back()).c_str(),
                str(m.cur).c_str());
    SIM_CHECK(attrs == want_attrs, "attribute", "%zu attribute changes signalled, %zu expected, last %s", attrs.size(), want_attrs.size(),
              attrs.empty() ? "" : attrs.back().c_str());
    SIM_CHECK(snk.msgs.size() == want_msg, "on-message", "%zu messages signalled, %zu expected", snk.msgs.size(), want_msg);
    SIM_CHECK(p.get_muted() == m.muted && p.get_disabled() == m.disabled && p.get_access() == m.access && p.get_bounding() == m.bounding,
              "attribute", "an attribute does not hold what was set");
    size_t pushes = 0, echoes = 0;
    bool on = false;
    for(auto& e : proto.ev)
    {
      pushes += e.what == event::push;
      echoes += e.what == event::echo;
      if(e.what == event::observe)
      {
        SIM_CHECK(on != e.on, "observe", "told twice to %s", e.on ? "observe" : "ignore");
        on = e.on;
      }
    }
    SIM_CHECK(pushes == want_push, "push-doubled", "%zu pushes, %zu expected", pushes, want_push);
    SIM_CHECK(echoes == want_echo, "echo", "%zu echoes, %zu expected", echoes, want_echo);
    SIM_CHECK(on == !m.cbs.empty(), "observe", "%zu callbacks, observed: %d", m.cbs.size(), on);
  }
}

// A device exposed through several protocols.
SIM_SCENARIO("P05", multiplexed, 2)
{
  auto mp = std::make_unique<multiplex_protocol>();
  auto& mux = *mp;
  std::vector<rec_protocol*> live;
  auto expose = [&] {
    auto r = std::make_unique<rec_protocol>();
    live.push_back(r.get());
    mux.expose_to(std::move(r));
  };
  for(int i = sim::choose(3); i > 0; --i)
    expose();
  generic_device dev{std::move(mp), "dev"};
  std::vector<parameter_base*> ps;
  std::vector<std::vector<parameter_base::callback_index>> cbs;
  auto add_param = [&] {
    static const char* paths[] = {"/a", "/x/y", "/a/b", "/a/b/c", "/x"};
    std::string path = paths[sim::choose(5)];
    auto& n = create_node(dev, path);
    ps.push_back(n.create_parameter(val_type::INT));
    cbs.emplace_back();
  };
  for(int i = sim::choose(3); i >= 0; i--)
    add_param();
  struct want_t
  {
    std::vector<std::pair<const parameter_base*, int>> pushes, echoes;
    std::map<const parameter_base*, bool> observed;
  };
  std::map<rec_protocol*, want_t> want;
  for(auto* l : live)
    want[l];
  rec_protocol outside;
  int steps = 3 + sim::choose(20);
  for(int s = 1; s <= steps; s++)
  {
    size_t pi = sim::choose(ps.size());
    auto* p = ps[pi];
    switch(sim::choose(8))
    {
      case 0:
      case 1: {
        p->push_value(s);
        for(auto& [l, w] : want)
          w.pushes.push_back({p, s});
        break;
      }
      case 2:
        cbs[pi].push_back(p->add_callback([](const ossia::value&) {}));
        for(auto& [l, w] : want)
          w.observed[p] = true;
        break;
      case 3:
        if(!cbs[pi].empty())
        {
          p->remove_callback(cbs[pi].back());
          cbs[pi].pop_back();
          for(auto& [l, w] : want)
            w.observed[p] = !cbs[pi].empty();
        }
        break;
      case 4:
        if(live.size() < 4)
        {
          expose();
          auto& w = want[live.back()];
          for(size_t k = 0; k < ps.size(); k++)
            if(!cbs[k].empty())
              w.observed[ps[k]] = true;
          sim::probe("exposed later");
        }
        break;
      case 5:
        if(!live.empty())
        {
          size_t x = sim::choose(live.size());
          want.erase(live[x]);
          mux.stop_expose_to(*live[x]);
          live.erase(live.begin() + x);
        }
        break;
      case 6:
        add_param();
        break;
      case 7: {
        dev.set_echo(sim::choose(2));
        protocol_base* from = live.empty() ? (protocol_base*)&outside : sim::pick_from(live);
        dev.apply_incoming_message({*from, 5}, *p, s);
        SIM_CHECK(p->value() == ossia::value{s}, "value", "an incoming message was not applied");
        if(dev.has_echo())
          for(auto& [l, w] : want)
            w.echoes.push_back({p, s});
        break;
      }
    }
    SIM_CHECK(mux.get_protocols().size() == live.size(), "protocols", "%zu protocols, %zu expected", mux.get_protocols().size(),
              live.size());
    for(auto& [l, w] : want)
    {
      std::vector<std::pair<const parameter_base*, int>> pushes, echoes;
      std::map<const parameter_base*, bool> obs;
      for(auto& e : l->ev)
        if(e.what == event::push)
          pushes.push_back({e.p, e.v.get<int>()});
        else if(e.what == event::echo)
          echoes.push_back({e.p, e.v.get<int>()});
        else
          obs[e.p] = e.on;
      SIM_CHECK(pushes == w.pushes, "multiplex-push", "a protocol got %zu pushes, %zu expected", pushes.size(), w.pushes.size());
      SIM_CHECK(echoes == w.echoes, "multiplex-echo", "a protocol got %zu echoes, %zu expected", echoes.size(), w.echoes.size());
      for(auto& [q, on] : w.observed)
        SIM_CHECK(obs[q] == on, "multiplex-observe", "a parameter with%s callbacks is %sobserved by one of its protocols", on ? "" : "out",
                  obs[q] ? "" : "not ");
    }
  }
}
