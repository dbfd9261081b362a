// P20: a preset comes back whole from a faulty disk, or not at all
#include "common.hpp"
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/parameter.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <ossia/preset/preset.hpp>
#include <fcntl.h>
#include <map>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>

using namespace ossia;
namespace
{
bool same(const value& a, const value& b)
{
  if(a.get_type() != b.get_type())
    return false;
  if(auto l = a.target<std::vector<value>>())
  {
    auto& m = *b.target<std::vector<value>>();
    if(l->size() != m.size())
      return false;
    for(size_t i = 0; i < m.size(); i++)
      if(!same((*l)[i], m[i]))
        return false;
    return true;
  }
  return a == b;
}
std::string show(const value& v) { return value_to_pretty_string(v); }
std::string text()
{
  static const char* some[] = {"",  "plain", "with space", "quote\"", "back\\slash", "tab\t", "line\nline", "/a/b", "{\"x\": 1}",
                               "[1, 2]", "caf\xc3\xa9", "\xf0\x9f\x8e\xb5", "\x01\x1f", "null", "0"};
  if(sim::chance(1, 10))
    return std::string(1 + sim::choose(30000), 'q');
  return some[sim::choose(std::size(some))];
}
float real()
{
  static const float some[] = {0.f, -0.5f, 1.f, 0.1f, 1e-30f, 3.4e38f, -1234.567f, 16777217.f, 0.33333334f, 100.f};
  return some[sim::choose(std::size(some))];
}
int whole() { return sim::pick({0, 1, -1, 42, 2147483647, -2147483647 - 1, 65536}); }
value random_value(val_type t)
{
  switch(t)
  {
    case val_type::INT:
      return whole();
    case val_type::FLOAT:
      return real();
    case val_type::BOOL:
      return bool(sim::choose(2));
    case val_type::CHAR:
      return char(sim::pick({'a', '"', '0', ' ', '~', '\\'}));
    case val_type::STRING:
      return text();
    case val_type::VEC2F:
      return make_vec(real(), real());
    case val_type::VEC3F:
      return make_vec(real(), real(), real());
    case val_type::VEC4F:
      return make_vec(real(), real(), real(), real());
    case val_type::LIST: {
      std::vector<value> l;
      for(int i = sim::choose(6); i > 0; i--)
        switch(sim::choose(4))
        {
          case 0:
            l.push_back(whole());
            break;
          case 1:
            l.push_back(real());
            break;
          case 2:
            l.push_back(text());
            break;
          case 3:
            l.push_back(bool(sim::choose(2)));
            break;
        }
      return l;
    }
    default:
      return impulse{};
  }
}
constexpr val_type types[] = {val_type::INT,   val_type::FLOAT, val_type::BOOL,  val_type::CHAR, val_type::STRING,
                              val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::LIST, val_type::IMPULSE};

struct item
{
  std::string path, parent;
  int type = -1; // no parameter
  access_mode access = access_mode::BI;
  bool safe[2]{}, here[2]{true, true}, has_param[2]{true, true};
  std::optional<float> priority;
  net::parameter_base* p[2]{};
  struct version
  {
    value v;
    uint64_t from, to;
  };
  std::vector<version> held; // by the first device
  int called = 0;
  uint64_t when = 0;
};
std::string dir, file;

// all values a parameter can have had in a period
std::vector<value> during(const item& i, uint64_t from, uint64_t to)
{
  std::vector<value> r;
  for(size_t k = 0; k < i.held.size(); k++)
    if(i.held[k].from <= to && (k + 1 == i.held.size() || i.held[k + 1].to >= from))
      r.push_back(i.held[k].v);
  return r;
}
}

SIM_SCENARIO("P20", preset)
{
  {
    sim::oracle o;
    dir = "/tmp/.ossia-sim-" + std::to_string(getuid());
    mkdir(dir.c_str(), 0700);
    file = dir + "/" + std::to_string(getpid()) + ".json";
  }
  struct cleanup
  {
    ~cleanup()
    {
      sim::fs() = {};
      sim::fs().root = dir;
      ::unlink(file.c_str());
    }
  } clean;
  sim::fs().root = dir;
  ::unlink(file.c_str());
  sim::cooperate(sim::pick({3u, 8u, 30u}), sim::pick({20u, 100u, 400u}));
  net::generic_device a{std::make_unique<net::multiplex_protocol>(), "dev"}, b{std::make_unique<net::multiplex_protocol>(), "dev"};
  net::generic_device* dev[2] = {&a, &b};
  // the older format: parameters are leaves, no instances
  bool old = sim::chance(1, 3);
  bool keep = sim::choose(2);
  std::vector<item> items;
  {
    int n = 1 + sim::choose(12);
    std::map<std::string, bool> leaf;
    for(int i = 0; i < n; i++)
    {
      item x;
      std::vector<item*> groups;
      for(auto& g : items)
        if(!old || g.type < 0)
          groups.push_back(&g);
      if(!groups.empty() && sim::choose(2))
        x.parent = sim::pick_from(groups)->path;
      std::string name = sim::pick<const char*>({"a", "b", "volume", "some node", "x-y", "Z_1", "type", "a_very_long_name_of_a_node"});
      if(!old && sim::chance(1, 4))
        name += sim::pick<const char*>({".1", ".2", ".10"});
      x.path = x.parent + "/" + name;
      bool dup = false;
      for(auto& g : items)
        dup |= g.path == x.path;
      if(dup)
        continue;
      if(sim::chance(4, 5))
        x.type = sim::choose(std::size(types));
      if(sim::chance(1, 6))
        x.access = sim::pick({access_mode::GET, access_mode::SET});
      if(!old)
        x.safe[1] = sim::chance(1, 8);
      if(sim::chance(1, 3))
        x.priority = float(sim::choose(4));
      x.here[1] = !sim::chance(1, 8);
      x.has_param[1] = !sim::chance(1, 8);
      items.push_back(x);
    }
  }
  std::vector<std::pair<item*, uint64_t>> calls;
  auto find = [&](const std::string& path) -> item* {
    for(auto& i : items)
      if(i.path == path)
        return &i;
    return nullptr;
  };
  for(auto& i : items)
    if(auto up = find(i.parent); up && !up->here[1])
      i.here[1] = false;
  auto push = [&](item& i, value v) {
    item::version x{v, sim::seq(), UINT64_MAX};
    size_t at;
    {
      sim::oracle o;
      at = i.held.size();
      i.held.push_back(x);
    }
    i.p[0]->push_value(v);
    sim::oracle o;
    i.held[at].to = sim::seq();
  };
  for(int d = 0; d < 2; d++)
    for(auto& i : items)
      if(i.here[d])
      {
        auto& n = net::create_node(*dev[d], i.path);
        SIM_CHECK(net::find_node(*dev[d], i.path) == &n, "preset-tree", "%s is not found", i.path.c_str());
        if(i.type >= 0 && i.has_param[d])
        {
          i.p[d] = n.create_parameter(types[i.type]);
          i.p[d]->set_access(i.access);
          if(d == 1)
            i.p[d]->add_callback([&, x = &i](const value&) {
              sim::oracle o;
              x->called++;
              x->when = sim::seq();
            });
        }
        net::set_recall_safe(n, i.safe[d]);
        if(i.priority)
          net::set_priority(n, *i.priority);
      }
  for(auto& i : items)
    if(i.p[0])
      push(i, random_value(types[i.type]));
  sim::log("%zu items, %s format, architecture %s", items.size(), old ? "old" : "new", keep ? "kept" : "extended");

  // faults of the disk
  auto& fs = sim::fs();
  fs.root = dir;
  if(sim::fault_enabled("disk"))
  {
    auto some = [](unsigned p) { return sim::fchoose(3) == 1 ? p : 0; };
    fs.short_write = some(300);
    fs.enospc = some(150);
    fs.eio_read = some(150);
    fs.short_read = some(300);
    fs.open_fail = some(200);
    fs.eio_close = some(200);
    if(sim::fchoose(4) == 1)
      fs.capacity = sim::fchoose(40000);
  }

  struct saved
  {
    std::string text;
    uint64_t from, to;
  };
  std::optional<saved> last;  // what the file holds for sure
  std::vector<saved> maybe;  // what the attempts which failed since then wanted to write
  int rounds = 2 + sim::choose(5);
  for(int r = 0; r < rounds; r++)
  {
    // other threads go on setting values meanwhile
    std::vector<std::thread> ts;
    int nt = sim::choose(3);
    for(int t = 0; t < nt; t++)
    {
      std::vector<std::pair<item*, value>> plan;
      for(size_t i = t; i < items.size(); i += nt)
        if(items[i].p[0])
          for(int k = sim::choose(4); k > 0; k--)
            plan.push_back({&items[i], random_value(types[items[i].type])});
      ts.emplace_back([&, plan] {
        for(auto& [i, v] : plan)
          push(*i, v);
      });
    }
    if(nt == 0)
      for(auto& i : items)
        if(i.p[0] && sim::choose(2))
          push(i, random_value(types[i.type]));
    saved s;
    s.from = sim::seq();
    s.text = old ? presets::write_json("dev", presets::make_preset(a.get_root_node())) : presets::make_json_preset(a.get_root_node());
    s.to = sim::seq();
    bool ok = true;
    try
    {
      presets::write_file(s.text, file);
    }
    catch(const std::exception& e)
    {
      ok = false;
      sim::log("saving failed: %s", e.what());
      sim::probe("save-failed");
    }
    for(auto& t : ts)
      t.join();
    if(ok)
    {
      last = s;
      maybe.clear();
      sim::oracle o;
      struct stat st{};
      ::stat(file.c_str(), &st);
      SIM_CHECK((size_t)st.st_size == s.text.size(), "preset-short", "%zu bytes were saved, the file has %zu", s.text.size(), (size_t)st.st_size);
    }
    else
      maybe.push_back(s);
    // the machine stops while the file is written: some of it is there
    if(!s.text.empty() && sim::fault("torn_file", 100))
    {
      sim::oracle o;
      size_t n = sim::fchoose(s.text.size() + 1);
      int fd = ::open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if(fd >= 0)
      {
        size_t done = 0;
        auto keep_fs = sim::fs();
        sim::fs() = {};
        while(done < n)
        {
          auto w = ::write(fd, s.text.data() + done, n - done);
          if(w <= 0)
            break;
          done += w;
        }
        ::close(fd);
        sim::fs() = keep_fs;
        last.reset();
        maybe = {s};
      }
    }
    if(sim::chance(1, 4))
      continue;

    // load
    std::string got;
    try
    {
      got = presets::read_file(file);
    }
    catch(const std::exception& e)
    {
      sim::log("loading failed: %s", e.what());
      sim::probe("load-failed");
      continue;
    }
    if(last && maybe.empty())
      SIM_CHECK(got == last->text, "preset-read", "%zu bytes were saved, %zu other ones are read without an error", last->text.size(),
                got.size());
    const saved* what = last && got == last->text ? &*last : nullptr;
    for(auto& m : maybe)
      if(got == m.text)
        what = &m;
    if(!what)
      sim::probe("incomplete");
    std::vector<value> before;
    for(auto& i : items)
    {
      i.called = 0;
      i.when = 0;
      before.push_back(i.p[1] ? i.p[1]->value() : value{});
    }
    bool applied = false, thrown = false;
    if(!old)
      applied = presets::apply_json(got, b.get_root_node());
    else
    {
      try
      {
        auto p = presets::read_json(got);
        applied = true;
        presets::apply_preset(
            b.get_root_node(), p, keep ? presets::keep_arch_on : presets::keep_arch_off, {}, true);
      }
      catch(const std::exception& e)
      {
        sim::log("not applied: %s", e.what());
        thrown = true;
      }
    }
    if(!what)
    {
      SIM_CHECK(!applied || got.empty(), "preset-half", "an incomplete preset is taken for a complete one");
      for(size_t k = 0; k < items.size(); k++)
        SIM_CHECK(!items[k].called && (!items[k].p[1] || same(items[k].p[1]->value(), before[k])), "preset-half",
                  "%s is changed by an incomplete preset", items[k].path.c_str());
      continue;
    }
    sim::probe("loaded");
    bool missing = false;
    for(auto& i : items)
      missing |= i.p[0] && types[i.type] != val_type::IMPULSE && i.access == access_mode::BI && !i.here[1];
    SIM_CHECK(applied, "preset-refused", "a complete preset is refused");
    SIM_CHECK(!thrown || (keep && missing), "preset-refused", "a complete preset is not applied");
    if(thrown)
      continue;
    for(size_t k = 0; k < items.size(); k++)
    {
      auto& i = items[k];
      bool in = i.p[0] && types[i.type] != val_type::IMPULSE && i.access == access_mode::BI;
      for(auto g = &i; g; g = find(g->parent))
        in = in && !g->safe[1];
      if(in && old && !keep && !i.p[1])
      {
        auto n = net::find_node(b, i.path);
        SIM_CHECK(n, "preset-architecture", "%s was not created", i.path.c_str());
        continue;
      }
      if(!i.p[1])
        continue;
      auto v = i.p[1]->value();
      if(!in)
      {
        SIM_CHECK(!i.called && same(v, before[k]), "preset-extra", "%s is not part of the preset, but changed from %s to %s",
                  i.path.c_str(), show(before[k]).c_str(), show(v).c_str());
        continue;
      }
      SIM_CHECK(i.called == 1, "preset-calls", "%s was set %d times", i.path.c_str(), i.called);
      bool ok = false;
      auto may = during(i, what->from, what->to);
      for(auto& m : may)
        ok |= same(m, v);
      SIM_CHECK(ok, "preset-value", "%s is %s after loading, one of %zu was saved: %s", i.path.c_str(), show(v).c_str(), may.size(),
                show(may.back()).c_str());
    }
    if(!old)
      // those of higher priority first, with all that is below them
      for(auto& x : items)
        for(auto& y : items)
          if(&x != &y && x.parent == y.parent && x.priority && y.priority && *x.priority > *y.priority)
            for(auto& u : items)
              for(auto& v : items)
                if(u.when && v.when && (u.path + "/").starts_with(x.path + "/") && (v.path + "/").starts_with(y.path + "/"))
                  SIM_CHECK(u.when < v.when, "preset-order", "%s was restored after %s", u.path.c_str(), v.path.c_str());
  }
}
