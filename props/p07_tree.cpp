// P07: the tree of nodes of a device.
#include "common.hpp"
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <map>
#include <set>

using namespace ossia::net;
namespace
{
struct null_protocol : protocol_base
{
  std::map<const parameter_base*, bool> observed;
  bool pull(parameter_base&) override { return false; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base& p, bool b) override
  {
    sim::oracle o;
    observed[&p] = b;
    return true;
  }
  bool update(node_base&) override { return true; }
};
// everything a device signals
struct signals : Nano::Observer
{
  std::map<const node_base*, int> created, removing, deleted;
  std::map<const parameter_base*, int> pcreated, premoving;
  std::vector<std::pair<std::string, std::string>> renamed; // old, new
  bool track_deletion = true;
  int n_created = 0, n_removing = 0, n_deleted = 0, n_pcreated = 0, n_premoving = 0;
  void on_created(node_base& n)
  {
    if(track_deletion) // an observer belongs to one thread
      n.about_to_be_deleted.connect<&signals::on_deleted>(*this);
    sim::oracle o;
    created[&n]++;
    n_created++;
  }
  void on_removing(node_base& n)
  {
    sim::oracle o;
    SIM_CHECK(!track_deletion || created.count(&n), "signal", "the removal of a node which was never created is signalled");
    removing[&n]++;
    n_removing++;
  }
  void on_deleted(const node_base& n)
  {
    sim::oracle o;
    created.erase(&n);
    deleted[&n]++;
    n_deleted++;
  }
  void on_pcreated(const parameter_base& p)
  {
    sim::oracle o;
    pcreated[&p]++;
    n_pcreated++;
  }
  void on_premoving(const parameter_base& p)
  {
    sim::oracle o;
    SIM_CHECK(pcreated.erase(&p), "signal", "the removal of a parameter which was never created is signalled");
    n_premoving++;
  }
  void on_renamed(node_base& n, std::string old)
  {
    std::string now = n.get_name();
    sim::oracle o;
    renamed.emplace_back(old, now);
  }
  void attach(device_base& d)
  {
    d.on_node_created.connect<&signals::on_created>(*this);
    d.on_node_removing.connect<&signals::on_removing>(*this);
    d.on_parameter_created.connect<&signals::on_pcreated>(*this);
    d.on_parameter_removing.connect<&signals::on_premoving>(*this);
    d.on_node_renamed.connect<&signals::on_renamed>(*this);
  }
};

struct model
{
  std::string name;
  node_base* n = nullptr;
  model* parent = nullptr;
  bool param = false;
  std::vector<std::unique_ptr<model>> kids;
  std::string path() const { return parent ? parent->path() + "/" + name : ""; }
  int size() const
  {
    int r = 1;
    for(auto& k : kids)
      r += k->size();
    return r;
  }
  int params() const
  {
    int r = param;
    for(auto& k : kids)
      r += k->params();
    return r;
  }
  model* kid(const std::string& s)
  {
    for(auto& k : kids)
      if(k->name == s)
        return k.get();
    return nullptr;
  }
};
bool few_names; // many nodes get the same name
std::string random_name()
{
  if(few_names)
    return sim::pick<const char*>({"a", "a.1", "a.2", "a.2147483647", "a.2147483646", "a.-2147483648"});
  // the last ones are at the end of the range of the instance numbers
  return sim::pick<const char*>({"a", "b", "a.1", "c", "a.b", "x y", "a.2", "b.1", "long_name_number_one", "a*", "a.2147483647", "b.2147483646",
                                 "a.9223372036854775807"});
}
void all(model& m, std::vector<model*>& v)
{
  v.push_back(&m);
  for(auto& k : m.kids)
    all(*k, v);
}
// the device's tree is the model's
void compare(model& m)
{
  auto names = m.n->children_names();
  auto ptrs = m.n->children_copy();
  SIM_CHECK(names.size() == m.kids.size() && ptrs.size() == m.kids.size(), "children", "%s has %zu children, %zu expected",
            m.path().c_str(), names.size(), m.kids.size());
  for(size_t i = 0; i < m.kids.size(); i++)
  {
    auto& k = *m.kids[i];
    SIM_CHECK(names[i] == k.name && ptrs[i] == k.n, "children", "child %zu of %s is %s, %s expected", i, m.path().c_str(), names[i].c_str(),
              k.name.c_str());
    for(size_t j = 0; j < i; j++)
      SIM_CHECK(names[j] != names[i], "duplicate-name", "%s has two children named %s", m.path().c_str(), names[i].c_str());
    SIM_CHECK(k.n->get_parent() == m.n, "children", "wrong parent");
    SIM_CHECK(m.n->find_child(k.name) == k.n, "find", "%s not found", k.path().c_str());
    SIM_CHECK(m.n->has_child(*k.n), "find", "%s not found", k.path().c_str());
    SIM_CHECK(k.n->osc_address() == k.path(), "address", "the address of %s is %s", k.path().c_str(), k.n->osc_address().c_str());
    SIM_CHECK(!!k.n->get_parameter() == k.param, "parameter", "%s has %s parameter", k.path().c_str(), k.param ? "no" : "a");
    compare(k);
  }
}
}

// A history of edits against a model.
SIM_SCENARIO("P07", tree_history, 2)
{
  signals sig;
  few_names = sim::chance(1, 8);
  auto pp = std::make_unique<null_protocol>();
  auto* proto = pp.get();
  auto dev = std::make_unique<generic_device>(std::move(pp), "dev");
  sig.attach(*dev);
  model root;
  root.name = "dev";
  root.n = &dev->get_root_node();
  size_t renames = 0;
  int created = 0, removed = 0, pcreated = 0, premoved = 0;
  int steps = 3 + sim::choose(30);
  auto adopt = [&](model& m, node_base* n) -> model* {
    auto k = std::make_unique<model>();
    k->n = n;
    k->name = n->get_name();
    k->parent = &m;
    m.kids.push_back(std::move(k));
    created++;
    return m.kids.back().get();
  };
  auto remove_model = [&](model& m) {
    removed += m.size();
    premoved += m.params();
    auto& v = m.parent->kids;
    for(size_t i = 0; i < v.size(); i++)
      if(v[i].get() == &m)
      {
        v.erase(v.begin() + i);
        break;
      }
  };
  auto clear_model = [&](model& m) {
    while(!m.kids.empty())
      remove_model(*m.kids.back());
  };
  // the requested name when it is free, an instance of it otherwise
  auto name_ok = [&](model& in, const std::string& asked, const std::string& got, model* self) {
    std::string want = sanitize_name(asked);
    model* k = in.kid(want);
    if(!k || k == self)
      SIM_CHECK(got == want, "name", "%s was free, the node was named %s", want.c_str(), got.c_str());
    else
    {
      auto number = [](const std::string& x) { return !x.empty() && x.find_first_not_of("0123456789", x[0] == '-') == std::string::npos; };
      auto dot = want.rfind('.');
      std::string base = dot != std::string::npos && number(want.substr(dot + 1)) ? want.substr(0, dot) : want;
      auto instance_of = [&](const std::string& b) { return got.compare(0, b.size() + 1, b + ".") == 0 && number(got.substr(b.size() + 1)); };
      SIM_CHECK(got != want && (instance_of(base) || instance_of(want)), "name", "%s was taken, the node was named %s", want.c_str(), got.c_str());
    }
  };
  for(int s = 0; s < steps; s++)
  {
    std::vector<model*> v;
    all(root, v);
    model* m = v[sim::choose(v.size())];
    std::string name = random_name();
    switch(sim::choose(11))
    {
      case 0:
      case 1: {
        sim::log("create %s under %s", name.c_str(), m->path().c_str());
        auto* n = m->n->create_child(name);
        SIM_CHECK(n, "create", "a node was not created");
        name_ok(*m, name, n->get_name(), nullptr);
        adopt(*m, n);
        break;
      }
      case 2: {
        name = sanitize_name(name);
        sim::log("add %s under %s", name.c_str(), m->path().c_str());
        auto nn = std::make_unique<generic_node>(name, *dev, *m->n);
        auto* raw = nn.get();
        auto* r = m->n->add_child(std::move(nn));
        SIM_CHECK(!r == !!m->kid(name), "create", "add_child(%s): %s", name.c_str(), r ? "added a second one" : "refused");
        if(r)
        {
          SIM_CHECK(r == raw && r->get_name() == name, "create", "added as %s", r->get_name().c_str());
          adopt(*m, r);
        }
        break;
      }
      case 3: {
        bool there = m->kid(sanitize_name(name));
        sim::log("remove %s under %s", name.c_str(), m->path().c_str());
        bool r = m->n->remove_child(name);
        SIM_CHECK(r == there, "remove", "remove_child(%s) returned %d", name.c_str(), r);
        if(r)
          remove_model(*m->kid(sanitize_name(name)));
        break;
      }
      case 4:
        if(m->parent)
        {
          sim::log("remove %s", m->path().c_str());
          SIM_CHECK(m->parent->n->remove_child(*m->n), "remove", "not removed");
          remove_model(*m);
        }
        break;
      case 5:
        if(sim::choose(4) == 1)
        {
          sim::log("clear %s", m->path().c_str());
          m->n->clear_children();
          clear_model(*m);
        }
        break;
      case 6:
        if(m->parent)
        {
          sim::log("rename %s to %s", m->path().c_str(), name.c_str());
          std::string old = m->name;
          m->n->set_name(name);
          name_ok(*m->parent, name, m->n->get_name(), m);
          m->name = m->n->get_name();
          renames++;
          SIM_CHECK(sig.renamed.size() == renames && sig.renamed.back() == std::make_pair(old, m->name), "signal",
                    "the renaming of %s was not signalled with the old name", old.c_str());
        }
        break;
      case 7:
        if(m->parent)
        {
          SIM_CHECK(m->n->create_parameter(ossia::val_type::FLOAT), "parameter", "not created");
          pcreated += !m->param;
          m->param = true;
          if(sim::choose(2))
            m->n->get_parameter()->add_callback([](const ossia::value&) {});
        }
        break;
      case 8:
        if(m->parent)
        {
          SIM_CHECK(m->n->remove_parameter() == m->param, "parameter", "remove_parameter returned %d", !m->param);
          premoved += m->param;
          m->param = false;
        }
        break;
      case 9:
      case 10: {
        // a path, relative to any node
        std::string path;
        int depth = 1 + sim::choose(3);
        std::vector<std::string> parts;
        for(int i = 0; i < depth; i++)
          parts.push_back(sanitize_name(random_name()));
        for(auto& p : parts)
          path += "/" + p;
        model* at = m;
        size_t i = 0;
        for(; i < parts.size() && at->kid(parts[i]); i++)
          at = at->kid(parts[i]);
        auto* found = find_node(*m->n, path);
        SIM_CHECK(found == (i == parts.size() ? at->n : nullptr), "find", "find_node(%s) under %s", path.c_str(), m->path().c_str());
        bool fresh = sim::choose(2);
        sim::log("%s %s under %s", fresh ? "create_node" : "find_or_create", path.c_str(), m->path().c_str());
        node_base& r = fresh ? create_node(*m->n, path) : find_or_create_node(*m->n, path);
        if(i == parts.size() && fresh)
        {
          SIM_CHECK(r.get_parent() == at->parent->n && &r != at->n, "create", "create_node returned an existing node");
          name_ok(*at->parent, parts.back(), r.get_name(), nullptr);
          adopt(*at->parent, &r);
        }
        else
        {
          for(; i < parts.size(); i++)
          {
            auto* n = at->n->find_child(parts[i]);
            SIM_CHECK(n, "create", "%s was not created", path.c_str());
            at = adopt(*at, n);
          }
          SIM_CHECK(&r == at->n, "create", "%s: another node was returned", path.c_str());
        }
        break;
      }
    }
    compare(root);
    SIM_CHECK(sig.n_created == created, "signal", "%d creations signalled, %d nodes created", sig.n_created, created);
    SIM_CHECK(sig.n_removing == removed && sig.n_deleted == removed, "signal", "%d removals and %d deletions signalled, %d nodes removed",
              sig.n_removing, sig.n_deleted, removed);
    SIM_CHECK(sig.n_pcreated == pcreated && sig.n_premoving == premoved, "signal",
              "%d parameters created and %d removed, signalled %d and %d", pcreated, premoved, sig.n_pcreated, sig.n_premoving);
    for(auto& [q, on] : proto->observed)
      SIM_CHECK(!on || sig.pcreated.count(q), "observe", "a removed parameter is still observed");
  }
  // the whole device goes
  int left = root.size() - 1, lparams = root.params();
  dev.reset();
  SIM_CHECK(sig.n_premoving == premoved + lparams, "signal", "%d of %d parameters signalled at the end", sig.n_premoving - premoved, lparams);
  SIM_CHECK(sig.n_deleted == removed + left || sig.n_deleted == removed + left + 1, "signal", "%d of %d nodes deleted at the end",
            sig.n_deleted - removed, left);
}

// Several threads edit the same node.
SIM_SCENARIO("P07", tree_threads, 4)
{
  static const unsigned means[][2] = {{0, 0}, {2, 0}, {4, 0}, {8, 100}, {0, 60}, {0, 400}, {5, 40}, {16, 1000}};
  auto& mm = means[sim::choose(8)];
  signals sig;
  auto dev = std::make_unique<generic_device>(std::make_unique<null_protocol>(), "dev");
  sig.track_deletion = false;
  sig.attach(*dev);
  auto& shared = create_node(*dev, "/s");
  // one which is renamed all along by its only owner, among the others
  int nth = 2 + sim::choose(3);
  std::atomic_int made{1}, gone{0};
  std::vector<std::vector<node_base*>> mine(nth);
  std::vector<std::thread> ts;
  sim::cooperate(mm[0], mm[1]);
  for(int i = 0; i < nth; i++)
  {
    int count = 1 + sim::choose(7);
    ts.emplace_back([&, i, count] {
      auto& my = mine[i];
      auto check_own = [&] {
        for(auto* n : my)
        {
          std::string nm = n->get_name();
          SIM_CHECK(shared.find_child(nm) == n, "find", "thread %d does not find its node %s", i, nm.c_str());
        }
      };
      for(int k = 0; k < count; k++)
      {
        std::string name = sim::pick<const char*>({"a", "a.1", "b", "a.2", "some_long_name_which_is_allocated"});
        switch(sim::choose(10))
        {
          case 0:
          case 1:
          case 2: {
            auto* n = shared.create_child(name);
            SIM_CHECK(n, "create", "a node was not created");
            my.push_back(n);
            made++;
            break;
          }
          case 3: {
            auto* r = shared.add_child(std::make_unique<generic_node>(name, *dev, shared));
            if(r)
            {
              SIM_CHECK(r->get_name() == name, "name", "added %s, named %s", name.c_str(), r->get_name().c_str());
              my.push_back(r);
              made++;
            }
            break;
          }
          case 4:
            if(!my.empty())
            {
              size_t x = sim::choose(my.size());
              auto* n = my[x];
              my.erase(my.begin() + x);
              bool by_name = sim::choose(2);
              std::string nm = n->get_name();
              bool ok = by_name ? shared.remove_child(nm) : shared.remove_child(*n);
              SIM_CHECK(ok, "remove", "thread %d could not remove its node %s", i, nm.c_str());
              gone++;
            }
            break;
          case 5:
            if(!my.empty())
            {
              auto* n = sim::pick_from(my);
              n->set_name(name);
              SIM_CHECK(n->osc_address() == "/s/" + n->get_name(), "address", "%s is addressed %s", n->get_name().c_str(),
                        n->osc_address().c_str());
            }
            break;
          case 6: {
            auto names = shared.children_names();
            sim::oracle o;
            std::set<std::string> u(names.begin(), names.end());
            SIM_CHECK(u.size() == names.size(), "duplicate-name", "two children have the same name");
            SIM_CHECK(!u.count(""), "name", "a child has no name");
            break;
          }
          case 7: {
            auto all = shared.children_copy();
            for(auto* n : my)
            {
              SIM_CHECK(shared.has_child(*n), "find", "thread %d: has_child misses its node", i);
              bool in = false;
              for(auto* x : all)
                in |= x == n;
              SIM_CHECK(in, "find", "thread %d: children_copy misses its node", i);
            }
            break;
          }
          case 8:
            find_node(*dev, "/s/" + name);
            shared.find_child("nothing");
            break;
          case 9:
            if(!my.empty())
            {
              // a private subtree
              auto* n = sim::pick_from(my);
              auto& c = find_or_create_node(*n, "/x/y");
              if(!c.get_parameter())
                made += c.get_parent()->children_names().size() == 1 && !c.get_parameter() ? 2 : 0;
              c.create_parameter(ossia::val_type::INT);
              SIM_CHECK(find_node(*n, "x/y") == &c, "find", "thread %d lost a node", i);
              n->clear_children();
              gone += 2;
            }
            break;
        }
        check_own();
      }
    });
  }
  for(auto& t : ts)
    t.join();
  auto names = shared.children_names();
  std::set<std::string> u(names.begin(), names.end());
  SIM_CHECK(u.size() == names.size(), "duplicate-name", "%zu children have %zu names", names.size(), u.size());
  size_t total = 0;
  for(auto& m : mine)
  {
    total += m.size();
    for(auto* n : m)
      SIM_CHECK(shared.has_child(*n) && shared.find_child(n->get_name()) == n, "find", "%s was lost", n->get_name().c_str());
  }
  SIM_CHECK(total == names.size(), "children", "%zu children, %zu expected", names.size(), total);
  SIM_CHECK(sig.n_created == made, "signal", "%d creations signalled, %d made", sig.n_created, made.load());
  SIM_CHECK(sig.n_removing == gone, "signal", "%d removals signalled, %d made", sig.n_removing, gone.load());
}
