// P06: the object pools, the single-producer queue and the two message queues.
#include "common.hpp"
#include <ossia/detail/buffer_pool.hpp>
#include <ossia/detail/lockfree_queue.hpp>
#include <ossia/network/base/message_queue.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <ossia/network/local/local.hpp>
#include <map>
#include <set>

namespace
{
// An object taken from a pool belongs to its taker until it is given back.
struct tracked
{
  int id = -1;
  std::vector<char> mem;
};
}
SIM_SCENARIO("P06", object_pools)
{
  ossia::object_pool<std::unique_ptr<tracked>> pool;
  std::set<tracked*> held;
  int next_id = 0;
  size_t made = 0;
  std::vector<std::thread> th;
  for(int i = 1 + sim::choose(4); i > 0; --i)
    th.emplace_back([&] {
      std::vector<std::unique_ptr<tracked>> mine;
      for(int k = 2 + sim::choose(10); k > 0; --k)
      {
        if(mine.empty() || sim::choose(2))
        {
          auto p = pool.acquire();
          if(!p)
          {
            p = std::make_unique<tracked>();
            sim::oracle o;
            p->id = next_id++;
            made++;
          }
          p->mem.assign(sim::choose(20), 'x'); // a shared object would race here
          {
            sim::oracle o;
            SIM_CHECK(held.insert(p.get()).second, "pool-shared", "object %d acquired while it is in use", p->id);
          }
          mine.push_back(std::move(p));
        }
        else
        {
          size_t x = sim::choose(mine.size());
          auto p = std::move(mine[x]);
          mine.erase(mine.begin() + x);
          {
            sim::oracle o;
            held.erase(p.get());
          }
          pool.release(std::move(p));
        }
      }
      for(auto& p : mine)
      {
        {
          sim::oracle o;
          held.erase(p.get());
        }
        pool.release(std::move(p));
      }
    });
  for(auto& t : th)
    t.join();
  // everything given back can be taken again, once
  size_t n = 0;
  while(auto p = pool.acquire())
  {
    SIM_CHECK(held.insert(p.release()).second, "pool-shared", "an object is twice in the pool");
    n++;
  }
  SIM_CHECK(n == made, "pool-lost", "%zu objects in the pool, %zu were given back", n, made);
}

SIM_SCENARIO("P06", buffer_pools)
{
  ossia::buffer_pool pool;
  using sized = ossia::sized_object_pool<std::vector<char>, ossia::container_memory_manager<std::vector<char>>, 10, 100, 1000>;
  sized spool;
  static_assert(sized::buckets == 4);
  std::vector<std::thread> th;
  for(int i = 1 + sim::choose(4); i > 0; --i)
    th.emplace_back([&, i] {
      std::vector<std::pair<ossia::buffer_pool::buffer, char>> mine;
      std::vector<std::pair<std::vector<char>, char>> smine;
      char next = 0;
      auto size = [] { return sim::pick<size_t>({0, 1, 9, 10, 99, 100, 101, 999, 1000, 1024, 3000}); };
      auto whole = [](auto& b, char c) {
        for(char x : b)
          if(x != c)
            return false;
        return true;
      };
      for(int k = 2 + sim::choose(10); k > 0; --k)
        switch(sim::choose(4))
        {
          case 0:
          {
            size_t n = size();
            auto b = pool.acquire(n);
            SIM_CHECK(b.size() == n, "buffer-size", "asked for %zu bytes, got %zu", n, b.size());
            std::fill(b.begin(), b.end(), ++next);
            mine.emplace_back(std::move(b), next);
            break;
          }
          case 1:
            if(!mine.empty())
            {
              size_t x = sim::choose(mine.size());
              SIM_CHECK(whole(mine[x].first, mine[x].second), "pool-shared", "a buffer in use was overwritten");
              pool.release(std::move(mine[x].first));
              mine.erase(mine.begin() + x);
            }
            break;
          case 2:
          {
            size_t n = size();
            std::vector<char> b;
            if(sim::choose(2))
            {
              b = spool.acquire_sized(n);
              SIM_CHECK(b.size() == n, "buffer-size", "sized pool: asked for %zu bytes, got %zu", n, b.size());
            }
            else
            {
              b = spool.acquire_reserved(n);
              SIM_CHECK(b.capacity() >= n, "buffer-size", "sized pool: asked for a capacity of %zu, got %zu", n, b.capacity());
            }
            std::fill(b.begin(), b.end(), ++next);
            smine.emplace_back(std::move(b), next);
            break;
          }
          case 3:
            if(!smine.empty())
            {
              size_t x = sim::choose(smine.size());
              SIM_CHECK(whole(smine[x].first, smine[x].second), "pool-shared", "a sized buffer in use was overwritten");
              spool.release(std::move(smine[x].first));
              smine.erase(smine.begin() + x);
            }
            break;
        }
      for(auto& m : mine)
      {
        SIM_CHECK(whole(m.first, m.second), "pool-shared", "a buffer in use was overwritten");
        pool.release(std::move(m.first));
      }
    });
  for(auto& t : th)
    t.join();
}

// One producer, one consumer: everything, once, in order
SIM_SCENARIO("P06", spsc)
{
  ossia::spsc_queue<std::vector<int>> q;
  int n = 1 + sim::choose(40);
  std::atomic_bool done{false};
  std::thread prod{[&] {
    for(int i = 0; i < n; i++)
    {
      q.enqueue(std::vector<int>(1 + i % 3, i));
      if(sim::choose(4) == 1)
        sim::yield();
    }
    done = true;
  }};
  int next = 0;
  std::vector<int> v;
  for(;;)
  {
    bool d = done;
    if(q.try_dequeue(v))
    {
      SIM_CHECK(v == std::vector<int>(1 + next % 3, next), "queue-order", "item %d expected, %d received", next, v.empty() ? -1 : v[0]);
      next++;
    }
    else if(d)
      break;
    else
      sim::sleep_ns(1000);
  }
  prod.join();
  SIM_CHECK(next == n, "queue-lost", "%d of %d items received", next, n);
}

// A message queue yields every value a registered parameter received, in order.
SIM_SCENARIO("P06", message_queues, 3)
{
  using namespace ossia::net;
  generic_device dev{std::make_unique<multiplex_protocol>(), "dev"};
  int np = 1 + sim::choose(3);
  std::vector<parameter_base*> params;
  for(int i = 0; i < np; i++)
  {
    auto n = dev.create_child("p" + std::to_string(i));
    params.push_back(n->create_parameter(sim::choose(2) ? ossia::val_type::INT : ossia::val_type::STRING));
  }
  auto make = [&](int p, int k) -> ossia::value {
    if(params[p]->get_value_type() == ossia::val_type::INT)
      return p * 1000 + k;
    return "value" + std::to_string(p * 1000 + k);
  };
  auto q = std::make_unique<ossia::message_queue>(dev);
  auto gq = std::make_unique<ossia::global_message_queue>(dev);
  std::vector<int> regs(np, 0);
  std::vector<std::vector<ossia::value>> expected(np), got(np), gexpected(np), ggot(np);
  std::vector<int> counter(np, 0);
  message_origin_identifier id{dev.get_protocol()};
  auto drain = [&] {
    ossia::received_value v;
    while(q->try_dequeue(v))
      for(int i = 0; i < np; i++)
        if(params[i] == v.address)
          got[i].push_back(v.value);
    while(gq->try_dequeue(v))
      for(int i = 0; i < np; i++)
        if(params[i] == v.address)
          ggot[i].push_back(v.value);
  };
  auto check = [&](const char* what) {
    for(int i = 0; i < np; i++)
    {
      SIM_CHECK(got[i] == expected[i], "message-queue", "%s: %zu values received from parameter %d, %zu expected (or in another order)",
                what, got[i].size(), i, expected[i].size());
      SIM_CHECK(ggot[i] == gexpected[i], "global-queue", "%s: global queue has %zu values of parameter %d, %zu expected", what,
                ggot[i].size(), i, gexpected[i].size());
    }
  };
  for(int step = 2 + sim::choose(5); step > 0; --step)
  {
    // registrations on this thread, counted
    for(int k = sim::choose(4); k > 0; --k)
    {
      int p = sim::choose(np);
      if(sim::choose(3) < 2)
      {
        q->reg(*params[p]);
        regs[p]++;
      }
      else
      {
        q->unreg(*params[p]);
        if(regs[p] > 0)
          regs[p]--;
      }
    }
    // values on other threads, one per parameter, while this one consumes
    std::vector<std::thread> th;
    std::atomic_int running{0};
    for(int p = 0; p < np; p++)
    {
      if(sim::chance(1, 3))
        continue;
      running++;
      bool incoming = sim::choose(2);
      th.emplace_back([&, p, incoming] {
        for(int k = 1 + sim::choose(5); k > 0; --k)
        {
          auto v = make(p, counter[p]++);
          if(regs[p] > 0)
          {
            sim::oracle o;
            expected[p].push_back(v);
          }
          if(incoming)
          {
            {
              sim::oracle o;
              gexpected[p].push_back(v);
            }
            dev.apply_incoming_message(id, *params[p], std::move(v));
          }
          else
            params[p]->push_value(v);
        }
        running--;
      });
    }
    while(running > 0)
    {
      drain();
      sim::sleep_ns(3000);
    }
    for(auto& t : th)
      t.join();
    drain();
    check("after a round");
    // a parameter which goes away is forgotten
    if(sim::chance(1, 6))
    {
      int p = sim::choose(np);
      auto& n = params[p]->get_node();
      auto type = params[p]->get_value_type();
      n.remove_parameter();
      params[p] = n.create_parameter(type);
      regs[p] = 0;
      params[p]->push_value(make(p, counter[p]++));
      drain();
      check("after a parameter was replaced");
    }
  }
  q.reset();
  gq.reset();
  for(int p = 0; p < np; p++)
  {
    SIM_CHECK(params[p]->callbacks_empty(), "message-queue", "a deleted queue left a callback on parameter %d", p);
    params[p]->push_value(make(p, counter[p]++));
  }
}
