#pragma once
// Stand-in for NoAvailableAlias/nano-signal-slot (empty submodule; jcelerier fork):
// Signal::connect<&T::fn>(inst), connect<&free>(), connect(functor&), disconnect<...>,
// Observer auto-disconnection. Slots are called in reverse connection order, as the
// original does (it pushes at the front of a singly-linked list).
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <functional>
namespace Nano
{
struct DelegateKey
{
  const void* inst{};
  const void* fn{};
  bool operator==(const DelegateKey& o) const noexcept { return inst == o.inst && fn == o.fn; }
};
class Observer;
struct SignalBase
{
  virtual ~SignalBase() = default;
  virtual void drop_observer(Observer*) = 0;
};
class Observer
{
public:
  Observer() = default;
  Observer(const Observer&) { }
  Observer& operator=(const Observer&) { return *this; }
  virtual ~Observer()
  {
    auto s = std::move(m_signals);
    for (auto* x : s) x->drop_observer(this);
  }
  void reg(SignalBase* s) { m_signals.push_back(s); }
  void unreg(SignalBase* s)
  {
    auto it = std::find(m_signals.begin(), m_signals.end(), s);
    if (it != m_signals.end()) m_signals.erase(it);
  }
private:
  std::vector<SignalBase*> m_signals;
};
namespace detail
{
template <auto F> struct fnkey { static inline const char key{}; };
}
template <typename T> class Signal;
template <typename R, typename... Args>
class Signal<R(Args...)> final : public SignalBase
{
  struct slot { DelegateKey key; Observer* obs; std::function<R(Args...)> f; bool dead{}; };
  mutable std::list<slot> m_slots;
  // concurrent emissions only read the list, as in the original
  mutable std::atomic<int> m_depth{0};
  mutable bool m_dead{false};
  template <typename T> static Observer* as_obs(T* t)
  {
    if constexpr (std::is_base_of_v<Observer, T>) return static_cast<Observer*>(t);
    else return nullptr;
  }
  void add(DelegateKey k, Observer* o, std::function<R(Args...)> f)
  {
    m_slots.push_front(slot{k, o, std::move(f)});
    if (o) o->reg(this);
  }
  void rem(DelegateKey k)
  {
    for (auto it = m_slots.begin(); it != m_slots.end(); ++it)
      if (!it->dead && it->key == k)
      {
        if (it->obs) it->obs->unreg(this);
        if (m_depth.load(std::memory_order_relaxed)) it->dead = m_dead = true; else m_slots.erase(it);
        return;
      }
  }
public:
  Signal() = default;
  Signal(const Signal&) = delete;
  Signal& operator=(const Signal&) = delete;
  ~Signal() override
  {
    for (auto& s : m_slots) if (!s.dead && s.obs) s.obs->unreg(this);
  }
  void drop_observer(Observer* o) override
  {
    for (auto it = m_slots.begin(); it != m_slots.end();)
    {
      if (!it->dead && it->obs == o) { if (m_depth.load(std::memory_order_relaxed)) { it->dead = m_dead = true; ++it; } else it = m_slots.erase(it); }
      else ++it;
    }
  }
  template <auto F> void connect()
  { add({nullptr, &detail::fnkey<F>::key}, nullptr, [](Args... a) { return F(std::forward<Args>(a)...); }); }
  template <auto F, typename T> void connect(T* t)
  { add({t, &detail::fnkey<F>::key}, as_obs(t), [t](Args... a) { return (t->*F)(std::forward<Args>(a)...); }); }
  template <auto F, typename T, std::enable_if_t<!std::is_pointer_v<T>, int> = 0> void connect(T& t) { this->template connect<F>(&t); }
  template <typename L> void connect(L& l) { add({&l, nullptr}, nullptr, [&l](Args... a) { return l(std::forward<Args>(a)...); }); }
  template <typename L> void connect(L* l) { add({l, nullptr}, nullptr, [l](Args... a) { return (*l)(std::forward<Args>(a)...); }); }
  template <auto F> void disconnect() { rem({nullptr, &detail::fnkey<F>::key}); }
  template <auto F, typename T> void disconnect(T* t) { rem({t, &detail::fnkey<F>::key}); }
  template <auto F, typename T, std::enable_if_t<!std::is_pointer_v<T>, int> = 0> void disconnect(T& t) { rem({&t, &detail::fnkey<F>::key}); }
  template <typename L> void disconnect(L& l) { rem({&l, nullptr}); }
  template <typename L> void disconnect(L* l) { rem({l, nullptr}); }
  bool empty() const noexcept { return m_slots.empty(); }
  template <typename... A> void operator()(A&&... args) const
  {
    m_depth.fetch_add(1, std::memory_order_relaxed);
    struct guard { const Signal& s; ~guard() { if (s.m_depth.fetch_sub(1, std::memory_order_relaxed) == 1 && s.m_dead) { s.m_dead = false; s.m_slots.remove_if([](auto& x) { return x.dead; }); } } } g{*this};
    for (auto it = m_slots.begin(); it != m_slots.end(); ++it)
      if (!it->dead) it->f(args...);
  }
};
}
