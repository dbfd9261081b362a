#pragma once
#include <algorithm>
#include <functional>
#include <vector>
namespace fc
{
template <typename Container, typename Compare, bool Multi>
class flat_set_base
{
public:
  Container container;
  using value_type = typename Container::value_type;
  using key_type = value_type;
  using iterator = typename Container::const_iterator;
  using const_iterator = typename Container::const_iterator;
  flat_set_base() = default;
  flat_set_base(std::initializer_list<value_type> l) { for (auto& p : l) insert(p); }
  template <typename It> flat_set_base(It a, It b) { for (; a != b; ++a) insert(*a); }
  const_iterator begin() const noexcept { return container.begin(); }
  const_iterator end() const noexcept { return container.end(); }
  const_iterator cbegin() const noexcept { return container.begin(); }
  const_iterator cend() const noexcept { return container.end(); }
  auto rbegin() const noexcept { return container.rbegin(); }
  auto rend() const noexcept { return container.rend(); }
  std::size_t size() const noexcept { return container.size(); }
  bool empty() const noexcept { return container.empty(); }
  void clear() noexcept { container.clear(); }
  void reserve(std::size_t n) { container.reserve(n); }
  template <typename K> const_iterator lower_bound(const K& k) const { return std::lower_bound(begin(), end(), k, Compare{}); }
  template <typename K> const_iterator upper_bound(const K& k) const { return std::upper_bound(begin(), end(), k, Compare{}); }
  template <typename K> const_iterator find(const K& k) const
  { auto it = lower_bound(k); return (it != end() && !Compare{}(k, *it)) ? it : end(); }
  template <typename K> std::size_t count(const K& k) const { return upper_bound(k) - lower_bound(k); }
  template <typename K> bool has(const K& k) const { return find(k) != end(); }
  auto insert(value_type p)
  {
    if constexpr (Multi)
      return const_iterator(container.insert(upper_bound(p), std::move(p)));
    else
    {
      auto it = lower_bound(p);
      if (it == end() || Compare{}(p, *it))
        return std::pair<const_iterator, bool>{container.insert(it, std::move(p)), true};
      return std::pair<const_iterator, bool>{it, false};
    }
  }
  template <typename It> void insert(It a, It b) { for (; a != b; ++a) insert(value_type(*a)); }
  const_iterator insert(const_iterator, value_type p)
  { if constexpr(Multi) return insert(std::move(p)); else return insert(std::move(p)).first; }
  template <typename... Args> auto emplace(Args&&... args) { return insert(value_type{std::forward<Args>(args)...}); }
  const_iterator erase(const_iterator it) { return container.erase(it); }
  const_iterator erase(const_iterator a, const_iterator b) { return container.erase(a, b); }
  template <typename K, std::enable_if_t<!std::is_convertible_v<K, const_iterator>, int> = 0>
  std::size_t erase(const K& k)
  { auto a = lower_bound(k), b = upper_bound(k); std::size_t n = b - a; container.erase(a, b); return n; }
  bool operator==(const flat_set_base& o) const { return container == o.container; }
  bool operator!=(const flat_set_base& o) const { return !(container == o.container); }
};
template <typename Container, typename Compare = std::less<void>>
using flat_set = flat_set_base<Container, Compare, false>;
template <typename Container, typename Compare = std::less<void>>
using flat_multiset = flat_set_base<Container, Compare, true>;
template <typename K, typename Compare = std::less<void>>
using vector_set = flat_set<std::vector<K>, Compare>;
template <typename K, typename Compare = std::less<void>>
using vector_multiset = flat_multiset<std::vector<K>, Compare>;
}
