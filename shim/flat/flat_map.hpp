#pragma once
// Stand-in for Pubby/flat (empty submodule): sorted-vector map/set adaptors.
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <utility>
#include <vector>
namespace fc
{
namespace detail {
template <typename P> struct kv;
}
template <typename Container, typename Compare, bool Multi>
class flat_map_base
{
public:
  Container container;
  using pair_t = typename Container::value_type;
  using value_type = pair_t;
  using key_type = decltype(pair_t::first);
  using mapped_type = decltype(pair_t::second);
  using iterator = typename Container::iterator;
  using const_iterator = typename Container::const_iterator;
  using size_type = std::size_t;

  flat_map_base() = default;
  flat_map_base(std::initializer_list<pair_t> l) { for (auto& p : l) insert(p); }
  template <typename It> flat_map_base(It a, It b) { for (; a != b; ++a) insert(*a); }

  iterator begin() noexcept { return container.begin(); }
  iterator end() noexcept { return container.end(); }
  const_iterator begin() const noexcept { return container.begin(); }
  const_iterator end() const noexcept { return container.end(); }
  const_iterator cbegin() const noexcept { return container.begin(); }
  const_iterator cend() const noexcept { return container.end(); }
  auto rbegin() noexcept { return container.rbegin(); }
  auto rend() noexcept { return container.rend(); }
  auto rbegin() const noexcept { return container.rbegin(); }
  auto rend() const noexcept { return container.rend(); }
  std::size_t size() const noexcept { return container.size(); }
  bool empty() const noexcept { return container.empty(); }
  void clear() noexcept { container.clear(); }
  void reserve(std::size_t n) { container.reserve(n); }

  template <typename K> iterator lower_bound(const K& k)
  { return std::lower_bound(begin(), end(), k, [](const pair_t& p, const K& kk) { return Compare{}(p.first, kk); }); }
  template <typename K> const_iterator lower_bound(const K& k) const
  { return std::lower_bound(begin(), end(), k, [](const pair_t& p, const K& kk) { return Compare{}(p.first, kk); }); }
  template <typename K> iterator upper_bound(const K& k)
  { return std::upper_bound(begin(), end(), k, [](const K& kk, const pair_t& p) { return Compare{}(kk, p.first); }); }
  template <typename K> const_iterator upper_bound(const K& k) const
  { return std::upper_bound(begin(), end(), k, [](const K& kk, const pair_t& p) { return Compare{}(kk, p.first); }); }
  template <typename K> iterator find(const K& k)
  { auto it = lower_bound(k); return (it != end() && !Compare{}(k, it->first)) ? it : end(); }
  template <typename K> const_iterator find(const K& k) const
  { auto it = lower_bound(k); return (it != end() && !Compare{}(k, it->first)) ? it : end(); }
  template <typename K> std::size_t count(const K& k) const { return upper_bound(k) - lower_bound(k); }
  template <typename K> std::pair<iterator, iterator> equal_range(const K& k) { return {lower_bound(k), upper_bound(k)}; }
  template <typename K> bool has(const K& k) const { return find(k) != end(); }

  template <typename K> mapped_type& at(const K& k)
  { auto it = find(k); if (it == end()) throw std::out_of_range("flat_map::at"); return it->second; }
  template <typename K> const mapped_type& at(const K& k) const
  { auto it = find(k); if (it == end()) throw std::out_of_range("flat_map::at"); return it->second; }
  mapped_type& operator[](const key_type& k)
  {
    auto it = lower_bound(k);
    if (it == end() || Compare{}(k, it->first))
      it = container.insert(it, pair_t{k, mapped_type{}});
    return it->second;
  }
  auto insert(pair_t p)
  {
    if constexpr (Multi)
    {
      return container.insert(upper_bound(p.first), std::move(p));
    }
    else
    {
      auto it = lower_bound(p.first);
      if (it == end() || Compare{}(p.first, it->first))
        return std::pair<iterator, bool>{container.insert(it, std::move(p)), true};
      return std::pair<iterator, bool>{it, false};
    }
  }
  iterator insert(const_iterator, pair_t p)
  { if constexpr(Multi) return insert(std::move(p)); else return insert(std::move(p)).first; }
  template <typename It> void insert(It a, It b) { for (; a != b; ++a) insert(pair_t(*a)); }
  template <typename V> auto insert_or_assign(const key_type& k, V&& v)
  {
    auto it = lower_bound(k);
    if (it == end() || Compare{}(k, it->first))
      return std::pair<iterator, bool>{container.insert(it, pair_t{k, std::forward<V>(v)}), true};
    it->second = std::forward<V>(v);
    return std::pair<iterator, bool>{it, false};
  }
  template <typename... Args> auto emplace(Args&&... args) { return insert(pair_t{std::forward<Args>(args)...}); }
  iterator erase(const_iterator it) { return container.erase(it); }
  iterator erase(iterator it) { return container.erase(it); }
  iterator erase(const_iterator a, const_iterator b) { return container.erase(a, b); }
  std::size_t erase(const key_type& k)
  {
    auto a = lower_bound(k), b = upper_bound(k); std::size_t n = b - a; container.erase(a, b); return n;
  }
  bool operator==(const flat_map_base& o) const { return container == o.container; }
  bool operator!=(const flat_map_base& o) const { return !(container == o.container); }
};
template <typename Container, typename Compare = std::less<void>>
using flat_map = flat_map_base<Container, Compare, false>;
template <typename Container, typename Compare = std::less<void>>
using flat_multimap = flat_map_base<Container, Compare, true>;
template <typename K, typename V, typename Compare = std::less<void>>
using vector_map = flat_map<std::vector<std::pair<K, V>>, Compare>;
template <typename K, typename V, typename Compare = std::less<void>>
using vector_multimap = flat_multimap<std::vector<std::pair<K, V>>, Compare>;
}
