#pragma once
// Stand-in for eggs-cpp/variant (empty submodule): the subset of its API that
// libossia uses, on top of std::variant.  Index npos == empty.
#include <variant>
#include <utility>
#include <typeinfo>
#include <stdexcept>
#include <type_traits>
namespace eggs
{
namespace variants
{
struct bad_variant_access : std::exception {
  const char* what() const noexcept override { return "bad_variant_access"; }
};
namespace detail
{
template <typename T, typename... Ts>
constexpr std::size_t index_of_impl()
{
  std::size_t i = 0, r = sizeof...(Ts);
  ((std::is_same_v<T, Ts> ? (r = (r == sizeof...(Ts) ? i : r), ++i) : ++i), ...);
  return r;
}
}
template <typename T> struct in_place_t_type { };
template <std::size_t N> struct in_place_t_index { };
template <typename T> inline constexpr in_place_t_type<T> in_place{};

struct nullvariant_t { };
inline constexpr nullvariant_t nullvariant{};

template <typename... Ts>
class variant;

template <std::size_t N, typename V> struct variant_element;
template <std::size_t N, typename... Ts>
struct variant_element<N, variant<Ts...>> {
  using type = std::variant_alternative_t<N, std::variant<Ts...>>;
};

template <typename... Ts>
class variant
{
public:
  using impl_t = std::variant<std::monostate, Ts...>;
  impl_t m_impl;
  static constexpr std::size_t npos = std::size_t(-1);

  variant() noexcept = default;
  variant(nullvariant_t) noexcept { }
  variant(const variant&) = default;
  variant(variant&&) = default;
  variant& operator=(const variant&) = default;
  variant& operator=(variant&&) = default;

  template <typename T, std::enable_if_t<(std::is_same_v<std::decay_t<T>, Ts> || ...), int> = 0>
  variant(T&& t) : m_impl{std::in_place_type<std::decay_t<T>>, std::forward<T>(t)}
  {
  }
  // converting construction (only if no exact match)
  template <typename T,
            std::enable_if_t<
                !(std::is_same_v<std::decay_t<T>, Ts> || ...)
                && !std::is_same_v<std::decay_t<T>, variant>
                && !std::is_same_v<std::decay_t<T>, nullvariant_t>
                && (std::is_convertible_v<T&&, Ts> || ...), long> = 0>
  variant(T&& t)
  {
    std::variant<Ts...> v{std::forward<T>(t)};
    std::visit([this](auto&& x) { m_impl.template emplace<std::decay_t<decltype(x)>>(std::move(x)); }, std::move(v));
  }
  template <typename T, typename... Args>
  variant(in_place_t_type<T>, Args&&... args)
      : m_impl{std::in_place_type<T>, std::forward<Args>(args)...}
  {
  }
  template <typename T, std::enable_if_t<(std::is_same_v<std::decay_t<T>, Ts> || ...), int> = 0>
  variant& operator=(T&& t)
  {
    m_impl.template emplace<std::decay_t<T>>(std::forward<T>(t));
    return *this;
  }
  template <typename T, typename... Args>
  T& emplace(Args&&... args)
  {
    return m_impl.template emplace<T>(std::forward<Args>(args)...);
  }
  template <std::size_t N, typename... Args>
  auto& emplace(Args&&... args)
  {
    return m_impl.template emplace<N + 1>(std::forward<Args>(args)...);
  }
  std::size_t which() const noexcept
  {
    return m_impl.index() == 0 ? npos : m_impl.index() - 1;
  }
  explicit operator bool() const noexcept { return m_impl.index() != 0 && m_impl.index() != std::variant_npos; }
  template <typename T> T* target() noexcept { return std::get_if<T>(&m_impl); }
  template <typename T> const T* target() const noexcept { return std::get_if<T>(&m_impl); }
  void* target() noexcept
  {
    return std::visit([](auto& x) -> void* { return &x; }, m_impl);
  }

  const void* target() const noexcept
  {
    return std::visit([](auto& x) -> const void* { return &x; }, m_impl);
  }
};
template <typename... Ts> bool operator==(const variant<Ts...>& a, const variant<Ts...>& b) { return a.m_impl == b.m_impl; }
template <typename... Ts> bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(a.m_impl == b.m_impl); }
template <typename... Ts> bool operator<(const variant<Ts...>& a, const variant<Ts...>& b) { return a.m_impl < b.m_impl; }
template <typename T, typename... Ts, std::enable_if_t<(std::is_same_v<T, Ts> || ...), int> = 0>
bool operator==(const variant<Ts...>& a, const T& b) { auto p = a.template target<T>(); return p && *p == b; }
template <typename T, typename... Ts, std::enable_if_t<(std::is_same_v<T, Ts> || ...), int> = 0>
bool operator!=(const variant<Ts...>& a, const T& b) { return !(a == b); }

template <typename T, typename... Ts> T& get(variant<Ts...>& v) { if (auto p = v.template target<T>()) return *p; throw bad_variant_access{}; }
template <typename T, typename... Ts> const T& get(const variant<Ts...>& v) { if (auto p = v.template target<T>()) return *p; throw bad_variant_access{}; }
template <std::size_t N, typename... Ts> auto& get(variant<Ts...>& v) { if (auto p = std::get_if<N + 1>(&v.m_impl)) return *p; throw bad_variant_access{}; }
template <std::size_t N, typename... Ts> const auto& get(const variant<Ts...>& v) { if (auto p = std::get_if<N + 1>(&v.m_impl)) return *p; throw bad_variant_access{}; }

namespace detail
{
template <typename V> struct first_of;
template <typename T, typename... Ts> struct first_of<variant<T, Ts...>> { using type = T; };

template <typename V, typename Var> struct like;
template <typename T, typename Var> using like_t
    = std::conditional_t<std::is_lvalue_reference_v<Var>,
        std::conditional_t<std::is_const_v<std::remove_reference_t<Var>>, const T&, T&>,
        std::conditional_t<std::is_const_v<std::remove_reference_t<Var>>, const T&&, T&&>>;

template <typename R, typename F>
R visit1(F&& f) { return std::forward<F>(f)(); }

template <typename R, typename F, typename Var, typename... Rest>
R visit1(F&& f, Var&& v, Rest&&... rest)
{
  return std::visit(
      [&](auto&& x) -> R {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
          throw bad_variant_access{};
        else
          return visit1<R>(
              [&](auto&&... xs) -> R {
                return std::forward<F>(f)(std::forward<decltype(x)>(x), std::forward<decltype(xs)>(xs)...);
              },
              std::forward<Rest>(rest)...);
      },
      std::forward<Var>(v).m_impl);
}
}

template <typename F, typename... Vars>
decltype(auto) apply(F&& f, Vars&&... vars)
{
  using R = decltype(std::forward<F>(f)(
      std::declval<detail::like_t<typename detail::first_of<std::decay_t<Vars>>::type, Vars&&>>()...));
  return detail::visit1<R>(std::forward<F>(f), std::forward<Vars>(vars)...);
}
template <typename R, typename F, typename... Vars>
R apply(F&& f, Vars&&... vars)
{
  return detail::visit1<R>(std::forward<F>(f), std::forward<Vars>(vars)...);
}
}
using variants::variant;
using variants::get;
}
