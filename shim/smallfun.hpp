#pragma once
// Stand-in for SmallFunction (empty submodule).
#include <functional>
#include <memory>
#include <cstddef>
namespace smallfun
{
enum class Methods { Copy = 1, Move = 2, Both = 3 };
template <class Signature, std::size_t size = 64, std::size_t align = 8, Methods M = Methods::Both>
class function;
// As the original: copyable wrapper with a fixed buffer; move-only callables are accepted
// and, if the wrapper gets copied, share their target.
template <class R, class... Xs, std::size_t size, std::size_t align, Methods M>
class function<R(Xs...), size, align, M>
{
  struct base { virtual ~base() = default; virtual R call(Xs...) = 0; virtual base* clone() = 0; };
  template <typename F> struct impl final : base {
    F f;
    template <typename G> impl(G&& g) : f(std::forward<G>(g)) { }
    R call(Xs... xs) override { return f(std::forward<Xs>(xs)...); }
    base* clone() override {
      if constexpr (std::is_copy_constructible_v<F>) return new impl(static_cast<const F&>(f));
      else return nullptr;
    }
  };
  std::unique_ptr<base> p;
public:
  function() = default;
  function(std::nullptr_t) { }
  template <typename F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>
      && std::is_invocable_v<std::decay_t<F>&, Xs...>, int> = 0>
  function(F&& f)
  {
    using D = std::decay_t<F>;
    if constexpr (std::is_constructible_v<bool, D&> && !std::is_class_v<D>) { if (!f) return; }
    p.reset(new impl<D>(std::forward<F>(f)));
  }
  function(const function& o) : p{o.p ? o.p->clone() : nullptr} { }
  function(function&&) noexcept = default;
  function& operator=(const function& o) { if (this != &o) p.reset(o.p ? o.p->clone() : nullptr); return *this; }
  function& operator=(function&&) noexcept = default;
  explicit operator bool() const noexcept { return bool(p); }
  bool allocated() const noexcept { return bool(p); }
  R operator()(Xs... xs) const { return p->call(std::forward<Xs>(xs)...); }
};
}
