#pragma once
// Stand-in for brigand (empty submodule).
#include <cstddef>
#include <type_traits>
#include <utility>
#include <functional>
namespace brigand
{
template <typename...> struct list { };
template <typename T> struct type_ { using type = T; };
template <std::size_t N> using size_t = std::integral_constant<std::size_t, N>;
namespace detail {
template <typename A, template <typename...> class B> struct wrap_impl;
template <template <typename...> class A, typename... T, template <typename...> class B>
struct wrap_impl<A<T...>, B> { using type = B<T...>; };
template <typename L> struct fe;
template <template <typename...> class L, typename... T> struct fe<L<T...>> {
  template <typename F> static void go(F& f) { (f(type_<T>{}), ...); }
};
template <typename A, typename B> struct append2;
template <template <typename...> class A, typename... T, template <typename...> class B, typename... U>
struct append2<A<T...>, B<U...>> { using type = A<T..., U...>; };
template <std::size_t S, typename I> struct mkseq;
template <std::size_t S, std::size_t... I> struct mkseq<S, std::index_sequence<I...>> { using type = list<size_t<S + I>...>; };
}
template <typename A, template <typename...> class B> using wrap = typename detail::wrap_impl<A, B>::type;
template <typename L, typename F> void for_each(F f) { detail::fe<L>::go(f); }
template <typename A, typename B> using append = typename detail::append2<A, B>::type;
struct _1 { };
template <template <typename...> class F, typename... A> struct bind { };
namespace detail {
template <typename L, typename B> struct tr;
template <template <typename...> class L, typename... T, template <typename...> class F>
struct tr<L<T...>, bind<F, _1>> { using type = L<F<T>...>; };
}
template <typename L, typename B> using transform = typename detail::tr<L, B>::type;
template <typename Start, std::size_t N> using make_sequence = typename detail::mkseq<Start::value, std::make_index_sequence<N>>::type;
}
