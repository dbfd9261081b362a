// Force-included before every translation unit: makes the sources compile against the
// installed (newer) fmt and the standard headers the missing libraries used to pull in.
#pragma once
// libossia calls format_to unqualified; hide std::format_to so that only fmt's is found
#define format_to std_format_to_hidden
#include <chrono>
#include <format>
#undef format_to
#include <memory>
#include <sstream>
#include <vector>
#include <functional>
#include <fmt/format.h>
namespace fmt
{
template <typename S, typename... Args, size_t N>
inline auto format_to(basic_memory_buffer<char, N>& b, const S& f, Args&&... args)
    -> decltype(fmt::string_view(f), void())
{
  fmt::vformat_to(std::back_inserter(b), fmt::string_view(f), fmt::make_format_args(args...));
}
}
// the logging calls print parameters through an ostream formatter fmt no longer provides
namespace ossia::net { class parameter_base; }
template <> struct fmt::formatter<ossia::net::parameter_base>
{
  constexpr auto parse(fmt::format_parse_context& c) { return c.begin(); }
  template <typename C> auto format(const ossia::net::parameter_base&, C& c) const { return c.out(); }
};
