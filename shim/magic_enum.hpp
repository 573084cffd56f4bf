// Subset of magic_enum: names of enumerators with values in [-8, 128).
#pragma once
#include <array>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
namespace magic_enum {
namespace detail {
template <class E, E V> constexpr std::string_view n() {
  std::string_view s = __PRETTY_FUNCTION__;
  auto p = s.find("V = ");
  s = s.substr(p + 4);
  auto e = s.find_first_of(";]");
  s = s.substr(0, e);
  if (s.empty() || s[0] == '(' || s[0] == '-' || (s[0] >= '0' && s[0] <= '9')) return {};
  auto c = s.rfind("::");
  return c == std::string_view::npos ? s : s.substr(c + 2);
}
template <class E, int... I> constexpr auto mk(std::integer_sequence<int, I...>) {
  return std::array<std::string_view, sizeof...(I)>{n<E, static_cast<E>(I)>()...};
}
template <class E> const auto& names() { static constexpr auto a = mk<E>(std::make_integer_sequence<int, 64>()); return a; }
}  // namespace detail
template <class E> std::string_view enum_name(E e) {
  auto v = static_cast<int>(e); const auto& a = detail::names<E>();
  return v >= 0 && v < static_cast<int>(a.size()) ? a[static_cast<size_t>(v)] : std::string_view{};
}
template <class E> std::optional<E> enum_cast(std::string_view s) {
  const auto& a = detail::names<E>();
  for (size_t i = 0; i < a.size(); ++i) if (!a[i].empty() && a[i] == s) return static_cast<E>(i);
  return std::nullopt;
}
template <class E> std::optional<E> enum_cast(int v) { if (enum_name(static_cast<E>(v)).empty()) return std::nullopt; return static_cast<E>(v); }
}  // namespace magic_enum
