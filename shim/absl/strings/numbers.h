#pragma once
#include <charconv>
#include <type_traits>
#include <utility>
#include "absl/strings/ascii.h"
namespace absl {
template <class T> bool SimpleAtoi(std::string_view s, T* o) {
  s = StripAsciiWhitespace(s); auto r = std::from_chars(s.data(), s.data() + s.size(), *o);
  return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
template <class V, class T, class = std::enable_if_t<!std::is_convertible_v<const V&, std::string_view>>, class = decltype(static_cast<std::string_view>(std::declval<const V&>()))>
bool SimpleAtoi(const V& v, T* o) { return SimpleAtoi(static_cast<std::string_view>(v), o); }
}
