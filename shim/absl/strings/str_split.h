// Std-string_view versions of the three absl/strings functions libspu uses
// (the distribution's absl is built with its own string_view type).
#pragma once
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
struct ByChar { char c; explicit ByChar(char x) : c(x) {} };
inline std::vector<std::string_view> StrSplit(std::string_view s, ByChar d) {
  std::vector<std::string_view> r; size_t b = 0;
  while (true) { auto e = s.find(d.c, b); if (e == std::string_view::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; }
}
}
