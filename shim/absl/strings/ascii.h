#pragma once
#include <algorithm>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string_view StripAsciiWhitespace(std::string_view s) {
  auto w = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && w(s.front())) s.remove_prefix(1);
  while (!s.empty() && w(s.back())) s.remove_suffix(1);
  return s;
}
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (auto& c : r) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return r; }
}
