#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string BytesToHexString(std::string_view s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
}
