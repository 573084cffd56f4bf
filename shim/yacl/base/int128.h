#pragma once
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <utility>
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
constexpr uint128_t MakeUint128(uint64_t h, uint64_t l) {
  return (static_cast<uint128_t>(h) << 64) | l;
}
constexpr int128_t MakeInt128(int64_t h, uint64_t l) {
  return static_cast<int128_t>((static_cast<uint128_t>(h) << 64) | l);
}
inline std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
}  // namespace yacl
namespace std {
inline ostream& operator<<(ostream& o, uint128_t v) {
  if (v == 0) return o << '0';
  std::string s;
  while (v != 0) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; }
  return o << s;
}
inline ostream& operator<<(ostream& o, int128_t v) {
  if (v < 0) { o << '-'; return o << (~static_cast<uint128_t>(v) + 1); }
  return o << static_cast<uint128_t>(v);
}
}  // namespace std
