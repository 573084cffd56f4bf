#pragma once
#include <cstdint>
namespace yacl {
inline bool hasAVX2() { return false; }
inline uint64_t pext_u64(uint64_t x, uint64_t m) {
  uint64_t r = 0; int k = 0;
  for (int i = 0; i < 64; ++i) if ((m >> i) & 1) { r |= ((x >> i) & 1) << k; ++k; }
  return r;
}
inline uint64_t pdep_u64(uint64_t x, uint64_t m) {
  uint64_t r = 0; int k = 0;
  for (int i = 0; i < 64; ++i) if ((m >> i) & 1) { r |= ((x >> k) & 1) << i; ++k; }
  return r;
}
}
