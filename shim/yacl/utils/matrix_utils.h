#pragma once
#include <array>
#include "yacl/base/int128.h"
namespace yacl {
inline void SseTranspose128(std::array<uint128_t, 128>* m) {
  std::array<uint128_t, 128> r{};
  for (int i = 0; i < 128; ++i) for (int j = 0; j < 128; ++j) if (((*m)[i] >> j) & 1) r[j] |= static_cast<uint128_t>(1) << i;
  *m = r;
}
inline void MatrixTranspose128(std::array<uint128_t, 128>* m) { SseTranspose128(m); }
}
