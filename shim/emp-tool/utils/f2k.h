// Portable GF(2^128) arithmetic, polynomial x^128 + x^7 + x^2 + x + 1.
#pragma once
#include "emp-tool/utils/block.h"
namespace emp {
using shim_u128 = unsigned __int128;
inline shim_u128 ToU(block b) { shim_u128 r; __builtin_memcpy(&r, &b, 16); return r; }
inline block FromU(shim_u128 u) { block b; __builtin_memcpy(&b, &u, 16); return b; }
inline void mul128(block a, block b, block* lo, block* hi) {
  shim_u128 x = ToU(a), y = ToU(b), l = 0, h = 0;
  for (int i = 0; i < 128; ++i) if ((y >> i) & 1) { l ^= x << i; if (i) h ^= x >> (128 - i); }
  *lo = FromU(l); *hi = FromU(h);
}
inline void gfmul(block a, block b, block* res) {
  // Russian peasant: reduce after every doubling.
  shim_u128 x = ToU(a), y = ToU(b), r = 0;
  for (int i = 0; i < 128; ++i) {
    if ((y >> i) & 1) r ^= x;
    x = (x << 1) ^ ((x >> 127) ? static_cast<shim_u128>(0x87) : static_cast<shim_u128>(0));
  }
  *res = FromU(r);
}
inline void uni_hash_coeff_gen(block* c, block seed, int n) {
  if (n <= 0) return;
  c[0] = seed;
  for (int i = 1; i < n; ++i) gfmul(c[i - 1], seed, &c[i]);
}
inline void vector_inn_prdt_sum_red(block* res, const block* a, const block* b, int n) {
  block r = zero_block, t;
  for (int i = 0; i < n; ++i) { gfmul(a[i], b[i], &t); r = r ^ t; }
  *res = r;
}
}
