#pragma once
#include <immintrin.h>
#include <cstdint>
namespace emp {
using block = __m128i;
inline block makeBlock(uint64_t hi, uint64_t lo) { return _mm_set_epi64x(static_cast<long long>(hi), static_cast<long long>(lo)); }
const block zero_block = makeBlock(0, 0);
}
