#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
uint128_t SecureRandSeed();
inline uint128_t SecureRandU128() { return SecureRandSeed(); }
inline uint64_t SecureRandU64() { return static_cast<uint64_t>(SecureRandSeed()); }
inline uint128_t FastRandSeed() { return SecureRandSeed(); }
inline uint128_t FastRandU128() { return SecureRandSeed(); }
inline uint64_t FastRandU64() { return static_cast<uint64_t>(SecureRandSeed()); }
inline uint128_t RandSeed(bool = false) { return SecureRandSeed(); }
inline uint128_t RandU128(bool = false) { return SecureRandSeed(); }
inline uint64_t RandU64(bool = false) { return static_cast<uint64_t>(SecureRandSeed()); }
inline uint32_t RandU32(bool = false) { return static_cast<uint32_t>(SecureRandSeed()); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) {
  std::vector<uint8_t> r(n);
  FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, SecureRandSeed(), 0, 0, absl::MakeSpan(r));
  return r;
}
template <class T> T RandBits(uint64_t n, bool = false) {
  auto b = RandBytes(n); T r(n);
  for (uint64_t i = 0; i < n; ++i) r[i] = (b[i] & 1) != 0;
  return r;
}
template <class It> void ReplayShuffle(It first, It last, uint128_t seed, uint64_t* ctr) {
  auto n = static_cast<uint64_t>(last - first);
  std::vector<uint64_t> r(n);
  *ctr = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, *ctr, absl::MakeSpan(r));
  for (uint64_t i = n; i > 1; --i) std::swap(first[i - 1], first[r[i - 1] % i]);
}
}
