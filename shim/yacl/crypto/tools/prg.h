// Deterministic pseudo-random function of (seed, iv, block counter).
// Counter arithmetic follows yacl: one count per started 16-byte block.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
uint64_t FillPRandBytes(uint128_t seed, uint64_t iv, uint64_t count, void* p, size_t n);
template <class T>
uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  static_assert(std::is_standard_layout_v<T>);
  return FillPRandBytes(seed, iv, count, out.data(), out.size() * sizeof(T));
}
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, char* p, size_t n) {
  return FillPRandBytes(seed, iv, count, p, n);
}
template <class T>
uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out, T n) {
  // one 128-bit block per element, reduced
  std::vector<uint128_t> w(out.size());
  auto c = FillPRandBytes(seed, iv, count, w.data(), w.size() * 16);
  for (size_t i = 0; i < w.size(); ++i) out[i] = static_cast<T>(w[i] % static_cast<uint128_t>(n));
  return c;
}
template <class T>
uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType t, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  constexpr int k = sizeof(T) == 4 ? 31 : sizeof(T) == 8 ? 61 : 127;
  return FillPRandWithLtN<T>(t, seed, iv, count, out, static_cast<T>((static_cast<uint128_t>(1) << k) - 1));
}
template <class T>
uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> out) {
  return FillPRandBytes(seed, 0, 0, out.data(), out.size() * sizeof(T));
}
template <class T>
class Prg {
 public:
  explicit Prg(uint128_t seed = 0) : seed_(seed) {}
  T operator()() { T r; Fill(absl::MakeSpan(&r, 1)); return r; }
  template <class Y> void Fill(absl::Span<Y> o) { c_ = FillPRandBytes(seed_, 0, c_, o.data(), o.size() * sizeof(Y)); }
 private:
  uint128_t seed_; uint64_t c_ = 0;
};
}
