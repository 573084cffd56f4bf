#pragma once
#include <array>
#include <cstring>
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> ShimDigest(ByteContainerView d) {
  auto v = ShimSha256(std::string(reinterpret_cast<const char*>(d.data()), d.size()));
  std::array<uint8_t, 32> r; std::memcpy(r.data(), v.data(), 32); return r;
}
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { return ShimDigest(d); }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return ShimDigest(d); }
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) { return ShimDigest(d); }
inline uint128_t Blake3_128(ByteContainerView d) { auto a = ShimDigest(d); uint128_t r; std::memcpy(&r, a.data(), 16); return r; }
}
