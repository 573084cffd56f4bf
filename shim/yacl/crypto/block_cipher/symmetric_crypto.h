// Deterministic keyed pseudo-random function in place of the AES block cipher.
// Only Encrypt is provided (the code under test never decrypts).
#pragma once
#include <cstdint>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType t, uint128_t key, uint128_t iv = 0) : type_(t), key_(key), iv_(iv) {}
  uint128_t Encrypt(uint128_t in) const;
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    YACL_ENFORCE(in.size() == out.size());
    for (size_t i = 0; i < in.size(); ++i) out[i] = Encrypt(in[i]);
  }
 private:
  CryptoType type_; uint128_t key_, iv_;
};
}
