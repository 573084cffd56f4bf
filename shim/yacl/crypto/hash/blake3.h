// SHA-256 in place of BLAKE3 (same digest length).
#pragma once
#include <memory>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
std::vector<uint8_t> ShimSha256(const std::string& s);
class Blake3Hash : public HashInterface {
 public:
  HashAlgorithm GetHashAlgorithm() const override { return HashAlgorithm::BLAKE3; }
  size_t DigestSize() const override { return 32; }
  HashInterface& Reset() override { s_.clear(); return *this; }
  HashInterface& Update(ByteContainerView d) override { s_.append(reinterpret_cast<const char*>(d.data()), d.size()); return *this; }
  std::vector<uint8_t> CumulativeHash() const override { return ShimSha256(s_); }
 private:
  std::string s_;
};
}
