// A keyed, checked, injective "encryption" in place of SM2. Keys are opaque
// byte strings: public key "PUB:<id>", private key "PRI:<id>".
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
namespace yacl::crypto {
class PkeEncryptor { public: virtual ~PkeEncryptor() = default; virtual std::vector<uint8_t> Encrypt(ByteContainerView) = 0; };
class PkeDecryptor { public: virtual ~PkeDecryptor() = default; virtual std::vector<uint8_t> Decrypt(ByteContainerView) = 0; };
class Sm2Encryptor : public PkeEncryptor {
 public:
  explicit Sm2Encryptor(ByteContainerView k) : id_(std::string(reinterpret_cast<const char*>(k.data()), k.size())) { YACL_ENFORCE(id_.substr(0, 4) == "PUB:"); id_ = id_.substr(4); }
  std::vector<uint8_t> Encrypt(ByteContainerView) override;
 private:
  std::string id_;
};
class Sm2Decryptor : public PkeDecryptor {
 public:
  explicit Sm2Decryptor(ByteContainerView k) : id_(std::string(reinterpret_cast<const char*>(k.data()), k.size())) { YACL_ENFORCE(id_.substr(0, 4) == "PRI:"); id_ = id_.substr(4); }
  std::vector<uint8_t> Decrypt(ByteContainerView) override;
 private:
  std::string id_;
};
}
