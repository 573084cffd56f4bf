#pragma once
#include <array>
#include <vector>
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class OtRecvStore {
 public:
  OtRecvStore() = default;
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b) : c_(std::move(c)), b_(std::move(b)) {}
  size_t Size() const { return b_.size(); }
  bool GetChoice(size_t i) const { return c_[i]; }
  uint128_t GetBlock(size_t i) const { return b_.at(i); }
 private:
  dynamic_bitset<uint128_t> c_; std::vector<uint128_t> b_;
};
class OtSendStore {
 public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  size_t Size() const { return b_.size(); }
  uint128_t GetBlock(size_t i, size_t w) const { return b_.at(i).at(w); }
 private:
  std::vector<std::array<uint128_t, 2>> b_;
};
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return {c, b}; }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
}
