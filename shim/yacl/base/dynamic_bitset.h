#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include "yacl/base/int128.h"
#include "absl/numeric/int128.h"
#ifdef __GLIBCXX__
// gcc 13 made this a hidden friend; the code under test calls std::swap.
namespace std { void swap(_Bit_reference, _Bit_reference) noexcept; }
#endif
namespace yacl {
template <class B = uint128_t>
class dynamic_bitset {
 public:
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n) : v_(n, 0) {}
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void resize(size_t n) { v_.resize(n, 0); }
  void push_back(bool b) { v_.push_back(b); }
  void set(size_t i, bool b = true) { v_.at(i) = b; }
  struct ref { uint8_t& r; operator bool() const { return r; } ref& operator=(bool b) { r = b; return *this; } };
  ref operator[](size_t i) { return ref{v_.at(i)}; }
  bool operator[](size_t i) const { return v_.at(i); }
  bool test(size_t i) const { return v_.at(i); }
 private:
  std::vector<uint8_t> v_;
};
}
