#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string_view>
#include <utility>
#include "yacl/base/byte_container_view.h"
namespace yacl {
class Buffer {
 public:
  Buffer() = default;
  explicit Buffer(int64_t n) : p_(alloc(n)), n_(n), c_(n) {
    // Fresh buffers are poisoned, so that a read of memory nobody wrote is
    // deterministic and wrong rather than accidentally zero.
    if (n > 0) std::memset(p_, 0xA5, static_cast<size_t>(n));
  }
  Buffer(const void* src, size_t n) : Buffer(static_cast<int64_t>(n)) {
    if (n > 0) std::memcpy(p_, src, n);
  }
  Buffer(void* p, size_t n, std::function<void(void*)> d)
      : p_(p), n_(static_cast<int64_t>(n)), c_(n_), d_(std::move(d)) {}
  explicit Buffer(ByteContainerView s) : Buffer(s.data(), s.size()) {}
  Buffer(const Buffer& o) : Buffer(o.p_, static_cast<size_t>(o.n_)) {}
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(const Buffer& o) { Buffer t(o); swap(t); return *this; }
  Buffer& operator=(Buffer&& o) noexcept { swap(o); return *this; }
  ~Buffer() { drop(); }
  template <class T = void> T* data() { return static_cast<T*>(p_); }
  template <class T = void> const T* data() const { return static_cast<const T*>(p_); }
  int64_t size() const { return n_; }
  int64_t capacity() const { return c_; }
  void resize(int64_t n) {
    if (n <= c_) { n_ = n; return; }
    Buffer t(n);
    if (n_ > 0) std::memcpy(t.p_, p_, static_cast<size_t>(n_));
    swap(t);
  }
  void reserve(int64_t n) { auto m = n_; if (n > c_) { resize(n); n_ = m; } }
  void reset() { Buffer t; swap(t); }
  void* release() { void* r = p_; p_ = nullptr; n_ = c_ = 0; d_ = nullptr; return r; }
  explicit operator std::string_view() const {
    return {static_cast<const char*>(p_), static_cast<size_t>(n_)};
  }
  bool operator==(const Buffer& o) const {
    return n_ == o.n_ && (n_ == 0 || std::memcmp(p_, o.p_, static_cast<size_t>(n_)) == 0);
  }

 private:
  static void* alloc(int64_t n) {
    if (n <= 0) return nullptr;
    return std::aligned_alloc(64, (static_cast<size_t>(n) + 127) / 64 * 64);
  }
  void drop() { if (d_) d_(p_); else std::free(p_); p_ = nullptr; }
  void swap(Buffer& o) noexcept { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(c_, o.c_); std::swap(d_, o.d_); }
  void* p_ = nullptr;
  int64_t n_ = 0, c_ = 0;
  std::function<void(void*)> d_;
};
}  // namespace yacl
