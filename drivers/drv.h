// Shared by the drivers: JSON events, random values with a taste for boundaries, random views.
#pragma once
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <functional>
#include <random>
#include <string>
#include <vector>

#include "yacl/base/int128.h"

#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type.h"

namespace drv {
using u8 = uint8_t;
using u64 = uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;

inline FILE* out_file;
inline int64_t case_no = 0;
inline u64 seed0 = 1;
inline thread_local std::mt19937_64 rng;  // a party thread seeds its own

inline void Open(int argc, char** argv) {
  out_file = fopen(argv[1], "w");
  setvbuf(out_file, nullptr, _IOFBF, 1 << 20);
  if (argc > 2) seed0 = std::strtoull(argv[2], nullptr, 10);
  rng.seed(seed0 * 0x9E3779B97F4A7C15ULL + 1);
}
inline void NewCase() { ++case_no; fflush(out_file); }
inline void Close() { fprintf(out_file, "{\"end\":%" PRId64 "}\n", case_no); fclose(out_file); }

inline u64 R(u64 n) { return n ? rng() % n : 0; }         // 0..n-1
inline int64_t RI(int64_t a, int64_t b) { return a + static_cast<int64_t>(R(static_cast<u64>(b - a + 1))); }
inline bool Coin(int pct = 50) { return R(100) < static_cast<u64>(pct); }
inline u128 R128() { u128 h = rng(); return (h << 64) | rng(); }
template <class T> const T& Pick(const std::vector<T>& v) { return v[R(v.size())]; }

// a value of a k-bit ring, often at a boundary
inline u128 Val(int k) {
  u128 one = 1, mask = k >= 128 ? ~u128(0) : (one << k) - 1, v;
  switch (R(10)) {
    case 0: v = 0; break;
    case 1: v = R(4); break;
    case 2: v = -u128(R(4)); break;
    case 3: v = (one << (k - 1)) + R(3) - 1; break;
    case 4: v = (one << R(k)) + R(3) - 1; break;
    case 5: v = -(one << R(k)) + R(3) - 1; break;
    case 6: v = R128() & ((one << (k / 2)) - 1); break;
    default: v = R128();
  }
  return v & mask;
}

struct J {  // one event, written when it goes out of scope
  std::string s;
  bool live = true;
  explicit J(const char* op) { s = "{\"c\":" + std::to_string(case_no) + ",\"op\":\"" + op + "\""; }
  J& k(const char* n) { s += ",\""; s += n; s += "\":"; return *this; }
  J& i(const char* n, int64_t v) { k(n); s += std::to_string(v); return *this; }
  J& b(const char* n, bool v) { k(n); s += v ? "true" : "false"; return *this; }
  static std::string esc(const std::string& v) {
    std::string r = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; }
      else r += c;
    }
    return r + "\"";
  }
  J& str(const char* n, const std::string& v) { k(n); s += esc(v); return *this; }
  template <class C> J& ints(const char* n, const C& v) {
    k(n); s += '['; bool f = true;
    for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string(static_cast<int64_t>(x)); }
    s += ']'; return *this;
  }
  template <class C, class F> J& list(const char* n, const C& v, F f) {
    k(n); s += '['; bool first = true;
    for (auto& x : v) { if (!first) s += ','; first = false; s += f(x); }
    s += ']'; return *this;
  }
  J& raw(const char* n, const std::string& v) { k(n); s += v; return *this; }
  J& strs(const char* n, const std::vector<std::string>& v) { return list(n, v, [](const std::string& x) { return esc(x); }); }
  J& word(const char* n, const void* p, size_t sz);
  J& words(const char* n, const std::vector<std::string>& v) { return list(n, v, [](const std::string& x) { return x; }); }
  ~J() { if (live) { s += "}\n"; fwrite(s.data(), 1, s.size(), out_file); } }
};

inline std::string Bytes(const void* p, size_t n) {
  std::string s = "[";
  const u8* b = static_cast<const u8*>(p);
  for (size_t i = 0; i < n; ++i) { if (i) s += ','; s += std::to_string(b[i]); }
  return s + "]";
}
inline J& J::word(const char* n, const void* p, size_t sz) { return raw(n, Bytes(p, sz)); }
inline std::string W(u128 v, size_t n) { u8 b[16]; memcpy(b, &v, 16); return Bytes(b, n); }
inline std::string WList(const std::vector<u128>& v, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += W(v[i], n); }
  return s + "]";
}

// address of logical element i by the definition of strides, not by the library's accessors
inline int64_t FlatOf(const spu::NdArrayRef& a, int64_t i) {
  int64_t pos = 0;
  const auto& sh = a.shape(); const auto& st = a.strides();
  for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; --d) { pos += (i % sh[d]) * st[d]; i /= sh[d]; }
  return pos;
}
inline int64_t Numel(const spu::NdArrayRef& a) { int64_t n = 1; for (auto d : a.shape()) n *= d; return n; }
inline const u8* ElemPtr(const spu::NdArrayRef& a, int64_t i) {
  return a.buf()->data<u8>() + a.offset() + FlatOf(a, i) * static_cast<int64_t>(a.elsize());
}
// the logical elements, each as a byte word
inline std::string Elems(const spu::NdArrayRef& a) {
  std::string s = "[";
  int64_t n = Numel(a);
  for (int64_t i = 0; i < n; ++i) { if (i) s += ','; s += Bytes(ElemPtr(a, i), a.elsize()); }
  return s + "]";
}
inline spu::Shape RShape(int maxd = 3, int maxn = 4, int zero_pct = 5) {
  spu::Shape s;
  int n = static_cast<int>(R(static_cast<u64>(maxd + 1)));
  for (int i = 0; i < n; ++i) s.push_back(Coin(zero_pct) ? 0 : RI(1, maxn));
  return s;
}
// a tensor of a shape whose elements lie in a larger buffer with random (also negative) strides
inline spu::NdArrayRef RLayout(const spu::Type& ty, const spu::Shape& shape, int k, bool writable = true, int compact_pct = 25) {
  size_t es = ty.size();
  std::vector<int64_t> perm(shape.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = static_cast<int64_t>(i);
  bool compact = Coin(compact_pct);
  if (!compact) std::shuffle(perm.begin(), perm.end(), rng);
  spu::Strides st(shape.size(), 0);
  int64_t run = 1, lo = 0, hi = 0;
  for (size_t j = perm.size(); j-- > 0;) {
    auto d = perm[j];
    int64_t gap = compact ? 1 : RI(1, 3);
    int64_t sd = run * gap;
    if (!compact && Coin(25)) sd = -sd;
    if (!compact && !writable && Coin(15)) sd = 0;
    st[d] = shape[d] == 1 && compact ? 0 : sd;
    int64_t ext = std::max<int64_t>(shape[d], 1);
    if (sd > 0) hi += (ext - 1) * sd; else lo += (ext - 1) * sd;
    run = std::max<int64_t>(run, 1) * gap * ext;
  }
  if (compact) st = spu::makeCompactStrides(shape);
  int64_t pre = compact && Coin() ? 0 : RI(0, 3), post = RI(0, 3);
  int64_t total = pre - lo + hi + 1 + post;
  auto buf = std::make_shared<yacl::Buffer>(total * static_cast<int64_t>(es));
  for (int64_t i = 0; i < total; ++i) {
    u128 v = Val(k);
    u8* q = buf->data<u8>() + i * static_cast<int64_t>(es);
    for (size_t o = 0; o < es; o += 16) memcpy(q + o, &v, std::min<size_t>(16, es - o));
  }
  return spu::NdArrayRef(buf, ty, shape, st, (pre - lo) * static_cast<int64_t>(es));
}
// the whole underlying buffer as words, and where each logical element lies in it
inline std::string Whole(const spu::NdArrayRef& a) {
  std::string s = "[";
  int64_t n = a.buf() ? a.buf()->size() / static_cast<int64_t>(a.elsize()) : 0;
  for (int64_t i = 0; i < n; ++i) { if (i) s += ','; s += Bytes(a.buf()->data<u8>() + i * static_cast<int64_t>(a.elsize()), a.elsize()); }
  return s + "]";
}
inline std::vector<int64_t> Where(const spu::NdArrayRef& a) {
  std::vector<int64_t> r;
  for (int64_t i = 0, n = Numel(a); i < n; ++i) r.push_back(a.offset() / static_cast<int64_t>(a.elsize()) + FlatOf(a, i) + 1);
  return r;
}
}  // namespace drv
