// Bit utilities and bit circuits, in the clear and on shares.
#include "mpc.h"
#include "libspu/core/bit_utils.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/mpc/utils/circuits.h"
using namespace drv;
using spu::mpc::CircuitBasicBlock;

template <class T> std::string WL(const std::vector<T>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ','; s += Bytes(&x, sizeof(T)); } return s + "]"; }
template <class T> std::vector<T> RV(size_t n) { std::vector<T> r(n); for (auto& x : r) x = static_cast<T>(Val(sizeof(T) * 8)); return r; }

template <class T> void Perm(const std::vector<T>& x, int64_t s, int64_t n, bool inv) {
  std::vector<T> z;
  for (auto v : x) z.push_back(inv ? spu::BitIntl<T>(v, s, n) : spu::BitDeintl<T>(v, s, n));
  NewCase();
  J(inv ? "intl" : "deintl").i("s", s).i("n", n == -1 ? sizeof(T) * 8 : n).i("w", sizeof(T)).raw("x", WL(x)).raw("z", WL(z));
}
template <class T> void Perms(int reps) {
  const int64_t k = sizeof(T) * 8;
  for (int64_t s = 0; s <= spu::Log2Ceil(k); ++s)
    for (int inv = 0; inv < 2; ++inv) {
      for (int r = 0; r < reps; ++r) Perm<T>(RV<T>(6), s, -1, inv);
      Perm<T>(RV<T>(4), s, RI(1, k), inv);
    }
  for (int64_t n = 1; n <= k; n = n < 8 ? n + 1 : RI(n + 1, n + n / 3))
    for (int inv = 0; inv < 2; ++inv) Perm<T>(RV<T>(3), RI(0, spu::Log2Ceil(n)), n, inv);
}
template <class T> CircuitBasicBlock<T> ScalarCBB() {
  CircuitBasicBlock<T> c;
  c._xor = [](T const& a, T const& b) -> T { return a ^ b; };
  c._and = [](T const& a, T const& b) -> T { return a & b; };
  c.lshift = [](T const& x, const Sizes& b) -> T { return static_cast<T>(x << b[0]); };
  c.rshift = [](T const& x, const Sizes& b) -> T { return static_cast<T>(x >> b[0]); };
  c.init_like = [](T const&, uint128_t i) -> T { return static_cast<T>(i); };
  c.set_nbits = [](T&, size_t) {};
  return c;
}
template <class C, class T = typename C::value_type> CircuitBasicBlock<C> VectorCBB() {
  CircuitBasicBlock<C> c; auto s = ScalarCBB<T>();
  c._xor = [](C const& a, C const& b) { C r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] ^ b[i]); return r; };
  c._and = [](C const& a, C const& b) { C r; for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] & b[i]); return r; };
  c.lshift = [](C const& a, const Sizes& b) { C r; for (size_t i = 0; i < a.size(); ++i) r.push_back(static_cast<T>(a[i] << b[0])); return r; };
  c.rshift = [](C const& a, const Sizes& b) { C r; for (size_t i = 0; i < a.size(); ++i) r.push_back(static_cast<T>(a[i] >> b[0])); return r; };
  c.init_like = [](C const& a, uint128_t i) { return C(a.size(), static_cast<T>(i)); };
  c.set_nbits = [](C&, size_t) {};
  return c;
}
template <class T> void Circ(const std::vector<T>& x, const std::vector<T>& y, const char* f, size_t nb) {
  bool vec = Coin();
  std::vector<T> z;
  std::string F = f;
  auto run = [&](auto& cbb, auto const& a, auto const& b) {
    return F == "ks" ? spu::mpc::kogge_stone(cbb, a, b, nb) : F == "sk" ? spu::mpc::sklansky(cbb, a, b, nb)
         : F == "carry" ? spu::mpc::carry_out(cbb, a, b, nb) : spu::mpc::odd_even_split(cbb, a, nb);
  };
  if (vec) { auto c = VectorCBB<std::vector<T>>(); z = run(c, x, y); }
  else { auto c = ScalarCBB<T>(); for (size_t i = 0; i < x.size(); ++i) z.push_back(run(c, x[i], y[i])); }
  NewCase();
  J(F == "ks" || F == "sk" ? "add" : F == "carry" ? "carry" : "split").str("f", F).i("n", nb).i("w", sizeof(T)).raw("x", WL(x)).raw("y", WL(y)).raw("z", WL(z));
}
template <class T> void Circuits(int reps) {
  const size_t k = sizeof(T) * 8;
  for (int r = 0; r < reps; ++r)
    for (size_t nb = 1; nb <= k; nb = k <= 32 ? nb + 1 : nb + 1 + R(4)) {
      auto x = RV<T>(4), y = RV<T>(4);
      for (size_t i = 0; i < x.size(); ++i) if (Coin()) y[i] = static_cast<T>(Coin() ? ~x[i] + R(2) : -x[i]);
      Circ<T>(x, y, "ks", nb); Circ<T>(x, y, "sk", nb);
      Circ<T>(x, y, "carry", nb);
      if (nb % 2 == 0) {
        if (nb < k) for (auto& v : x) v &= static_cast<T>((u128(1) << nb) - 1);
        Circ<T>(x, y, "split", nb);
      }
    }
}

void Shared(const Proto& p, int k, int reps, int64_t f7 = 0) {
  namespace hal = spu::kernel::hal;
  auto w = MakeWorld(p, FieldOf(k));
  for (int rep = 0; rep < reps; ++rep)
    for (int f = 0; f < 10; ++f) {
      Shape sh = {3};
      auto x = Vals(3, k), y = Vals(3, k);
      int64_t n = k, s = 0;
      if (f == 2) { s = RI(0, k - 1); n = RI(s, k); }
      if (f == 3 || f == 4) s = RI(0, 3);
      if (f == 5) { n = Coin() ? RI(1, k) : k; }
      if (f == 1) n = Coin() ? k - 1 : int64_t(1) << R(spu::Log2Ceil(k) + 1);
      if (f == 6) n = int64_t(1) << R(spu::Log2Ceil(k) + 1);
      if (f == 7) n = f7 > 0 ? f7 : Coin(30) ? k : Coin(30) ? 2 * RI(0, 2) + 1 : 2 * RI(1, k / 2);
      if (f7 > 0 && f != 7) continue;
      if (Coin(30)) for (size_t i = 0; i < 3; ++i) y[i] = -x[i] - R(2);
      if (f == 6 && n < k) for (auto& v : x) v &= (u128(1) << n) - 1;
      int vis = f7 > 0 ? 0 : static_cast<int>(R(3)); // of y for carry / of x for hal
      if (p.kind == ProtocolKind::REF2K && (f < 2 || f == 3 || f == 4)) continue;  // has no boolean shares
      // boolean shares declare the width of their widest public value
      int kb = f == 1 ? k : f < 5 && f != 2 ? (Coin(60) ? k : 1 << RI(0, spu::Log2Ceil(k))) : k;
      if (f < 5 && f != 2) for (auto* q : {&x, &y}) { if (kb < 128) for (auto& v : *q) v &= (u128(1) << kb) - 1; (*q)[R(3)] |= u128(1) << (kb - 1); }
      std::vector<std::vector<u128>> z(w->n());
      bool ok = w->Run([&](size_t r, SPUContext* c) {
        auto px = Pub(c, x, sh), py = Pub(c, y, sh);
        Value v;
        auto b = [&](const Value& q) { return spu::mpc::a2b(c, spu::mpc::p2a(c, q)); };
        auto sx = [&] { return p.kind == ProtocolKind::REF2K ? spu::mpc::p2s(c, px) : vis == 0 ? spu::mpc::p2b(c, px) : spu::mpc::p2a(c, px); };
        auto hx = [&] { return vis == 2 ? px : sx(); };
        if (f == 0) v = kb == k && vis ? spu::mpc::add_bb(c, b(px), vis == 2 ? b(py) : spu::mpc::p2b(c, py)) : spu::mpc::add_bb(c, spu::mpc::p2b(c, px), spu::mpc::p2b(c, py));
        if (f == 1) v = spu::mpc::carry_a2b(c, kb == k && vis ? b(px) : spu::mpc::p2b(c, px), spu::mpc::p2b(c, py), n);
        if (f == 2) v = hal::_bitrev(c, hx(), s, n);
        if (f == 3) v = spu::mpc::bitdeintl_b(c, spu::mpc::p2b(c, px), s);
        if (f == 4) v = spu::mpc::bitintl_b(c, spu::mpc::p2b(c, px), s);
        if (f == 5) v = hal::_bitdeintl(c, hx());
        if (f == 6) v = hal::_bit_parity(c, hx(), n);
        if (f == 7) v = hal::_popcount(c, hx(), n);
        if (f == 8) v = hal::_prefix_or(c, hx());
        if (f == 9) v = spu::kernel::hal::detail::highestOneBit(c, hx());
        Value o = v;
        if (v.isSecret()) o = spu::mpc::s2p(c, v);
        z[r] = ToWords(o.data());
      });
      size_t es = static_cast<size_t>(k / 8);
      const char* name[] = {"add", "carry0", "bitrev", "deintl", "intl", "deintl", "parity", "popcount", "prefixor", "leading"};
      NewCase();
      if (!ok) { J("fail").str("f", name[f]).str("key", f == 7 && f7 > 0 ? "popcount-of-7-bits" : "").strs("err", w->err); w = MakeWorld(p, FieldOf(k)); continue; }
      if (f == 0 || f == 3 || f == 4) n = kb;
      if (f == 5) n = k;
      for (size_t r = 0; r < w->n(); ++r)
        if (r == 0 || z[r] != z[0])
          J(name[f]).str("p", p.name).i("n", n).i("s", s).i("w", es).i("vis", vis).raw("x", WList(x, es)).raw("y", WList(y, es)).raw("z", WList(z[r], es));
    }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int m = argc > 3 ? atoi(argv[3]) : 1;
  {
    std::vector<u64> v;
    for (u64 i = 0; i < 70; ++i) v.push_back(i);
    for (int b = 0; b < 64; ++b) for (int d = -1; d <= 1; ++d) v.push_back((u64(1) << b) + d);
    for (int i = 0; i < 50; ++i) v.push_back(rng() >> R(64));
    for (size_t i = 0; i < v.size(); i += 16) {
      std::vector<u64> x(v.begin() + i, v.begin() + std::min(v.size(), i + 16));
      std::vector<int64_t> f, c, b;
      for (auto t : x) { f.push_back(spu::Log2Floor(t)); c.push_back(spu::Log2Ceil(t)); b.push_back(spu::BitWidth(t)); }
      NewCase(); J("log2floor").raw("x", WL(x)).ints("z", f);
      NewCase(); J("log2ceil").raw("x", WL(x)).ints("z", c);
      NewCase(); J("bitwidth").raw("x", WL(x)).ints("z", b);
    }
    auto bw = [&](auto t) {
      using T = decltype(t);
      std::vector<T> x = RV<T>(12); for (auto& q : x) q >>= R(sizeof(T) * 8);
      x.push_back(0); x.push_back(1); x.push_back(static_cast<T>(-1));
      std::vector<int64_t> b; for (auto q : x) b.push_back(spu::BitWidth(q));
      NewCase(); J("bitwidth").raw("x", WL(x)).ints("z", b);
    };
    for (int i = 0; i < 3; ++i) { bw(u8(0)); bw(uint16_t(0)); bw(uint32_t(0)); bw(u64(0)); bw(u128(0)); }
  }
  // 8-bit words exhaustively
  for (int64_t s = 0; s <= 3; ++s)
    for (int inv = 0; inv < 2; ++inv)
      for (int b = 0; b < 256; b += 32) { std::vector<u8> x; for (int i = 0; i < 32; ++i) x.push_back(b + i); Perm<u8>(x, s, Coin() ? -1 : 8, inv); }
  for (int r = 0; r < m; ++r) { Perms<u8>(1); Perms<uint16_t>(2); Perms<uint32_t>(2); Perms<u64>(2); Perms<u128>(2); }
  for (int64_t s = 0; s <= 7; ++s) {
    auto x = RV<u64>(6); std::vector<u64> z, y;
    for (auto v : x) { z.push_back(spu::detail::BitDeintlWithPdepext(v, s)); y.push_back(spu::detail::BitIntlWithPdepext(v, s)); }
    NewCase(); J("deintl").i("s", s).i("n", 64).i("w", 8).raw("x", WL(x)).raw("z", WL(z));
    NewCase(); J("intl").i("s", s).i("n", 64).i("w", 8).raw("x", WL(x)).raw("z", WL(y));
  }
  // small circuits exhaustively: all x for random y
  for (size_t nb = 1; nb <= 8; ++nb)
    for (int b = 0; b < 256; b += 32) {
      std::vector<u8> x, y; for (int i = 0; i < 32; ++i) { x.push_back(b + i); y.push_back(static_cast<u8>(rng())); }
      for (auto f : {"ks", "sk", "carry"}) Circ<u8>(x, y, f, nb);
    }
  for (int r = 0; r < m; ++r) { Circuits<uint16_t>(1); Circuits<uint32_t>(1); Circuits<u64>(1); Circuits<u128>(1); }
  std::vector<int> ks = m > 1 ? std::vector<int>{32, 64, 128} : std::vector<int>{32, 64, 128};
  for (auto k : ks) { Shared(P("SEMI2K", 2), k, m); Shared(P("SEMI2K", 3), k, m); Shared(P("ABY3", 3), k, m); Shared(P("REF2K", 2), k, m); Shared(P("SECURENN", 3), k, m); }
  Shared(P("SWIFT", 3), 64, m);
  Shared(P("SEMI2K", 2), 64, 1, 7);
  Close();
}
