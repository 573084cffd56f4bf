// C14: local numeric kernels on random values, shapes, strides; whole output buffers are recorded.
#include "drv.h"

#include "libspu/core/context.h"
#include "libspu/core/vectorize.h"
#include "libspu/mpc/utils/gfmp.h"
#include "libspu/mpc/utils/gfmp_ops.h"
#include "libspu/mpc/utils/linalg.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "libspu/mpc/utils/tiling_util.h"

using namespace spu;
using namespace spu::mpc;
using namespace drv;

template <class T>
void MatMul(int maxd) {
  NewCase();
  auto dim = [&]() -> int64_t { return Coin(8) ? 0 : RI(1, maxd); };
  int64_t M = dim(), N = dim(), K = dim();
  if (Coin(20)) { M = N = K = RI(1, maxd); }
  auto strides = [&](int64_t r, int64_t c, int64_t& ld, int64_t& id, bool out) {
    id = Coin(60) ? 1 : RI(1, 3);
    if (!out && Coin(10)) { ld = 0; id = RI(0, 1); return; }   // broadcast operand
    ld = Coin(50) ? c * id : c * id + RI(0, 4);
    if (Coin(25)) { ld = Coin(60) ? 1 : RI(1, 3); id = r * ld + RI(0, 3); if (id == 0) id = 1; }  // column-major
  };
  int64_t lda, ida, ldb, idb, ldc, idc;
  strides(M, K, lda, ida, false); strides(K, N, ldb, idb, false); strides(M, N, ldc, idc, true);
  auto ext = [](int64_t r, int64_t c, int64_t ld, int64_t id) { return r && c ? (r - 1) * ld + (c - 1) * id + 1 : 0; };
  std::vector<T> a(ext(M, K, lda, ida) + 1), b(ext(K, N, ldb, idb) + 1), c(ext(M, N, ldc, idc) + 4);
  for (auto& v : a) v = static_cast<T>(Val(sizeof(T) * 8));
  for (auto& v : b) v = static_cast<T>(Val(sizeof(T) * 8));
  for (auto& v : c) v = static_cast<T>(Val(sizeof(T) * 8));
  auto dump = [](const std::vector<T>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += Bytes(&v[i], sizeof(T)); } return s + "]"; };
  J e("matmul");
  e.i("w", sizeof(T)).i("M", M).i("N", N).i("K", K).i("lda", lda).i("ida", ida).i("ldb", ldb).i("idb", idb).i("ldc", ldc).i("idc", idc).raw("A", dump(a)).raw("B", dump(b)).raw("C0", dump(c));
  linalg::matmul<T>(M, N, K, a.data(), lda, ida, b.data(), ldb, idb, c.data(), ldc, idc);
  e.raw("C1", dump(c));
}

void RingOps(FieldType f, int maxn) {
  NewCase();
  int k = SizeOf(f) * 8, w = SizeOf(f);
  Type ty = makeType<RingTy>(f);
  Shape sh = RShape(3, maxn);
  auto x = RLayout(ty, sh, k, false), y = RLayout(ty, sh, k, false);
  static const std::vector<std::string> bin{"add", "sub", "mul", "and", "xor", "equal"};
  static const std::vector<std::string> un{"not", "neg", "lshift", "rshift", "arshift", "bitrev", "bitmask", "mulc"};
  auto mk = [&](const std::string& n, const NdArrayRef& a, const NdArrayRef* b, const NdArrayRef& o) {
    J e("ew"); e.str("f", n).i("w", w).raw("x", Elems(a)).raw("out", Elems(o)).ints("sh", sh).ints("osh", o.shape());
    if (b) e.raw("y", Elems(*b));
    e.live = false; return e.s;
  };
  auto emit = [&](std::string s) { s += "}\n"; fwrite(s.data(), 1, s.size(), out_file); };
  std::string xb = Elems(x), yb = Elems(y);
  if (Coin(50)) {
    auto n = Pick(bin);
    NdArrayRef o = n == "add" ? ring_add(x, y) : n == "sub" ? ring_sub(x, y) : n == "mul" ? ring_mul(x, y) : n == "and" ? ring_and(x, y) : n == "xor" ? ring_xor(x, y) : ring_equal(x, y);
    emit(mk(n, x, &y, o));
    // in place, through a view of a larger buffer
    auto z = RLayout(ty, sh, k, true);
    J e("inplace"); e.str("f", n).i("w", w).raw("x", Elems(z)).raw("y", Elems(y)).raw("P0", Whole(z)).ints("at", Where(z));
    n == "add" ? ring_add_(z, y) : n == "sub" ? ring_sub_(z, y) : n == "mul" ? ring_mul_(z, y) : n == "and" ? ring_and_(z, y) : n == "xor" ? ring_xor_(z, y) : ring_equal_(z, y);
    e.raw("P1", Whole(z));
  } else {
    auto n = Pick(un);
    u128 c = Val(k);
    int64_t s = RI(0, k - 1), t = RI(1, k);
    if (Coin(15)) { s = 0; t = k; }
    if (s >= t) std::swap(s, t);
    if (s == t) t = s + 1;
    Sizes bits;
    if (Coin()) bits.push_back(RI(0, k - 1));
    else for (int64_t i = 0; i < sh.numel(); ++i) bits.push_back(RI(0, k - 1));
    if (bits.empty()) bits.push_back(1);
    auto attrs = [&](std::string q) { return q + ",\"cst\":" + W(c, w) + ",\"s\":" + std::to_string(s) + ",\"t\":" + std::to_string(t) + ",\"bits\":" + [&] { std::string r = "["; for (size_t i = 0; i < bits.size(); ++i) { if (i) r += ','; r += std::to_string(bits[i]); } return r + "]"; }(); };
    auto go = [&](const NdArrayRef& a) {
      return n == "not" ? ring_not(a) : n == "neg" ? ring_neg(a) : n == "lshift" ? ring_lshift(a, bits) : n == "rshift" ? ring_rshift(a, bits) : n == "arshift" ? ring_arshift(a, bits) : n == "bitrev" ? ring_bitrev(a, s, t) : n == "bitmask" ? ring_bitmask(a, s, t) : ring_mul(a, c);
    };
    emit(attrs(mk(n, x, nullptr, go(x))));
    auto z = RLayout(ty, sh, k, true);
    J e("inplace"); e.str("f", n).i("w", w).raw("x", Elems(z)).raw("P0", Whole(z)).ints("at", Where(z)).raw("cst", W(c, w)).i("s", s).i("t", t).ints("bits", bits);
    if (n == "not") ring_not_(z); else if (n == "neg") ring_neg_(z); else if (n == "lshift") ring_lshift_(z, bits); else if (n == "rshift") ring_rshift_(z, bits); else if (n == "arshift") ring_arshift_(z, bits);
    else if (n == "bitrev") ring_bitrev_(z, s, t); else if (n == "bitmask") ring_bitmask_(z, s, t); else ring_mul_(z, c);
    e.raw("P1", Whole(z));
  }
  J("same").raw("a", xb).raw("b", Elems(x));
  J("same").raw("a", yb).raw("b", Elems(y));
  switch (R(7)) {
    case 0: { // assign through a view
      auto z = RLayout(ty, sh, k, true);
      J e("inplace"); e.str("f", "copy").i("w", w).raw("x", Elems(z)).raw("y", Elems(y)).raw("P0", Whole(z)).ints("at", Where(z));
      ring_assign(z, y);
      e.raw("P1", Whole(z));
      break;
    }
    case 1: {
      std::vector<uint8_t> c;
      for (int64_t i = 0; i < sh.numel(); ++i) c.push_back(R(2));
      auto o = ring_select(c, x, y);
      J("select").i("w", w).ints("sel", c).raw("x", Elems(x)).raw("y", Elems(y)).raw("out", Elems(o));
      break;
    }
    case 2: {
      auto c = ring_cast_boolean(x);
      J("castbool").i("w", w).raw("x", Elems(x)).ints("out", c);
      break;
    }
    case 3: {
      std::vector<NdArrayRef> v{x, y};
      while (Coin(60)) v.push_back(RLayout(ty, sh, k, false));
      if (Coin(10)) v = {y};
      auto o = ring_sum(v);
      J("sum").i("w", w).list("xs", v, [](const NdArrayRef& a) { return Elems(a); }).raw("out", Elems(o));
      break;
    }
    case 4: {
      bool bx = Coin();
      size_t n = static_cast<size_t>(RI(2, 5));
      auto v = bx ? ring_rand_boolean_splits(x, n) : ring_rand_additive_splits(x, n);
      J("splits").str("f", bx ? "xor" : "add").i("w", w).i("n", static_cast<int64_t>(n)).list("xs", v, [](const NdArrayRef& a) { return Elems(a); }).raw("out", Elems(x));
      break;
    }
    case 5: {
      auto z = y.clone();
      int d = static_cast<int>(RI(0, 3));
      DISPATCH_ALL_FIELDS(f, [&]() {
        NdArrayView<ring2k_t> _x(x);
        NdArrayView<ring2k_t> _z(z);
        for (int64_t i = 0; i < sh.numel(); ++i) {   // keep away from overflow of the signed difference
          u128 v = Val(k - 3);
          if (x.isCompact()) _x[i] = static_cast<ring2k_t>(v);
          _z[i] = _x[i] + static_cast<ring2k_t>(RI(-3, 3) * (Coin(70) ? 0 : 1));
        }
      });
      bool eq = true, risky = !x.isCompact();
      if (!risky) {
        eq = ring_all_equal(x, z, static_cast<size_t>(d));
        J("allequal").i("w", w).raw("x", Elems(x)).raw("y", Elems(z)).i("err", d).b("out", eq);
      }
      break;
    }
    default: {
      u128 lo = Val(k - 2), span = Val(static_cast<int>(RI(1, k - 2)));
      auto o = ring_rand_range(f, sh, lo, lo + span);
      J("range").i("w", w).raw("lo", W(lo, w)).raw("hi", W(lo + span, w)).raw("out", Elems(o));
      auto b = ring_randbit(f, sh);
      J("range").i("w", w).raw("lo", W(0, w)).raw("hi", W(1, w)).raw("out", Elems(b));
      J("fill").i("w", w).raw("v", W(0, w)).raw("out", Elems(ring_zeros(f, sh))).ints("sh", sh);
      J("fill").i("w", w).raw("v", W(1, w)).raw("out", Elems(ring_ones(f, sh))).ints("sh", sh);
    }
  }
}

void RingMmul(FieldType f) {
  NewCase();
  int k = SizeOf(f) * 8, w = SizeOf(f);
  Type ty = makeType<RingTy>(f);
  auto d = [] { return Coin(5) ? 0 : RI(1, 5); };
  int64_t m = d(), n = d(), kk = d();
  auto x = RLayout(ty, {m, kk}, k, false), y = RLayout(ty, {kk, n}, k, false);
  J e("mmul"); e.i("w", w).i("M", m).i("N", n).i("K", kk).raw("x", Elems(x)).raw("y", Elems(y));
  e.raw("out", Elems(ring_mmul(x, y)));
  e.live = true;
}

void Gfmp(FieldType f) {
  NewCase();
  int w = SizeOf(f), p = static_cast<int>(GetMersennePrimeExp(f));
  Type ty = makeType<GfmpTy>(f);
  u128 prime = (u128(1) << p) - 1;
  Shape sh = RShape(2, 3);
  auto mkv = [&](bool full, bool nz) {
    auto a = RLayout(ty, sh, w * 8, true);
    for (int64_t i = 0; i < Numel(a); ++i) {
      u128 v = Val(full ? w * 8 : p);
      if (!full) { v = Coin(10) ? prime - 1 : v; if (v >= prime) v -= prime; if (nz && v == 0) v = 1 + R(5); }
      memcpy(const_cast<u8*>(ElemPtr(a, i)), &v, w);
    }
    return a;
  };
  auto x = mkv(false, false), y = mkv(false, true), t = mkv(true, false), z = mkv(false, false);
  auto one = [&](const char* n, const NdArrayRef& a, const NdArrayRef& b, const NdArrayRef& o) {
    J("gf").str("f", n).i("w", w).i("p", p).raw("x", Elems(a)).raw("y", Elems(b)).raw("out", Elems(o));
  };
  one("add", x, z, gfmp_add_mod(x, z));
  one("sub", x, z, gfmp_sub_mod(x, z));
  one("mul", x, z, gfmp_mul_mod(x, z));
  one("mod", t, t, gfmp_mod(t));
  if (Coin(30)) one("div", x, y, gfmp_div_mod(x, y));
  if (Coin(10)) {
    auto e = mkv(false, false);
    if (Coin()) for (int64_t i = 0; i < Numel(e); ++i) { u128 v = R(9); memcpy(const_cast<u8*>(ElemPtr(e, i)), &v, w); }
    one("exp", x, e, gfmp_exp_mod(x, e));
  }
  auto inpl = [&](const char* n, void (*g)(NdArrayRef&, const NdArrayRef&)) {
    auto q = mkv(false, false);
    J e("gfin"); e.str("f", n).i("w", w).i("p", p).raw("x", Elems(q)).raw("y", Elems(z)).raw("P0", Whole(q)).ints("at", Where(q));
    g(q, z);
    e.raw("P1", Whole(q));
  };
  inpl("add", gfmp_add_mod_);
  inpl("sub", gfmp_sub_mod_);
  inpl("mul", gfmp_mul_mod_);
  one("rand", x, x, gfmp_rand(f, sh));
}

template <class T>
void MulFull() {
  NewCase();
  for (int i = 0; i < 20; ++i) {
    T x = static_cast<T>(Val(sizeof(T) * 8)), y = static_cast<T>(Val(sizeof(T) * 8)), hi = 0;
    T lo = mpc::mul(x, y, &hi);
    J("mulfull").i("w", sizeof(T)).word("x", &x, sizeof(T)).word("y", &y, sizeof(T)).word("lo", &lo, sizeof(T)).word("hi", &hi, sizeof(T));
  }
}

void Vec() {
  NewCase();
  using V = std::vector<int>;
  auto mk = [](size_t n, std::vector<size_t>* lens) {
    std::vector<V> r;
    for (size_t i = 0; i < n; ++i) { size_t l = lens && i < lens->size() ? (*lens)[i] : R(4); r.emplace_back(); for (size_t j = 0; j < l; ++j) r.back().push_back(static_cast<int>(R(100))); }
    return r;
  };
  auto dump = [](const std::vector<V>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += '['; for (size_t j = 0; j < v[i].size(); ++j) { if (j) s += ','; s += std::to_string(v[i][j]); } s += ']'; } return s + "]"; };
  size_t n = R(7);
  auto a = mk(n, nullptr);
  std::vector<size_t> lens;
  for (auto& v : a) lens.push_back(v.size());
  auto b = mk(n, &lens);
  std::vector<V> o1, o2;
  vmap(a.begin(), a.end(), std::back_inserter(o1), [](const V& x) { V r = x; for (auto& q : r) q = 2 * q + 1; return r; });
  J("vmap1").raw("x", dump(a)).raw("out", dump(o1));
  vmap(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o2), [](const V& x, const V& y) { V r = x; for (size_t i = 0; i < r.size(); ++i) r[i] = r[i] * 3 - y[i]; return r; });
  J("vmap2").raw("x", dump(a)).raw("y", dump(b)).raw("out", dump(o2));
  size_t m = 1 + R(12), len = R(4);
  std::vector<size_t> same(m, len);
  auto c = mk(m, &same);
  auto r = vreduce(c.begin(), c.end(), [](const V& x, const V& y) { V q = x; for (size_t i = 0; i < q.size(); ++i) q[i] += y[i]; return q; });
  J("vreduce").raw("x", dump(c)).i("len", static_cast<int64_t>(len)).ints("out", r);
}

// run-length encoding of an arithmetic sequence: <start, first value, step> runs
std::string Runs(const NdArrayRef& a, const std::vector<int64_t>& v) {
  std::string s = "[";
  size_t i = 0, n = v.size();
  while (i < n) {
    size_t j = i + 1;
    int64_t d = j < n ? v[j] - v[i] : 0;
    while (j < n && v[j] - v[j - 1] == d) ++j;
    if (s.size() > 1) s += ',';
    s += "[" + std::to_string(i) + "," + std::to_string(v[i]) + "," + std::to_string(d) + "," + std::to_string(j - i) + "]";
    i = j;
    if (s.size() > 4000) break;
  }
  return s + "]";
}

void Tiled() {
  NewCase();
  static const std::vector<Shape> shapes{{100000}, {50001}, {3, 40000}, {2, 50000}, {7, 9, 1000}, {2, 3, 30000}, {60000, 2}, {3, 1, 50001}, {2, 2, 2, 20000}, {50000}, {120001}, {51, 1000}, {1, 1, 60000, 1}};
  Shape sh = Pick(shapes);
  RuntimeConfig cfg;
  cfg.protocol = ProtocolKind::REF2K; cfg.field = FM64; cfg.experimental_enable_intra_op_par = true;
  SPUContext ctx(cfg, nullptr);
  Type ty = makeType<RingTy>(FM32);
  NdArrayRef x(ty, sh);
  int64_t n = sh.numel();
  for (int64_t i = 0; i < n; ++i) x.at<int32_t>(i) = static_cast<int32_t>(i);
  bool two = Coin();
  NdArrayRef xv = x;
  auto got = [&](const Value& r) { std::vector<int64_t> v; for (int64_t i = 0; i < n; ++i) v.push_back(r.data().at<int32_t>(i)); return v; };
  auto f1 = [](SPUContext*, const Value& a, int c) { NdArrayRef o(a.data().eltype(), a.shape()); for (int64_t i = 0; i < a.numel(); ++i) o.at<int32_t>(i) = a.data().at<int32_t>(i) * 3 + c; return Value(o, DT_INVALID); };
  auto f2 = [](SPUContext*, const Value& a, const Value& b, int c) { NdArrayRef o(a.data().eltype(), a.shape()); for (int64_t i = 0; i < a.numel(); ++i) o.at<int32_t>(i) = a.data().at<int32_t>(i) * 2 + b.data().at<int32_t>(i) + c; return Value(o, DT_INVALID); };
  Value v(x, DT_INVALID);
  const Value& cv = v;
  auto r = two ? tiled(f2, &ctx, cv, cv, 5) : tiled(f1, &ctx, cv, 5);
  auto g = got(r);
  J("tiled").b("two", two).ints("sh", sh).ints("osh", r.shape()).i("n", n).raw("runs", Runs(x, g));
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  for (int r = 0; r < 30 * scale; ++r) {
    int d = r % 10 == 9 ? 14 : 6;
    MatMul<int8_t>(d); MatMul<uint8_t>(d); MatMul<int16_t>(d); MatMul<uint16_t>(d); MatMul<int32_t>(d); MatMul<uint32_t>(d); MatMul<int64_t>(d); MatMul<uint64_t>(d);
    MatMul<i128>(d > 6 ? 8 : 5); MatMul<u128>(d > 6 ? 8 : 5);
  }
  for (FieldType f : {FM32, FM64, FM128}) {
    for (int r = 0; r < 120 * scale; ++r) RingOps(f, 4);
    for (int r = 0; r < 25 * scale; ++r) RingMmul(f);
    for (int r = 0; r < 40 * scale; ++r) Gfmp(f);
  }
  for (int r = 0; r < 4 * scale; ++r) { MulFull<uint8_t>(); MulFull<uint32_t>(); MulFull<uint64_t>(); MulFull<u128>(); }
  for (int r = 0; r < 60 * scale; ++r) Vec();
  for (int r = 0; r < 12 * scale; ++r) Tiled();
  Close();
}
