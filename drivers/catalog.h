// A catalogue of operations of the system with random operands, for drivers that run programs.
#pragma once
#include "mpc.h"

#include "libspu/kernel/hal/complex.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hal/random.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/control_flow.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/sort.h"
#include "libspu/mpc/kernel.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using spu::SignType;
using VV = std::vector<Value>;

struct In { char kind; size_t owner; spu::DataType dt; Shape sh; std::vector<u128> a, b; int width; };
using Fn = std::function<VV(SPUContext*, const VV&)>;

// Where the operations go.
struct Cat {
  Proto p;
  int k;
  virtual ~Cat() = default;
  virtual void Do(const char* f, const std::vector<In>& in, const Fn& fn, bool twin = true) = 0;
  virtual bool Has(const char* kernel) = 0;
};

// ---- operands --------------------------------------------------------------------------------
static const spu::DataType RAW = spu::DT_INVALID;
static int K; static const char* PN; static size_t NP; static int FXP;
static u128 Mask(int k) { return k >= 128 ? ~u128(0) : (u128(1) << k) - 1; }
static u128 FromD(double d) { return static_cast<u128>(static_cast<i128>(d * static_cast<double>(u64(1) << FXP))) & Mask(K); }
using Gen = std::function<u128()>;
static Gen any() { return [] { return Val(K); }; }
static Gen bit() { return [] { return u128(R(2)); }; }
static Gen ival(int64_t lo, int64_t hi) { return [=] { return static_cast<u128>(static_cast<i128>(RI(lo, hi))) & Mask(K); }; }
static Gen bounded(int b) { return [=] { u128 v = Val(b); return (Coin() ? -v : v) & Mask(K); }; }
static Gen fx(double lo, double hi) { return [=] { return FromD(lo + (hi - lo) * static_cast<double>(R(100001)) / 100000.0); }; }
static char RKind(const char* ks = "PVSSBB") { return ks[R(strlen(ks))]; }
static In Mk(char kind, spu::DataType dt, const Shape& sh, const Gen& g) {
  In i{kind, R(NP), dt, sh, {}, {}, dt == spu::DT_I1 ? static_cast<int>(R(2)) : dt == RAW && Coin(40) ? static_cast<int>(RI(1, K - 1)) : 0};
  for (int64_t q = 0; q < sh.numel(); ++q) { i.a.push_back(g()); i.b.push_back(kind == 'P' ? i.a.back() : g()); }
  return i;
}
static VV One(Value v) { return {std::move(v)}; }

static void RingOp(Cat& t, const Shape& sh) {
  auto in = [&](const Gen& g) { return Mk(RKind(), RAW, sh, g); };
  auto sec = [&](const Gen& g) { return Mk(RKind("SB"), RAW, sh, g); };
  auto wide = [&](const Gen& g) { auto i = in(g); i.width = 0; return i; };
  switch (R(24)) {
    case 0: t.Do("add", {in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_add(c, x[0], x[1])); }); break;
    case 1: t.Do("mul", {in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_mul(c, x[0], x[1])); }); break;
    case 2: t.Do("and", {in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_and(c, x[0], x[1])); }); break;
    case 3: t.Do("xor", {in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_xor(c, x[0], x[1])); }); break;
    case 4: t.Do("or", {in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_or(c, x[0], x[1])); }); break;
    case 5: t.Do("not", {in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_not(c, x[0])); }); break;
    case 6: t.Do("square", {in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_square(c, x[0])); }); break;
    case 7: t.Do("msb", {in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_msb(c, x[0])); }); break;
    case 8: { Sizes z{RI(0, K - 1)}; t.Do("lshift", {in(any())}, [z](SPUContext* c, const VV& x) { return One(hal::_lshift(c, x[0], z)); }); break; }
    case 9: { Sizes z{RI(0, K - 1)}; t.Do("rshift", {in(any())}, [z](SPUContext* c, const VV& x) { return One(hal::_rshift(c, x[0], z)); }); break; }
    case 10: { Sizes z{RI(0, K - 1)}; t.Do("arshift", {wide(any())}, [z](SPUContext* c, const VV& x) { return One(hal::_arshift(c, x[0], z)); }); break; }
    case 11: { size_t st = R(static_cast<u64>(K)), en = st + R(static_cast<u64>(K) - st + 1); t.Do("bitrev", {in(any())}, [=](SPUContext* c, const VV& x) { return One(hal::_bitrev(c, x[0], st, en)); }); break; }
    case 12: t.Do("equal", {in(any()), in(Coin() ? any() : ival(0, 2))}, [](SPUContext* c, const VV& x) { return One(hal::_equal(c, x[0], x[1])); }); break;
    case 13: t.Do("less", {in(bounded(K - 3)), in(bounded(K - 3))}, [](SPUContext* c, const VV& x) { return One(hal::_less(c, x[0], x[1])); }); break;
    case 14: { auto b = static_cast<size_t>(RI(1, K / 4)); auto sg = Coin(30) ? SignType::Positive : SignType::Unknown; auto q = sg == SignType::Positive ? ival(0, 127) : bounded(K == 32 ? 8 : K == 64 ? 36 : 96);
      t.Do("trunc", {in(q)}, [=](SPUContext* c, const VV& x) { return One(hal::_trunc(c, x[0], b, sg)); }); break; }
    case 15: t.Do("mux", {in(bit()), in(any()), in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_mux(c, x[0], x[1], x[2])); }); break;
    case 16: if (t.p.kind != ProtocolKind::REF2K) t.Do("a2b", {Mk('S', RAW, sh, any())}, [](SPUContext* c, const VV& x) { return One(m::a2b(c, hal::_prefer_a(c, x[0]))); }); break;
    case 17: t.Do("b2a", {sec(Coin() ? any() : bit())}, [](SPUContext* c, const VV& x) { return One(hal::_prefer_a(c, hal::_prefer_b(c, x[0]))); }); break;
    case 18: { size_t o = R(NP); t.Do("s2v", {sec(any())}, [o](SPUContext* c, const VV& x) { return One(m::s2v(c, x[0], o)); }); break; }
    case 19: t.Do("v2s", {Mk('V', RAW, sh, any())}, [](SPUContext* c, const VV& x) { return One(m::v2s(c, x[0])); }); break;
    case 20: t.Do("s2p", {sec(any())}, [](SPUContext* c, const VV& x) { return One(m::s2p(c, x[0])); }); break;
    case 21: t.Do("sign", {in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_sign(c, x[0])); }); break;
    case 22: { int64_t a = RI(1, 3), b = RI(1, 4), d = RI(1, 3); auto kk = "PVSSS";
      t.Do("mmul", {Mk(RKind(kk), RAW, {a, b}, any()), Mk(RKind(kk), RAW, {b, d}, any())}, [](SPUContext* c, const VV& x) { return One(hal::_mmul(c, x[0], x[1])); }); break; }
    case 23: t.Do("popcount", {in(any())}, [](SPUContext* c, const VV& x) { return One(hal::_popcount(c, x[0], static_cast<size_t>(K))); }); break;
  }
}

struct Un { const char* f; double lo, hi; Value (*fn)(SPUContext*, const Value&); };
static const std::vector<Un>& Uns() {
  static std::vector<Un> u = {
    {"exp", -4, 2, hal::exp}, {"log", 0.05, 20, hal::log}, {"log1p", 0, 8, hal::log1p}, {"logistic", -6, 6, hal::logistic}, {"log2", 0.1, 16, hal::log2}, {"exp2", -4, 4, hal::exp2},
    {"tanh", -3, 3, hal::tanh}, {"sine", -3, 3, hal::sine}, {"cosine", -3, 3, hal::cosine}, {"rsqrt", 0.1, 30, hal::rsqrt}, {"sqrt", 0, 30, hal::sqrt}, {"reciprocal", 0.1, 8, hal::reciprocal},
    {"abs", -9, 9, hal::abs}, {"sign", -9, 9, [](SPUContext* c, const Value& x) { return hal::sign(c, x); }}, {"floor", -9, 9, hal::floor}, {"ceil", -9, 9, hal::ceil}, {"square", -9, 9, hal::square}, {"negate", -9, 9, hal::negate},
    {"erf", -2, 2, hal::f_erf}, {"acos", -0.9, 0.9, hal::acos}, {"asin", -0.9, 0.9, hal::asin}, {"round_afz", -9, 9, hlo::Round_AFZ}, {"round_rnte", -9, 9, hlo::Round_RNTE}, {"expm1", -2, 2, hlo::Expm1}};
  return u;
}
struct Bi { const char* f; double lo, hi; Value (*fn)(SPUContext*, const Value&, const Value&); bool ints; };
static const std::vector<Bi>& Bis() {
  static std::vector<Bi> u = {{"add", -9, 9, hal::add, true}, {"sub", -9, 9, hal::sub, true}, {"mul", -9, 9, hal::mul, true}, {"div", 1, 9, hal::div, true}, {"max", -9, 9, hal::max, true}, {"min", -9, 9, hal::min, true},
    {"equal", -9, 9, hal::equal, true}, {"less", -9, 9, hal::less, true}, {"greater_equal", -9, 9, hal::greater_equal, true}, {"not_equal", -9, 9, hal::not_equal, true}, {"power", 0.5, 2, hal::power, false},
    {"atan2", 0.2, 3, hal::atan2, false}, {"remainder", 1, 9, hlo::Remainder, true}, {"bitwise_and", 0, 9, hal::bitwise_and, true}, {"bitwise_or", 0, 9, hal::bitwise_or, true}};
  return u;
}

static void TypedOp(Cat& t, const Shape& sh) {
  const auto F = spu::DT_F32, I = spu::DT_I32;
  bool small = K == 32;  // FM32 has eight fractional bits: fixed-point functions are for the larger rings
  auto v = [&](double lo, double hi, const char* ks = "SSSSVP") { return Mk(RKind(ks), F, sh, fx(lo, hi)); };
  auto n = [&](int64_t lo, int64_t hi, const char* ks = "SSSSVP") { return Mk(RKind(ks), I, sh, ival(lo, hi)); };
  switch (R(22)) {
    case 0: case 1: case 2: case 3: case 4: { if (small) break; auto& u = Pick(Uns()); auto f = u.fn; t.Do(u.f, {v(u.lo, u.hi, "SSSSV")}, [f](SPUContext* c, const VV& x) { return One(f(c, x[0])); }); break; }
    case 5: case 6: case 7: case 8: {
      auto& u = Pick(Bis()); auto f = u.fn;
      bool in = u.ints && Coin(); if (!in && (small || u.lo == 0)) break;
      std::string nm = u.f;
      if (in && (nm == "div" || nm == "remainder") && small) break;
      auto a = in ? n(static_cast<int64_t>(u.lo), static_cast<int64_t>(u.hi)) : v(u.lo, u.hi), b = in ? n(static_cast<int64_t>(u.lo), static_cast<int64_t>(u.hi)) : v(u.lo, u.hi);
      t.Do(u.f, {a, b}, [f](SPUContext* c, const VV& x) { return One(f(c, x[0], x[1])); });
      break;
    }
    case 9: t.Do("select", {Mk(RKind("SSBP"), spu::DT_I1, sh, bit()), n(-9, 9), n(-9, 9)}, [](SPUContext* c, const VV& x) { return One(hal::select(c, x[0], x[1], x[2])); }); break;
    case 10: t.Do("clamp", {n(-9, 9, "SSB"), n(-5, -1), n(1, 5)}, [](SPUContext* c, const VV& x) { return One(hal::clamp(c, x[0], x[1], x[2])); }); break;
    case 11: { int64_t z = RI(2, 7); auto kd = RKind("SSSV"); t.Do("network_sort", {Mk(kd, I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) {
        return hal::sort1d(c, x, [c](absl::Span<const Value> p) { return hal::less(c, p[0], p[1]); }, spu::VIS_SECRET, false); }); break; }
    case 12: { int64_t z = RI(1, 6); t.Do("shuffle", {Mk(RKind("SS"), I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) { return hlo::Shuffle(c, x, 0); }, true); break; }
    case 13: { int64_t z = RI(2, 6); if (!t.Has("rand_perm_m")) break; t.Do("radix_sort", {Mk('S', I, {z}, ival(-99, 99)), Mk('S', I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) {
        return hal::simple_sort1d(c, x, hal::SortDirection::Ascending, 1, 8, false); }); break; }
    case 14: { int64_t z = RI(2, 9); t.Do("reduce_max", {Mk(RKind("SSV"), I, {z}, ival(-99, 99)), Mk('P', I, {}, ival(-100, -100))}, [](SPUContext* c, const VV& x) {
        return hlo::Reduce(c, absl::MakeSpan(&x[0], 1), absl::MakeSpan(&x[1], 1), spu::Axes{0}, [c](absl::Span<const Value> a, absl::Span<const Value> b) { return VV{hal::max(c, a[0], b[0])}; }); }); break; }
    case 15: { int64_t z = RI(2, 6); if (!small) t.Do("dynamic_slice", {Mk(RKind("SSV"), I, {z}, ival(-99, 99)), Mk('S', I, {}, ival(0, z - 1))}, [](SPUContext* c, const VV& x) {
        return One(hlo::DynamicSlice(c, x[0], Sizes{1}, absl::MakeSpan(&x[1], 1))); }); break; }
    case 16: { int64_t z = RI(2, 5); t.Do("if", {Mk(RKind("SSB"), spu::DT_I1, {z}, bit()), Mk('S', I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) {
        return hlo::IfElse(c, x[0], [&] { return VV{hal::mul(c, x[1], x[1])}; }, [&] { return VV{hal::negate(c, x[1])}; }); }); break; }
    case 17: { int64_t z = RI(2, 5); t.Do("case", {Mk('S', I, {}, ival(-1, 4)), Mk('S', I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) {
        return hlo::Case(c, x[0], {[&] { return VV{hal::mul(c, x[1], x[1])}; }, [&] { return VV{hal::negate(c, x[1])}; }, [&] { return VV{x[1]}; }}); }); break; }
    case 18: if (!small) t.Do("f_mmul", {Mk(RKind("SSV"), F, {2, 3}, fx(-4, 4)), Mk(RKind("SSVP"), F, {3, 2}, fx(-4, 4))}, [](SPUContext* c, const VV& x) { return One(hal::matmul(c, x[0], x[1])); }); break;
    case 19: { int64_t z = RI(3, 12); int64_t kk = RI(1, z - 1); t.Do("topk", {Mk('S', I, {z}, ival(-99, 99))}, [kk](SPUContext* c, const VV& x) { return hlo::TopK(c, x[0], kk, kk, true, Coin()); }, false); break; }
    case 20: { int64_t z = RI(2, 9); t.Do("quick_sort", {Mk('S', I, {z}, ival(-99, 99))}, [](SPUContext* c, const VV& x) {
        return hal::sort1d(c, x, [c](absl::Span<const Value> p) { return hal::less(c, p[0], p[1]); }, spu::VIS_SECRET, false); }, false); break; }
    case 21: if (!small) t.Do("cast", {v(-9, 9, "SSV")}, [](SPUContext* c, const VV& x) { return One(hal::dtype_cast(c, x[0], spu::DT_I32)); }); break;
  }
}


static void SetCat(const Proto& p, int k) { K = k; PN = p.name; NP = p.n; FXP = k == 32 ? 8 : k == 64 ? 18 : 26; }
