// Typed operators on integers, truth values and fixed-point numbers (C20).
// Operands and results are logged as elements of the ring.
#include "mpc.h"

#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/shift.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using spu::DataType;

static const char* Name(DataType t) {
  static const char* n[] = {"?", "I1", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "F16", "F32", "F64"};
  return n[static_cast<int>(t) <= 12 ? static_cast<int>(t) : 0];
}
static int Bits(DataType t) {
  static const int n[] = {0, 1, 8, 8, 16, 16, 32, 32, 64, 64, 16, 32, 64};
  return n[static_cast<int>(t)];
}
static bool IsF(DataType t) { return t >= spu::DT_F16; }
static bool IsU(DataType t) { return !IsF(t) && (t == spu::DT_I1 || static_cast<int>(t) % 2 == 1); }

struct Opd { DataType dt; char vis; size_t owner; std::vector<u128> w; };
struct Env { std::unique_ptr<World> w; Proto p; int k, f; };
static u128 Mask(int k) { return k >= 128 ? ~u128(0) : (u128(1) << k) - 1; }

static DataType RInt(int k, int lo = 1) { DataType t; do t = static_cast<DataType>(RI(lo, 9)); while (Bits(t) > k); return t; }
static DataType RFxp(bool half = true) { return static_cast<DataType>(RI(half && Coin(30) ? 10 : 11, 12)); }
static DataType RAny(int k) { return Coin() ? RInt(k) : RFxp(); }
// a value of the type whose magnitude stays below 2^room
static u128 One(DataType t, int k, int room) {
  u128 v;
  if (t == spu::DT_I1) return R(2);
  if (Coin(15)) v = R(3);
  else {
    int b = std::min(room, IsF(t) ? room : IsU(t) ? Bits(t) : Bits(t) - 1);
    if (b <= 0) return 0;
    if (!IsF(t) && Coin(25)) b = std::min(b, 4);
    v = Val(b) & Mask(b);
  }
  if (!IsU(t) && Coin()) v = Coin(20) ? ~v : -v;   // the smallest number of the type is as likely as the others
  return v & Mask(k);
}
static Opd Mk(const Env& e, DataType t, size_t n, int room, const char* vis = "PVSB") {
  Opd o;
  o.dt = t;
  o.vis = vis[R(strlen(vis))];
  o.owner = R(e.p.n);
  for (size_t i = 0; i < n; ++i) o.w.push_back(One(t, e.k, room));
  return o;
}
static Value Put(SPUContext* c, const Opd& o, const Shape& sh) {
  auto x = Pub(c, o.w, sh);
  if (o.vis == 'V') x = m::p2v(c, x, o.owner);
  if (o.vis == 'S' || o.vis == 'B') x = m::p2s(c, x);
  if (o.vis == 'B') x = hal::_prefer_b(c, x);
  return x.setDtype(o.dt, true);
}
using Fn = std::function<Value(SPUContext*, const std::vector<Value>&)>;
static void Do(Env& e, const char* op, const std::vector<Opd>& in, const std::vector<Shape>& shs, const std::function<void(J&)>& more, const Fn& fn) {
  size_t n = e.w->n();
  std::vector<std::vector<u128>> got(n);
  std::vector<std::string> info(n);
  bool ok = e.w->Run([&](size_t r, SPUContext* c) {
    std::vector<Value> x;
    for (size_t i = 0; i < in.size(); ++i) x.push_back(Put(c, in[i], shs[i]));
    auto y = fn(c, x);
    info[r] = fmt::format(",\"rt\":\"{}\",\"rv\":\"{}\",\"rsh\":[{}]", Name(y.dtype()), y.isPublic() ? "P" : y.isPrivate() ? "V" : "S", fmt::join(y.shape(), ","));
    got[r] = ToWords((y.isPublic() ? y : y.isPrivate() ? m::v2p(c, y) : m::s2p(c, y)).data());
  });
  std::string err;
  for (auto& x : e.w->err) if (!x.empty() && x.find("peer stopped") == std::string::npos) err = x;
  NewCase();
  {
    J j(op);
    j.str("p", e.p.name).i("n", static_cast<int64_t>(n)).i("k", e.k).i("f", e.f);
    j.list("ty", in, [](const Opd& o) { return std::string("\"") + Name(o.dt) + "\""; });
    j.list("vis", in, [](const Opd& o) { return std::string("\"") + o.vis + "\""; });
    j.list("own", in, [](const Opd& o) { return std::to_string(o.owner); });
    j.list("in", in, [&](const Opd& o) { return WList(o.w, e.w->bytes()); });
    j.list("sh", shs, [](const Shape& s) { return fmt::format("[{}]", fmt::join(s, ",")); });
    more(j);
    bool same = true;
    for (size_t r = 1; r < n; ++r) same = same && got[r] == got[0] && info[r] == info[0];
    j.b("ok", ok).b("same", same);
    if (ok) { j.s += info[0]; j.raw("out", WList(got[0], e.w->bytes())); }
    else j.str("err", err.substr(0, 200));
  }
  if (!ok) {
    fprintf(stderr, "%s %s %d: %s\n", op, e.p.name, e.k, err.substr(0, 300).c_str());
    auto f = e.f;
    e.w = MakeWorld(e.p, FieldOf(e.k), [&](RuntimeConfig& r) { r.fxp_fraction_bits = f; });
  }
}
static void None(J&) {}
static Shape Sh() { switch (R(6)) { case 0: return {}; case 1: return {1}; case 2: return {2, 2}; case 3: return Coin(30) ? Shape{0} : Shape{3}; default: return {static_cast<int64_t>(R(4) + 2)}; } }

// one random operation
static void One(Env& e, int64_t pick) {
  const int k = e.k, f = e.f;
  const std::string pn = e.p.name;
  const bool nn = pn == "SECURENN";
  const int cmp = nn ? k - 4 : k - 2;        // values whose difference keeps its sign
  const int trunc = pn == "SEMI2K" ? k - 3 : nn ? k - 4 : k == 32 ? 8 : k == 64 ? 36 : 96;
  const Shape sh = Sh();
  const auto n = static_cast<size_t>(sh.numel());
  auto Bin = [&](const char* op, Opd a, Opd b, Value (*fn)(SPUContext*, const Value&, const Value&)) { Do(e, op, {a, b}, {sh, sh}, None, [=](SPUContext* c, const std::vector<Value>& x) { return fn(c, x[0], x[1]); }); };
  auto Un = [&](const char* op, Opd a, Value (*fn)(SPUContext*, const Value&)) { Do(e, op, {a}, {sh}, None, [=](SPUContext* c, const std::vector<Value>& x) { return fn(c, x[0]); }); };
  // rooms of two operands so that after conversion both stay below 2^room
  auto room = [&](DataType a, DataType other, int r) { return !IsF(a) && IsF(other) ? r - f : r; };
  switch (pick) {
    case 0: return Bin("add", Mk(e, RAny(k), n, k), Mk(e, RAny(k), n, k), hlo::Add);
    case 1: return Bin("sub", Mk(e, RAny(k), n, k), Mk(e, RAny(k), n, k), hlo::Sub);
    case 2: case 3: {
      auto a = RAny(k), b = RAny(k);
      if (IsF(a) && IsF(b)) { int ra = static_cast<int>(RI(2, trunc - 3)); return Bin("mul", Mk(e, a, n, ra), Mk(e, b, n, trunc - 1 - ra), hlo::Mul); }
      return Bin("mul", Mk(e, a, n, k), Mk(e, b, n, k), hlo::Mul);
    }
    case 4: { auto a = RAny(k); auto o = Mk(e, a, n, IsF(a) ? (trunc - 1) / 2 : k); return Un("square", o, hal::square); }
    case 5: {
      int64_t p = RI(1, 3), q = RI(1, 3), r = RI(1, 3);
      auto a = RAny(k), b = RAny(k);
      int ra = IsF(a) && IsF(b) ? static_cast<int>(RI(2, trunc - 5)) : k, rb = IsF(a) && IsF(b) ? trunc - 3 - ra : k;
      return Do(e, "dot", {Mk(e, a, static_cast<size_t>(p * q), ra), Mk(e, b, static_cast<size_t>(q * r), rb)}, {{p, q}, {q, r}}, None,
                [](SPUContext* c, const std::vector<Value>& x) { return hlo::Dot(c, x[0], x[1]); });
    }
    case 6: case 7: case 8: {
      static const std::vector<std::pair<const char*, Value (*)(SPUContext*, const Value&, const Value&)>> ops = {
          {"equal", hlo::Equal}, {"not_equal", hlo::NotEqual}, {"less", hlo::Less}, {"less_equal", hlo::LessEqual}, {"greater", hlo::Greater}, {"greater_equal", hlo::GreaterEqual}};
      auto o = ops[R(ops.size())];
      bool eq = strstr(o.first, "equal") == o.first || strcmp(o.first, "not_equal") == 0;
      auto a = RAny(k), b = Coin(40) ? a : RAny(k);
      int r = eq && !nn ? k : cmp - 1;
      auto x = Mk(e, a, n, room(a, b, r)), y = Mk(e, b, n, room(b, a, r));
      if (a == b) for (size_t i = 0; i < n; ++i) if (Coin(30)) y.w[i] = x.w[i];
      return Bin(o.first, x, y, o.second);
    }
    case 9: return Un("neg", Mk(e, RAny(k), n, k), hlo::Neg);
    case 10: return Un("abs", Mk(e, RAny(k), n, cmp), hlo::Abs);
    case 11: {
      bool iz = Coin();
      return Do(e, "sign", {Mk(e, RAny(k), n, cmp)}, {sh}, [=](J& j) { j.b("iz", iz); }, [=](SPUContext* c, const std::vector<Value>& x) { return hlo::Sign(c, x[0], iz); });
    }
    case 12: {
      auto t = RAny(k);
      return Do(e, "select", {Mk(e, spu::DT_I1, n, 1), Mk(e, t, n, k), Mk(e, t, n, k)}, {sh, sh, sh}, None, [](SPUContext* c, const std::vector<Value>& x) { return hlo::Select(c, x[0], x[1], x[2]); });
    }
    case 13: case 14: {
      static const std::vector<std::pair<const char*, Value (*)(SPUContext*, const Value&, const Value&)>> ops = {{"and", hlo::And}, {"or", hlo::Or}, {"xor", hlo::Xor}};
      auto o = Pick(ops);
      auto t = RInt(k);
      return Bin(o.first, Mk(e, t, n, k), Mk(e, t, n, k), o.second);
    }
    case 15: return Un("not", Mk(e, RInt(k), n, k), hlo::Not);
    case 16: { auto t = RAny(k); return Bin("max", Mk(e, t, n, cmp - 1), Mk(e, t, n, cmp - 1), hlo::Max); }
    case 17: { auto t = RAny(k); return Bin("min", Mk(e, t, n, cmp - 1), Mk(e, t, n, cmp - 1), hlo::Min); }
    case 18: {
      auto t = RAny(k);
      auto lo = Mk(e, t, n, cmp - 1), hi = Mk(e, t, n, cmp - 1);
      return Do(e, "clamp", {Mk(e, t, n, cmp - 1), lo, hi}, {sh, sh, sh}, None, [](SPUContext* c, const std::vector<Value>& x) { return hlo::Clamp(c, x[0], x[1], x[2]); });
    }
    case 19: case 20: {  // conversions of type and visibility
      auto t = RAny(k), to = Coin(20) ? t : IsF(t) ? (Coin() ? RInt(k) : RFxp(false)) : (Coin() ? RInt(k) : RFxp());
      int r = nn && IsF(t) && !IsF(to) ? k - 3 : k;
      auto a = Mk(e, t, n, r);
      int64_t v = a.vis == 'P' ? (Coin() ? 0 : 1) : a.vis == 'V' ? (Coin() ? -1 : 0) : (Coin() ? -1 : 1);
      static const spu::Visibility vs[] = {spu::VIS_PUBLIC, spu::VIS_SECRET};
      return Do(e, "cast", {a}, {sh}, [=](J& j) { j.str("to", Name(to)).str("tv", v < 0 ? (a.vis == 'V' ? "V" : "S") : v == 0 ? "P" : "S"); },
                [=](SPUContext* c, const std::vector<Value>& x) { return hlo::Cast(c, x[0], v < 0 ? x[0].vtype() : vs[v], to); });
    }
    case 21: { auto t = RAny(k), to = RAny(k); return Do(e, "bitcast", {Mk(e, t, n, k)}, {sh}, [=](J& j) { j.str("to", Name(to)); }, [=](SPUContext* c, const std::vector<Value>& x) { return hlo::Bitcast(c, x[0], to); }); }
    case 22: return Un("floor", Mk(e, RFxp(), n, k - 1), hlo::Floor);
    case 23: return Un("ceil", Mk(e, RFxp(false), n, k - 2), hlo::Ceil);
    case 24: return Un("round", Mk(e, RFxp(false), n, nn ? k - 4 : k - 2), hlo::Round_AFZ);
    case 25: return Un("rounde", Mk(e, RFxp(), n, k - 2), hlo::Round_RNTE);
    case 26: {
      auto t = RInt(k);
      auto o = Mk(e, t, n, k);
      if (o.vis != 'P' && Bits(t) % 2 == 1 && Bits(t) > 1) return;
      return Un("popcnt", o, hlo::Popcnt);
    }
    case 27: {
      int which = static_cast<int>(R(3));
      auto t = RInt(k);
      bool pub = Coin(70) || Bits(t) > 16;
      auto s = Mk(e, pub ? RInt(k, 2) : static_cast<DataType>(RI(2, 5)), n, 10, pub ? "P" : "SB");
      for (auto& v : s.w) v = R(static_cast<u64>(Bits(t)));
      auto a = Mk(e, t, n, k);
      return Bin(which == 0 ? "lshift" : which == 1 ? "rshift" : "arshift", a, s, which == 0 ? hlo::Lshift : which == 1 ? hlo::Rshift : hlo::ARshift);
    }
    case 28: {  // integer power
      auto t = RInt(k, 2), u = RInt(k, 2);
      auto a = Mk(e, t, n, nn ? k - 4 : k - 2), b = Mk(e, u, n, 20);
      for (size_t i = 0; i < n; ++i) {
        switch (R(4)) {
          case 0: a.w[i] = IsU(t) ? R(2) : (R(3) - u128(1)) & Mask(k); break;  // any exponent
          case 1: if (!IsU(u)) { b.w[i] = (-u128(R(9))) & Mask(k); break; }    // |x| > 1, y <= 0
          default: {
            int64_t x = RI(2, Bits(t) == 8 ? 11 : 40);
            double lim = (nn ? k - 4 : k - 2) / std::log2(static_cast<double>(x));
            b.w[i] = R(static_cast<u64>(std::min(lim, 126.0)) + 1);
            a.w[i] = (IsU(t) || Coin() ? u128(x) : -u128(x)) & Mask(k);
          }
        }
      }
      return Bin("power", a, b, hlo::Power);
    }
    case 29: case 30: {  // quotient and remainder of small numbers
      auto t = RInt(k, 2);
      int r = std::min(k == 32 ? 5 : 12, f - 3);
      auto a = Mk(e, t, n, r), b = Mk(e, t, n, r);
      for (auto& v : b.w) if (v == 0) v = 1;
      bool rem = Coin();
      return Bin(rem ? "rem" : "div", a, b, rem ? hlo::Remainder : hlo::Div);
    }
    case 31: {
      auto t = RAny(k);
      auto a = Mk(e, t, n, k, "PVS");
      int64_t to = a.vis == 'P' ? -2 : Coin() ? -1 : static_cast<int64_t>(R(e.p.n));
      return Do(e, "move", {a}, {sh}, [=](J& j) { j.str("tv", to == -2 ? "S" : to == -1 ? "P" : "V"); },
                [=](SPUContext* c, const std::vector<Value>& x) { return to == -2 ? hlo::Seal(c, x[0]) : to == -1 ? hlo::Reveal(c, x[0]) : hlo::RevealTo(c, x[0], static_cast<size_t>(to)); });
    }
  }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = argc > 3 ? std::atoll(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  reseed_each = true;
  for (char ch : only) rng.seed(rng() + static_cast<u64>(ch));
  for (int64_t s = 0; s < scale; ++s)
    for (auto& p : Protos()) {
      if (p.kind < 0 || (!only.empty() && only != p.name + std::to_string(p.n))) continue;
      for (int k : {32, 64, 128}) {
        if (k == 128 && std::string(p.name) == "SWIFT") continue;
        auto fs = k == 32 ? std::vector<int>{6, 8} : k == 64 ? std::vector<int>{8, 16, 18} : std::vector<int>{18, 26, 40};
        Env e{nullptr, p, k, Pick(fs)};
        e.w = MakeWorld(p, FieldOf(k), [&](RuntimeConfig& r) { r.fxp_fraction_bits = e.f; });
        for (int64_t i = 0; i < 32; ++i) One(e, i);
        for (int i = 0; i < 8; ++i) One(e, static_cast<int64_t>(R(32)));
      }
    }
  Close();
}
