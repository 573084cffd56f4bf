// Random programs over the secure ring machine (C01, C02; traffic and schedules for C05).
#include <map>
#include <optional>
#include <set>

#include "mpc.h"

#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/mpc/kernel.h"
#include "libspu/mpc/spdz2k/state.h"
#include "libspu/mpc/spdz2k/type.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
using spu::SignType;

struct Reg {
  int id = 0;
  char kind = '?';  // P V A B S
  int64_t owner = -1, nb = 0;
  std::vector<Value> v;
  std::vector<u128> open;
  Shape sh;
};
static std::map<std::string, int64_t> used;
struct Machine {
  World& w;
  int k;
  bool spdz;
  std::vector<Reg> regs;
  bool dead = false;
  int next = 1;
  Machine(World& w_, int k_) : w(w_), k(k_), spdz(w_.proto.kind < 0) {
    NewCase();
    J e("new");
    e.str("proto", w.proto.name).i("n", static_cast<int64_t>(w.n())).i("k", k);
    std::vector<std::string> keys;
    if (spdz) for (auto* c : w.ctx) keys.push_back(W(c->getState<m::Spdz2kState>()->key(), 2 * w.bytes()));
    e.words("keys", keys);
  }
  static void Classify(Reg& r) {
    const auto& t = r.v[0].storage_type();
    r.owner = -1; r.nb = 0;
    if (t.isa<spu::Public>()) r.kind = 'P';
    else if (t.isa<spu::Private>()) { r.kind = 'V'; r.owner = t.as<spu::Private>()->owner(); }
    else if (t.isa<spu::AShare>()) r.kind = 'A';
    else if (t.isa<spu::BShare>()) { r.kind = 'B'; r.nb = static_cast<int64_t>(t.as<spu::BShare>()->nbits()); }
    else r.kind = 'S';
    r.sh = r.v[0].shape();
  }
  // the pieces of every party, element by element
  std::string Raw(const Reg& r) const {
    std::string s = "[";
    for (size_t p = 0; p < w.n(); ++p) { if (p) s += ','; s += Elems(r.v[p].data()); }
    return s + "]";
  }
  void Obs(J& e, const Reg& r) {
    e.str("kind", std::string(1, r.kind)).i("own", r.owner + 1).i("nb", r.nb).ints("sh", r.sh);
    std::vector<std::string> ty;
    bool same = true;
    for (auto& v : r.v) { ty.push_back(v.storage_type().toString()); same = same && v.shape() == r.sh && v.dtype() == r.v[0].dtype(); }
    bool mac = !spdz || r.kind != 'A' || r.v[0].storage_type().as<m::spdz2k::AShrTy>()->hasMac();
    e.strs("ty", ty).b("same", same).b("mac", mac).raw("raw", Raw(r));
  }
  using Fn = std::function<std::optional<Value>(SPUContext*, const std::vector<Value>&)>;
  // Runs an operation at all parties, opens its result and records both.
  int Step(const char* f, const std::vector<int>& args, const std::function<void(J&)>& attrs, const Fn& fn, bool fresh_layout = false) {
    if (dead) return -1;
    Reg r;
    r.v.resize(w.n());
    std::vector<Value> op(w.n());
    std::vector<char> none(w.n(), 0);
    bool ok = w.Run([&](size_t p, SPUContext* c) {
      std::vector<Value> in;
      for (int a : args) in.push_back(regs[static_cast<size_t>(a)].v[p]);
      auto o = fn(c, in);
      if (!o) { none[p] = 1; return; }
      r.v[p] = *o;
      const auto& t = r.v[p].storage_type();
      if (t.isa<spu::Public>()) op[p] = r.v[p];
      else if (t.isa<spu::Private>()) op[p] = m::v2p(c, r.v[p]);
      else op[p] = m::s2p(c, r.v[p]);
    });
    if (ok && none[0]) return -1;
    ++used[f];
    J e(f);
    e.i("d", next).list("x", args, [&](int a) { return std::to_string(regs[static_cast<size_t>(a)].id); });
    if (attrs) attrs(e);
    e.b("ok", ok);
    if (!ok) {
      std::string why;
      for (auto& x : w.err) if (!x.empty() && x.find("peer stopped") == std::string::npos) why = x;
      e.str("err", why.substr(0, 300));
      dead = true;
      return -1;
    }
    r.id = next++;
    Classify(r);
    r.open = ToWords(op[0].data());
    Obs(e, r);
    std::string s = "[";
    for (size_t p = 0; p < w.n(); ++p) { if (p) s += ','; s += Elems(op[p].data()); }
    e.raw("open", s + "]");
    regs.push_back(std::move(r));
    return static_cast<int>(regs.size()) - 1;
  }
  // all registers still hold what they held
  void Fin() {
    for (auto& r : regs) {
      J e("fin");
      e.i("d", r.id);
      Obs(e, r);
    }
  }
  int In(const std::vector<u128>& v, const Shape& sh) {
    return Step("in", {}, [&](J& e) { e.raw("v", WList(v, w.bytes())); }, [&](SPUContext* c, const std::vector<Value>&) { return Pub(c, v, sh); });
  }
  // the same elements at other addresses
  int Relayout(int a) {
    auto ty = regs[static_cast<size_t>(a)].v[0].storage_type();
    u64 seed = rng();
    int kk = k;
    return Step("id", {a}, nullptr, [=](SPUContext*, const std::vector<Value>& x) -> std::optional<Value> {
      auto keep = rng;
      rng.seed(seed);
      const auto& d = x[0].data();
      auto q = RLayout(d.eltype(), d.shape(), kk, true, 10);
      rng = keep;
      for (int64_t i = 0; i < Numel(d); ++i) memcpy(const_cast<u8*>(ElemPtr(q, i)), ElemPtr(d, i), d.elsize());
      return Value(q, x[0].dtype());
    });
  }
  int To(int a, char kind, int64_t owner) {  // from public
    if (a < 0) return a;
    int b = a;
    auto has = [&](const char* n) { return w.ctx[0]->hasKernel(n); };
    switch (kind) {
      case 'P': break;
      case 'V': b = Step("id", {a}, nullptr, [&](SPUContext* c, const std::vector<Value>& x) { return m::p2v(c, x[0], static_cast<size_t>(owner)); }); break;
      case 'B': if (has("p2b")) { b = Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::p2b(c, x[0]); }); break; } [[fallthrough]];
      default: b = Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::p2s(c, x[0]); });
    }
    if (b >= 0 && Coin(20) && !spdz) b = Relayout(b);
    return b;
  }
  std::vector<int> Find(const std::function<bool(const Reg&)>& p) const {
    std::vector<int> r;
    for (size_t i = 0; i < regs.size(); ++i) if (p(regs[i])) r.push_back(static_cast<int>(i));
    return r;
  }
  bool Within(const Reg& r, int bits) const {  // |v| < 2^bits as signed values
    for (auto v : r.open) {
      i128 s = k == 128 ? static_cast<i128>(v) : (static_cast<i128>(v << (128 - k)) >> (128 - k));
      i128 lim = static_cast<i128>(1) << bits;
      if (s >= lim || s < -lim) return false;
    }
    return true;
  }
  bool Bits(const Reg& r) const { for (auto v : r.open) if (v > 1) return false; return true; }
};
static bool arith_only = false;
static char RKind() { static const char ks[] = "PVAABB"; return arith_only ? ks[R(4)] : ks[R(6)]; }
static u128 Bounded(int k, int bits) {  // signed, |v| < 2^bits
  u128 v = Val(bits);
  if (Coin()) v = -v;
  return k >= 128 ? v : v & ((u128(1) << k) - 1);
}

static void Program(World& w, int k, int steps, const Shape& sh, int small_bits, bool local) {
  Machine t(w, k);
  arith_only = t.spdz;
  const int64_t n = sh.numel();
  auto N = static_cast<int64_t>(w.n());
  auto local_trunc = [&] { std::string p = w.proto.name; return local || p == "ABY3" || p == "SWIFT" || p == "SPDZ2K" || p == "REF2K"; };
  auto ins = [&](const std::function<u128()>& g) { std::vector<u128> v(static_cast<size_t>(n)); for (auto& x : v) x = g(); return v; };
  auto gen_in = [&] {
    switch (R(5)) {
      case 0: return ins([&] { return u128(R(2)); });
      case 1: return ins([&] { return Bounded(k, static_cast<int>(RI(1, k - 2))); });
      default: return ins([&] { return Val(k); });
    }
  };
  auto fresh = [&](const std::function<u128()>& g) { return t.To(t.In(ins(g), sh), RKind(), RI(0, N - 1)); };
  int first = static_cast<int>(RI(2, 4));
  for (int i = 0; i < first; ++i) t.To(t.In(gen_in(), sh), RKind(), RI(0, N - 1));
  auto pick = [&](const std::function<bool(const Reg&)>& p) { auto c = t.Find([&](const Reg& r) { return r.sh == sh && p(r); }); return c.empty() ? -1 : Pick(c); };
  auto any = [](const Reg&) { return true; };
  auto has = [&](const char* nm) { return w.ctx[0]->hasKernel(nm); };
  for (int s = 0; s < steps && !t.dead; ++s) {
    if (Coin(8)) { t.To(t.In(gen_in(), sh), RKind(), RI(0, N - 1)); continue; }
    if (Coin(8) && !t.spdz) { int a = pick(any); if (a >= 0) t.Relayout(a); continue; }
    int a = pick(any), b = pick(any);
    if (a < 0) break;
    const Reg ra = t.regs[static_cast<size_t>(a)], rb = t.regs[static_cast<size_t>(b)];
    auto shift = [&] { return static_cast<size_t>(n) > 1 && Coin(30) ? Sizes([&] { std::vector<int64_t> q; for (int64_t i = 0; i < n; ++i) q.push_back(RI(0, k - 1)); return Sizes(q.begin(), q.end()); }()) : Sizes{RI(0, k - 1)}; };
    auto bits_at = [&](const Sizes& z) { return [&t, z](J& e) { (void)t; e.ints("bits", z); }; };
    // the boolean half of SPDZ2K cannot be reached by a user of the library and is left out (see DESIGN.md)
    static const std::vector<u64> arith = {0, 1, 2, 3, 4, 5, 10, 12, 20, 22, 26, 27, 27};
    u64 what = t.spdz ? Pick(arith) : R(31);
    switch (what) {
      case 0: case 1: t.Step("add", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_add(c, x[0], x[1]); }); break;
      case 2: t.Step("sub", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_sub(c, x[0], x[1]); }); break;
      case 3: case 4: case 5: t.Step("mul", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_mul(c, x[0], x[1]); }); break;
      case 6: case 7: t.Step("and", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_and(c, x[0], x[1]); }); break;
      case 8: t.Step("xor", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_xor(c, x[0], x[1]); }); break;
      case 9: t.Step("or", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_or(c, x[0], x[1]); }); break;
      case 10: t.Step("neg", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_negate(c, x[0]); }); break;
      case 11: t.Step("not", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_not(c, x[0]); }); break;
      case 12: t.Step("square", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_square(c, x[0]); }); break;
      case 13: t.Step("msb", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_msb(c, x[0]); }); break;
      case 14: { auto z = shift(); t.Step("lshift", {a}, bits_at(z), [z](SPUContext* c, const std::vector<Value>& x) { return hal::_lshift(c, x[0], z); }); break; }
      case 15: { auto z = shift(); t.Step("rshift", {a}, bits_at(z), [z](SPUContext* c, const std::vector<Value>& x) { return hal::_rshift(c, x[0], z); }); break; }
      case 16: {
        if (ra.kind == 'B' && ra.nb != k) break;  // sign extension of a boolean sharing is defined on the whole ring
        auto z = shift();
        t.Step("arshift", {a}, bits_at(z), [z](SPUContext* c, const std::vector<Value>& x) { return hal::_arshift(c, x[0], z); });
        break;
      }
      case 17: {
        size_t st = R(static_cast<u64>(k)), en = st + R(static_cast<u64>(k) - st + 1);
        t.Step("bitrev", {a}, [&](J& e) { e.i("s", static_cast<int64_t>(st)).i("t", static_cast<int64_t>(en)); }, [=](SPUContext* c, const std::vector<Value>& x) { return hal::_bitrev(c, x[0], st, en); });
        break;
      }
      case 18: {
        if (Coin(60)) {  // likely equal elements
          auto v = ra.open;
          for (auto& x : v) if (Coin(30)) x = Coin() ? Val(k) : x ^ (u128(1) << R(static_cast<u64>(k)));
          b = t.To(t.In(v, sh), RKind(), RI(0, N - 1));
          if (b < 0) break;
        }
        t.Step("equal", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_equal(c, x[0], x[1]); });
        break;
      }
      case 19: {
        auto p = [&](const Reg& r) { return t.Within(r, k - 2); };
        a = pick(p); b = pick(p);
        if (a < 0 || Coin(40)) a = fresh([&] { return Bounded(k, k - 2); });
        if (b < 0 || Coin(40)) b = fresh([&] { return Bounded(k, k - 2); });
        if (a >= 0 && b >= 0 && !t.dead) t.Step("less", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_less(c, x[0], x[1]); });
        break;
      }
      case 20: {
        int room = local_trunc() ? small_bits : k - 2;
        auto p = [&](const Reg& r) { return t.Within(r, room); };
        a = pick(p);
        if (a < 0 || Coin(50)) { int bb = static_cast<int>(RI(1, room)); a = fresh([&] { return Bounded(k, bb); }); }
        if (a < 0 || t.dead) break;
        auto bits = static_cast<size_t>(RI(1, std::max(1, room - 1)));
        bool pos = true, neg = true;
        for (auto v : t.regs[static_cast<size_t>(a)].open) { bool m1 = (v >> (k - 1)) & 1; pos = pos && !m1; neg = neg && m1; }
        auto sg = Coin() ? SignType::Unknown : pos ? SignType::Positive : neg ? SignType::Negative : SignType::Unknown;
        t.Step("trunc", {a}, [&](J& e) { e.i("bit", static_cast<int64_t>(bits)).i("sign", static_cast<int64_t>(sg)); },
               [=](SPUContext* c, const std::vector<Value>& x) { return hal::_trunc(c, x[0], bits, sg); });
        break;
      }
      case 21: {
        int p = pick([&](const Reg& r) { return t.Bits(r); });
        if (p < 0 || Coin(30)) p = fresh([&] { return u128(R(2)); });
        if (p < 0 || t.dead) break;
        t.Step("mux", {p, a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_mux(c, x[0], x[1], x[2]); });
        break;
      }
      case 22: {  // to another visibility
        auto owner = static_cast<size_t>(R(static_cast<u64>(N)));
        bool i1 = t.Bits(ra);
        t.Step("id", {a}, nullptr, [=](SPUContext* c, const std::vector<Value>& x) -> std::optional<Value> {
          if (x[0].isPublic()) {
            if (owner == 0) return m::p2v(c, x[0], 0);
            if (owner == 1 && i1 && !arith_only) return m::p2s(c, Value(x[0].data(), spu::DT_I1));
            return m::p2s(c, x[0]);
          }
          if (x[0].isPrivate()) { if (owner == 0) return m::v2p(c, x[0]); return m::v2s(c, x[0]); }
          if (owner == 2) return m::s2p(c, x[0]);
          return m::s2v(c, x[0], owner);
        });
        break;
      }
      case 23: {  // to the other kind of sharing
        if (ra.kind == 'A') t.Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::a2b(c, x[0]); });
        else if (ra.kind == 'B') {
          t.Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::b2a(c, x[0]); });
        }
        break;
      }
      case 24: {  // the common type of two secrets
        if (!(ra.kind == 'A' || ra.kind == 'B') || !(rb.kind == 'A' || rb.kind == 'B')) break;
        t.Step("id", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_cast_type(c, x[0], hal::_common_type(c, x[0].storage_type(), x[1].storage_type())); });
        break;
      }
      case 25: t.Step("sign", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_sign(c, x[0]); }); break;
      case 26: {
        u128 v = Val(k);
        t.Step("make", {}, [&](J& e) { e.raw("v", W(v, w.bytes())).i("num", n); }, [=](SPUContext* c, const std::vector<Value>&) { return hal::_constant(c, v, sh); });
        break;
      }
      case 27: {
        int q = static_cast<int>(R(t.spdz ? 2 : 4));
        bool ok = q == 0 || (q == 1 ? has("rand_a") : q == 2 ? has("rand_b") : has("rand_s") || has("rand_a"));
        if (!ok) break;
        t.Step("rand", {}, [&](J& e) { e.i("w", q == 2 ? 1 : k).i("num", n); }, [=](SPUContext* c, const std::vector<Value>&) {
          return q == 0 ? m::rand_p(c, sh) : q == 1 ? m::rand_a(c, sh) : q == 2 ? m::rand_b(c, sh) : m::rand_s(c, sh, spu::DT_I32); });
        break;
      }
      case 28: {
        if (ra.kind != 'B' || ra.nb < 2 || (ra.nb & (ra.nb - 1)) != 0) break;
        int lg = 0; while ((1 << (lg + 1)) <= ra.nb) ++lg;
        auto st = static_cast<size_t>(RI(0, lg - 1));
        bool de = Coin();
        t.Step(de ? "bitdeintl" : "bitintl", {a}, [&](J& e) { e.i("stride", static_cast<int64_t>(st)); },
               [=](SPUContext* c, const std::vector<Value>& x) { return de ? m::bitdeintl_b(c, x[0], st) : m::bitintl_b(c, x[0], st); });
        break;
      }
      case 29: {
        auto full = [&](const Reg& r) { return r.kind == 'B' && r.nb == k; };
        a = pick(full); b = pick(full);
        if (a < 0 || b < 0) break;
        t.Step("add", {a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::add_bb(c, x[0], x[1]); });
        break;
      }
      case 30: {
        if (ra.kind == 'P' || ra.kind == 'V') break;
        if (Coin()) t.Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_prefer_a(c, x[0]); });
        else t.Step("id", {a}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_prefer_b(c, x[0]); });
        break;
      }
    }
    // matrices of the program's shape
    if (sh.ndim() == 2 && Coin(20) && !t.dead) {
      int64_t q = Coin() ? sh[0] : RI(1, 4);
      std::vector<u128> v(static_cast<size_t>(sh[1] * q));
      for (auto& x : v) x = Val(k);
      int y = t.To(t.In(v, {sh[1], q}), Coin(70) ? 'A' : RKind(), RI(0, N - 1));
      if (y < 0) break;
      int x = pick(any);
      t.Step("mmul", {x, y}, nullptr, [](SPUContext* c, const std::vector<Value>& z) { return hal::_mmul(c, z[0], z[1]); });
    }
  }
  if (!t.dead) t.Fin();
}

// Every operation once on every combination of kinds of operands.
static void Grid(World& w, int k, int small_bits, bool msb_err) {
  std::unique_ptr<Machine> t;
  std::string pn = w.proto.name;
  const auto N = static_cast<int64_t>(w.n());
  Shape sh;
  size_t n = 1;
  auto ins = [&](const std::function<u128()>& g) { std::vector<u128> v(n); for (auto& x : v) x = g(); return v; };
  int room = msb_err || pn == "ABY3" || pn == "SWIFT" || pn == "SPDZ2K" || pn == "REF2K" ? small_bits : k - 2;
  // P V: public, private; A: arithmetic; B: boolean; N: boolean of fewer bits
  std::string kinds = w.proto.kind < 0 ? "PVA" : pn == "REF2K" ? "PVA" : "PVABN";
  int narrow = k - 1;
  auto opd = [&](char kd, const std::function<u128()>& g) {
    auto v = ins(g);
    if (kd == 'N') { int wd = static_cast<int>(RI(1, narrow)); for (auto& x : v) x &= (u128(1) << wd) - 1; }
    return t->To(t->In(v, sh), kd == 'N' ? 'B' : kd, RI(0, N - 1));
  };
  auto any = [&] { return Val(k); };
  auto bound = [&](int b) { return [&, b] { return Bounded(k, static_cast<int>(RI(1, b))); }; };
  auto fresh = [&] {
    static const std::vector<Shape> shs = {{1}, {2}, {5}, {2, 3}, {7}};
    if (!t || t->dead || t->regs.size() > 40) { if (t && !t->dead) t->Fin(); t = std::make_unique<Machine>(w, k); arith_only = t->spdz; }
    sh = w.proto.kind < 0 ? Shape{RI(1, 2)} : Pick(shs);
    n = static_cast<size_t>(sh.numel());
  };
  using F1 = Value (*)(SPUContext*, const Value&);
  using F2 = Value (*)(SPUContext*, const Value&, const Value&);
  std::vector<std::pair<const char*, F2>> bin = {{"add", hal::_add}, {"sub", hal::_sub}, {"mul", hal::_mul}, {"equal", hal::_equal}, {"less", hal::_less}};
  std::vector<std::pair<const char*, F1>> un = {{"neg", hal::_negate}, {"square", hal::_square}, {"msb", hal::_msb}};
  if (w.proto.kind >= 0) {
    bin.insert(bin.end(), {{"and", hal::_and}, {"xor", hal::_xor}, {"or", hal::_or}});
    un.insert(un.end(), {{"not", hal::_not}, {"sign", hal::_sign}});
  } else { bin.pop_back(); bin.pop_back(); un.pop_back(); }
  for (char ka : kinds) {
    for (char kb : kinds)
      for (auto& [nm, f] : bin) {
        fresh();
        auto g = std::string(nm) == "less" ? std::function<u128()>(bound(k - 3)) : std::function<u128()>(any);
        narrow = std::string(nm) == "less" ? k - 3 : k - 1;
        int a = opd(ka, g), b = opd(kb, g);
        narrow = k - 1;
        if (std::string(nm) == "equal" && Coin() && a >= 0) { auto v = t->regs[static_cast<size_t>(a)].open; v[R(n)] ^= u128(1) << R(static_cast<u64>(k)); b = t->To(t->In(v, sh), kb == 'N' ? 'B' : kb, RI(0, N - 1)); }
        if (a < 0 || b < 0) continue;
        auto ff = f;
        t->Step(nm, {a, b}, nullptr, [ff](SPUContext* c, const std::vector<Value>& x) { return ff(c, x[0], x[1]); });
      }
    for (auto& [nm, f] : un) {
      fresh();
      int a = opd(ka, any);
      if (a < 0) continue;
      auto ff = f;
      t->Step(nm, {a}, nullptr, [ff](SPUContext* c, const std::vector<Value>& x) { return ff(c, x[0]); });
    }
    if (w.proto.kind < 0) continue;
    for (int rep = 0; rep < 6; ++rep) {  // shifts: one amount, or one per element
      for (const char* nm : {"lshift", "rshift", "arshift"}) {
        fresh();
        int a = opd(ka, any);
        if (a < 0) continue;
        const auto& ra = t->regs[static_cast<size_t>(a)];
        if (nm[0] == 'a' && ra.kind == 'B' && ra.nb != k) continue;
        std::vector<int64_t> q;
        for (size_t i = 0; i < (rep % 2 ? n : 1); ++i) q.push_back(Coin(30) ? RI(0, 5) : RI(0, k - 1));
        Sizes z(q.begin(), q.end());
        t->Step(nm, {a}, [&](J& e) { e.ints("bits", z); }, [=](SPUContext* c, const std::vector<Value>& x) {
          return nm[0] == 'l' ? hal::_lshift(c, x[0], z) : nm[0] == 'r' ? hal::_rshift(c, x[0], z) : hal::_arshift(c, x[0], z); });
        if (t->dead) continue;
        int last = static_cast<int>(t->regs.size()) - 1;
        if (t->regs[static_cast<size_t>(last)].kind == 'B' && Coin())  // what is left of it is used further
          t->Step("id", {last}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return m::b2a(c, x[0]); });
      }
      fresh();
      int a = opd(ka, any);
      size_t st = R(static_cast<u64>(k)), en = st + R(static_cast<u64>(k) - st + 1);
      if (Coin()) { st = R(8); en = st + R(9); }
      if (a >= 0) t->Step("bitrev", {a}, [&](J& e) { e.i("s", static_cast<int64_t>(st)).i("t", static_cast<int64_t>(en)); }, [=](SPUContext* c, const std::vector<Value>& x) { return hal::_bitrev(c, x[0], st, en); });
      fresh();
      int bb = rep % 2 ? room : static_cast<int>(RI(1, room));
      a = opd(ka == 'N' ? 'B' : ka, [&] { return rep % 2 ? Bounded(k, bb) : Bounded(k, static_cast<int>(RI(1, bb))); });
      auto bits = static_cast<size_t>(RI(1, std::max(1, room - 1)));
      if (a >= 0) t->Step("trunc", {a}, [&](J& e) { e.i("bit", static_cast<int64_t>(bits)).i("sign", 0); }, [=](SPUContext* c, const std::vector<Value>& x) { return hal::_trunc(c, x[0], bits, SignType::Unknown); });
    }
    for (int rep = 0; rep < 2; ++rep) {
      fresh();
      int p = opd(ka, [] { return u128(R(2)); }), a = opd(Pick(std::vector<char>(kinds.begin(), kinds.end())), any), b = opd(Pick(std::vector<char>(kinds.begin(), kinds.end())), any);
      if (p >= 0 && a >= 0 && b >= 0) t->Step("mux", {p, a, b}, nullptr, [](SPUContext* c, const std::vector<Value>& x) { return hal::_mux(c, x[0], x[1], x[2]); });
    }
    for (size_t o = 0; o < w.n(); ++o) {  // there and back between visibilities
      fresh();
      int a = opd(ka, any);
      if (a < 0 || ka == 'P' || ka == 'V') continue;
      int v = t->Step("id", {a}, nullptr, [=](SPUContext* c, const std::vector<Value>& x) { return m::s2v(c, x[0], o); });
      if (v < 0) continue;
      t->Step("id", {v}, nullptr, [=](SPUContext* c, const std::vector<Value>& x) { return m::v2s(c, x[0]); });
      t->Step("id", {a}, nullptr, [=](SPUContext* c, const std::vector<Value>& x) { return x[0].storage_type().isa<spu::BShare>() ? m::b2a(c, x[0]) : pn == "REF2K" ? x[0] : m::a2b(c, x[0]); });
    }
  }
  if (t && !t->dead) t->Fin();
}

int main(int argc, char** argv) {
  Open(argc, argv);
  reseed_each = true;
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  yacl::link::shim::SetRecvTimeoutMs(20000);
  struct Cfg { Proto p; int k; int programs; };
  std::vector<Cfg> cfgs;
  for (auto& p : Protos())
    for (int k : {32, 64, 128}) {
      std::string nm = p.name;
      if (k == 128 && (nm == "SWIFT" || nm == "SPDZ2K")) continue;
      int base = nm == "SEMI2K" || nm == "ABY3" ? 26 : nm == "SPDZ2K" ? 12 : nm == "REF2K" ? 8 : 20;
      if (k == 128) base = base * 2 / 3;
      cfgs.push_back({p, k, base});
    }
  for (auto& c : cfgs) {
    if (!only.empty() && only != c.p.name) continue;
    for (int s = 0; s < scale; ++s) {
      std::unique_ptr<World> w;
      bool spdz = c.p.kind < 0;
      if (s % 4 == 0) {
        bool e = Coin();
        auto g = MakeWorld(c.p, FieldOf(c.k), [&](RuntimeConfig& r) { r.trunc_allow_msb_error = e; });
        Grid(*g, c.k, c.k == 32 ? 8 : c.k == 64 ? 36 : 96, e);
      }
      for (int i = 0; i < c.programs; ++i) {
        if (!w || i % 5 == 0) w = MakeWorld(c.p, FieldOf(c.k), [&](RuntimeConfig& r) { if (s % 2) r.trunc_allow_msb_error = true; });
        bool msb_err = s % 2;
        static const std::vector<Shape> shs = {{}, {1}, {3}, {2, 2}, {2, 3}, {5}, {3, 1}, {2, 1, 2}, {4}, {1, 4}};
        static const std::vector<Shape> shz = {{1}, {2}, {2, 2}, {3}};
        auto sh = spdz ? Pick(shz) : Coin(4) ? Shape{37} : Pick(shs);
        int sb = c.k == 32 ? 8 : c.k == 64 ? 36 : 96;
        Program(*w, c.k, static_cast<int>(RI(5, 16)), sh, sb, msb_err);
        for (auto& e : w->err) if (!e.empty()) w.reset();
        if (!w) continue;
      }
    }
  }
  Close();
  for (auto& [f, n] : used) fprintf(stderr, "%s %" PRId64 "\n", f.c_str(), n);
}
