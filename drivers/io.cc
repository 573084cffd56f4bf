// Plain values in and out of the ring (C09), shares for clients and the co-located store (C10).
#include <cmath>
#include <limits>

#include "mpc.h"

#include "libspu/core/encoding.h"
#include "libspu/core/half.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
#include "libspu/device/io.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/mpc/factory.h"
#include "libspu/mpc/io_interface.h"

using namespace drv;
using u32 = uint32_t;
using spu::DataType;
using spu::PtBufferView;
using spu::PtType;
using spu::Strides;
namespace hal = spu::kernel::hal;

struct PT { const char* name; PtType t; size_t sz; char kind; DataType dt; };
static const std::vector<PT> kTypes = {
    {"I1", spu::PT_I1, 1, 'b', spu::DT_I1}, {"I8", spu::PT_I8, 1, 'i', spu::DT_I8}, {"U8", spu::PT_U8, 1, 'u', spu::DT_U8}, {"I16", spu::PT_I16, 2, 'i', spu::DT_I16},
    {"U16", spu::PT_U16, 2, 'u', spu::DT_U16}, {"I32", spu::PT_I32, 4, 'i', spu::DT_I32}, {"U32", spu::PT_U32, 4, 'u', spu::DT_U32}, {"I64", spu::PT_I64, 8, 'i', spu::DT_I64},
    {"U64", spu::PT_U64, 8, 'u', spu::DT_U64}, {"F16", spu::PT_F16, 2, 'f', spu::DT_F16}, {"F32", spu::PT_F32, 4, 'f', spu::DT_F32}, {"F64", spu::PT_F64, 8, 'f', spu::DT_F64}};
static const PT& TypeOf(DataType d) { for (auto& t : kTypes) if (t.dt == d) return t; static PT none = {"none", spu::PT_INVALID, 1, '?', spu::DT_INVALID}; return none; }
using half = half_float::half;

// one plain element: its bytes, padded to 8; floats are logged as doubles, which hold them exactly
struct El { u8 b[8] = {0}; };
static double AsDouble(const PT& t, const El& e) {
  if (t.sz == 2) { half h; memcpy(&h, e.b, 2); return static_cast<double>(static_cast<float>(h)); }
  if (t.sz == 4) { float f; memcpy(&f, e.b, 4); return f; }
  double d; memcpy(&d, e.b, 8); return d;
}
static El FromDouble(const PT& t, double d) {
  El e;
  if (t.sz == 2) { half h(static_cast<float>(d)); memcpy(e.b, &h, 2); }
  else if (t.sz == 4) { float f = static_cast<float>(d); memcpy(e.b, &f, 4); }
  else memcpy(e.b, &d, 8);
  return e;
}
static std::string Log(const PT& t, const El& e) {
  if (t.kind == 'f') { double d = AsDouble(t, e); return Bytes(&d, 8); }
  return Bytes(e.b, t.sz);
}
static std::string Logs(const PT& t, const std::vector<El>& v) { std::string s = "["; for (auto& e : v) { if (s.size() > 1) s += ','; s += Log(t, e); } return s + "]"; }
static std::string Ints(const Shape& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }

static El REl(const PT& t, int k, int f) {
  El e;
  if (t.kind == 'b') { e.b[0] = Coin(); return e; }
  if (t.kind != 'f') { u128 v = Val(static_cast<int>(t.sz) * 8); memcpy(e.b, &v, t.sz); return e; }
  double top = std::ldexp(1.0, k - 2 - f), ulp = std::ldexp(1.0, -f), d = 0;
  switch (R(14)) {
    case 0: d = Coin() ? top : std::nextafter(top, Coin() ? 0 : 1e300); break;
    case 1: d = Coin() ? top - ulp : top + ulp; break;
    case 2: d = Coin() ? ulp : ulp * static_cast<double>(RI(0, 9)) / 4; break;
    case 3: d = Coin() ? std::numeric_limits<double>::infinity() : std::nan(""); break;
    case 4: d = static_cast<double>(RI(-5, 5)); break;
    case 5: d = std::ldexp(static_cast<double>(R(u64(1) << 53)), static_cast<int>(RI(-120, 60))); break;
    case 6: d = std::nextafter(static_cast<double>(RI(0, 100)), -1); break;
    case 7: d = std::ldexp(1.0, static_cast<int>(RI(-60, 140))); break;
    case 8: d = Coin() ? std::numeric_limits<double>::denorm_min() : std::numeric_limits<double>::max(); break;
    case 9: d = std::ldexp(static_cast<double>(R(u64(1) << 24)), static_cast<int>(RI(-40, 40))); break;
    case 10: d = std::ldexp(static_cast<double>(R(u64(1) << 11)), static_cast<int>(RI(-24, 6))); break;
    default: d = std::ldexp(static_cast<double>(R(u64(1) << 53)), static_cast<int>(RI(0, k - 2)) - f - 53); break;
  }
  if (t.sz == 4 && Coin(15)) { float x = static_cast<float>(d); d = std::nextafterf(x, Coin() ? 1e30F : -1e30F); }
  return FromDouble(t, Coin() ? -d : d);
}
// a strided buffer that holds the elements
struct Buf {
  std::vector<u8> mem;
  Strides st;
  int64_t off = 0;
  const PT* t;
  Shape sh;
  bool bits = false;
  int64_t Pos(int64_t i) const { int64_t p = off; for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; --d) { p += (i % sh[d]) * st[d]; i /= sh[d]; } return p; }
  El Get(int64_t i) const { El e; memcpy(e.b, mem.data() + Pos(i) * static_cast<int64_t>(t->sz), t->sz); return e; }
  void Set(int64_t i, const El& e) { memcpy(mem.data() + Pos(i) * static_cast<int64_t>(t->sz), e.b, t->sz); }
  PtBufferView View() { return PtBufferView(static_cast<void*>(mem.data() + off * static_cast<int64_t>(t->sz)), t->t, sh, st); }
};
static Buf MkBuf(const PT& t, const Shape& sh, bool compact) {
  Buf b;
  b.t = &t; b.sh = sh;
  int64_t n = static_cast<int64_t>(sh.size()), total = 1, lo = 0;
  b.st = Strides(sh.size());
  std::vector<int64_t> perm(n);
  for (int64_t d = 0; d < n; ++d) perm[d] = n - 1 - d;
  if (!compact) for (int64_t d = n; d > 1; --d) std::swap(perm[d - 1], perm[R(d)]);
  for (auto d : perm) {
    int64_t s = total * (compact ? 1 : RI(1, 2));
    if (!compact && Coin(20)) { s = -s; if (sh[d] > 1) lo += s * (sh[d] - 1); }
    b.st[d] = s;
    total = std::abs(s) * std::max<int64_t>(sh[d], 1);
  }
  if (compact && n) b.st = spu::makeCompactStrides(sh);
  b.off = -lo + (compact ? 0 : RI(0, 2));
  b.mem.assign(static_cast<size_t>(total + b.off + 8) * t.sz * 2, t.kind == 'b' ? 1 : 0xA5);
  return b;
}
static std::vector<El> Fill(Buf& b, int k, int f) {
  std::vector<El> v;
  for (int64_t i = 0; i < b.sh.numel(); ++i) { v.push_back(REl(*b.t, k, f)); b.Set(i, v.back()); }
  return v;
}
template <class F> static bool Try(F f, std::string* err = nullptr) {
  try { f(); return true; } catch (const std::exception& e) { if (err) *err = e.what(); return false; }
}
static Shape SmallShape() { return Coin(15) ? Shape{} : RShape(3, 4, 4); }
static int RF(int k) { return Coin(40) ? (k == 32 ? 8 : k == 64 ? 18 : 26) : static_cast<int>(RI(1, k == 32 ? 16 : k == 64 ? 30 : 60)); }

static void Enc() {
  int k = Pick(std::vector<int>{32, 64, 128}), f = RF(k);
  auto& t = Coin(60) ? kTypes[9 + R(3)] : kTypes[R(kTypes.size())];
  auto sh = SmallShape();
  auto b = MkBuf(t, sh, Coin(30));
  auto v = Fill(b, k, f);
  if (t.kind == 'f' && v.size() > 2 && Coin()) {   // close neighbours
    double d = AsDouble(t, v[0]);
    for (size_t i = 1; i < v.size(); ++i) { if (Coin()) d = t.sz == 4 ? std::nextafterf(static_cast<float>(d), 1e30F) : std::nextafter(d, 1e300); else d += std::ldexp(0.25, -f); v[i] = FromDouble(t, d); b.Set(static_cast<int64_t>(i), v[i]); }
  }
  DataType dt = spu::DT_INVALID;
  NdArrayRef r;
  auto mem = b.mem;
  bool ok = Try([&] { r = spu::encodeToRing(b.View(), FieldOf(k), static_cast<size_t>(f), &dt); });
  J j("enc");
  j.i("k", k).i("f", f).str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)).raw("x", Logs(t, v)).b("ok", ok).b("kept", mem == b.mem);
  j.raw("sh", Ints(sh)).raw("rsh", ok ? Ints(r.shape()) : "[]").str("dt", TypeOf(dt).name).b("ring", ok && r.eltype() == spu::makeType<spu::RingTy>(FieldOf(k))).raw("out", ok ? Elems(r) : "[]");
}
// ring words whose decoded value means something for the type
static u128 RWord(const PT& t, int k) {
  if (t.kind == 'f' || static_cast<int>(t.sz) * 8 > k) return Val(k);
  if (t.kind == 'b') return Coin(30) ? Val(k) : R(2);
  int w = static_cast<int>(t.sz) * 8;
  u128 v = Val(w);
  if (w < 128) { v &= (u128(1) << w) - 1; if (t.kind == 'i' && (v >> (w - 1))) v |= ~u128(0) << w; }
  return v;
}
static void Dec() {
  int k = Pick(std::vector<int>{32, 64, 128}), f = RF(k);
  auto& t = Coin(60) ? kTypes[9 + R(3)] : kTypes[R(kTypes.size())];
  auto sh = SmallShape();
  auto src = RLayout(spu::makeType<spu::RingTy>(FieldOf(k)), sh, k);
  for (int64_t i = 0; i < sh.numel(); ++i) {
    u128 w = RWord(t, k);
    if (t.kind == 'f' && Coin(40)) { int p = static_cast<int>(RI(1, k)); if (p < k) { i128 s = static_cast<i128>(w << (128 - p)); w = static_cast<u128>(s >> (128 - p)); } }
    memcpy(const_cast<u8*>(ElemPtr(src, i)), &w, static_cast<size_t>(k) / 8);
  }
  auto b = MkBuf(t, sh, Coin(30));
  auto before = Whole(src);
  std::set<size_t> mine;
  for (int64_t i = 0; i < sh.numel(); ++i) for (size_t q = 0; q < t.sz; ++q) mine.insert(static_cast<size_t>(b.Pos(i)) * t.sz + q);
  auto mem = b.mem;
  PtType got = spu::PT_INVALID;
  auto v = b.View();
  bool ok = Try([&] { spu::decodeFromRing(src, t.dt, static_cast<size_t>(f), &v, &got); });
  bool kept = before == Whole(src);
  for (size_t q = 0; q < mem.size(); ++q) kept = kept && (mine.count(q) || mem[q] == b.mem[q]);
  std::vector<El> out;
  for (int64_t i = 0; i < sh.numel(); ++i) out.push_back(b.Get(i));
  J j("dec");
  j.i("k", k).i("f", f).str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)).raw("x", Elems(src)).b("ok", ok && got == t.t).b("kept", kept).raw("out", Logs(t, out));
}
// public constants and what is read back from them
static std::vector<El> Dump(SPUContext* c, const Value& v, const PT& t, std::string* sh) {
  auto a = hal::dump_public(c, v);
  std::vector<El> out;
  for (int64_t i = 0; i < Numel(a); ++i) { El e; memcpy(e.b, ElemPtr(a, i), t.sz); out.push_back(e); }
  if (sh) *sh = Ints(a.shape());
  return out;
}
static void Const() {
  int k = Pick(std::vector<int>{32, 64, 128}), f = RF(k);
  auto w = MakeWorld(P("REF2K", 2), FieldOf(k), [&](RuntimeConfig& c) { c.fxp_fraction_bits = f; });
  auto* c = w->ctx[0];
  for (int rep = 0; rep < 8; ++rep) {
    auto& t = kTypes[R(kTypes.size())];
    auto sh = SmallShape();
    if (Coin(20) || static_cast<int>(t.sz) * 8 > k) {
      if (t.kind == 'b' || (t.kind != 'f' && static_cast<int>(t.sz) * 8 > k)) continue;
      int64_t n = RI(0, 12);
      Value v;
      std::vector<El> d;
      bool ok = Try([&] { v = hal::iota(c, t.dt, n); d = Dump(c, v, t, nullptr); });
      J j("iota");
      j.i("k", k).i("f", f).str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)).i("n", n).b("ok", ok && v.isPublic() && v.dtype() == t.dt).raw("out", ok ? Elems(v.data()) : "[]").raw("back", Logs(t, d));
      continue;
    }
    Shape ish = Coin(70) ? sh : Shape{};
    if (Coin(20)) { ish.clear(); ish.push_back(sh.numel()); }
    auto b = MkBuf(t, ish, Coin());
    auto x = Fill(b, k, f);
    const Shape gsh = sh.size() == 0 ? ish : sh;   // no shape given: that of the array
    std::vector<El> want(static_cast<size_t>(sh.numel())), d;
    for (size_t i = 0; i < want.size(); ++i) want[i] = x[ish.numel() == sh.numel() ? i : 0];
    Value v;
    std::string dsh;
    bool ok = Try([&] { v = hal::constant(c, b.View(), t.dt, sh); d = Dump(c, v, t, &dsh); });
    J j("const");
    j.i("k", k).i("f", f).str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)).b("ok", ok && v.isPublic() && v.dtype() == t.dt).raw("sh", Ints(gsh)).raw("rsh", ok ? Ints(v.shape()) : "[]").raw("dsh", ok ? dsh : "[]").raw("x", Logs(t, want)).raw("out", ok ? Elems(v.data()) : "[]").raw("back", Logs(t, d));
  }
}

// ---------------------------------------------------------------- C10
static std::vector<Proto> IoProtos() { std::vector<Proto> r; for (auto& p : Protos()) if (p.kind >= 0) r.push_back(p); return r; }
static void Share(const Proto& p, int k) {
  if (std::string(p.name) == "SWIFT" && k == 128) return;
  int f = RF(k);
  auto conf = MakeConf(p, FieldOf(k));
  conf.fxp_fraction_bits = f;
  bool colo = Coin();
  conf.experimental_enable_colocated_optimization = colo;
  spu::device::IoClient io(p.n, conf);
  for (int rep = 0; rep < 6; ++rep) {
    auto& t = Coin(20) ? kTypes[0] : kTypes[R(kTypes.size())];
    if (t.kind != 'f' && static_cast<int>(t.sz) * 8 > k) continue;
    auto sh = SmallShape();
    bool cx = (t.sz == 4 || t.sz == 8) && t.kind == 'f' && Coin(25);
    auto vis = Coin(30) ? spu::VIS_PUBLIC : spu::VIS_SECRET;
    int owner = Coin(40) ? static_cast<int>(R(p.n)) : -1;
    auto b = MkBuf(t, sh, Coin(40)), o = MkBuf(t, sh, Coin(40));
    std::vector<El> x, y;
    std::vector<Value> vs;
    std::vector<std::vector<u8>> parts;
    bool ok, pt = false;
    size_t size = 0, real = 0;
    std::string err;
    if (cx) {   // pairs: element i of the complex view is elements 2i, 2i+1 of memory
      std::vector<u8> mem(b.mem.size() * 2, 0x5A), om(o.mem.size() * 2, 0);
      for (int64_t i = 0; i < sh.numel(); ++i) {
        El re = REl(t, k, f), im = REl(t, k, f);
        x.push_back(re); x.push_back(im);
        memcpy(mem.data() + b.Pos(i) * 2 * static_cast<int64_t>(t.sz), re.b, t.sz);
        memcpy(mem.data() + (b.Pos(i) * 2 + 1) * static_cast<int64_t>(t.sz), im.b, t.sz);
      }
      auto ct = t.sz == 4 ? spu::PT_CF32 : spu::PT_CF64;
      ok = Try([&] {
        PtBufferView bv(static_cast<void*>(mem.data() + b.off * 2 * static_cast<int64_t>(t.sz)), ct, sh, b.st);
        vs = io.makeShares(bv, vis, owner);
        PtBufferView ov(static_cast<void*>(om.data() + o.off * 2 * static_cast<int64_t>(t.sz)), ct, sh, o.st);
        pt = io.getPtType(vs) == ct;
        io.combineShares(vs, &ov);
      }, &err);
      for (int64_t i = 0; i < sh.numel() * 2; ++i) { El e; memcpy(e.b, om.data() + (o.Pos(i / 2) * 2 + i % 2) * static_cast<int64_t>(t.sz), t.sz); y.push_back(e); }
    } else {
      x = Fill(b, k, f);
      ok = Try([&] {
        vs = io.makeShares(b.View(), vis, owner);
        size = io.getShareSize(b.View(), vis, colo ? owner : -1);
        auto ov = o.View();
        pt = io.getPtType(vs) == t.t;
        io.combineShares(vs, &ov);
      }, &err);
      for (int64_t i = 0; i < sh.numel(); ++i) y.push_back(o.Get(i));
    }
    if (!ok) fprintf(stderr, "%s %d %s: %s\n", p.name, k, t.name, err.substr(0, 200).c_str());
    bool form = vs.size() == p.n;
    std::string kinds, shares = "[";
    for (auto& v : vs) {
      form = form && v.shape() == sh && v.dtype() == t.dt && v.isComplex() == cx;
      kinds += v.isPublic() ? 'P' : v.isPrivate() ? 'V' : 'S';
      if (v.isPrivate() && v.storage_type().as<spu::Private>()->owner() != owner) form = false;
      real = static_cast<size_t>(v.data().numel()) * v.data().elsize();
      if (shares.size() > 1) shares += ',';
      shares += Elems(v.data());
    }
    J j("share");
    j.str("proto", p.name).i("n", static_cast<int64_t>(p.n)).i("k", k).i("f", f).str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)).b("cx", cx).b("ok", ok).b("form", form).b("ptype", pt);
    j.str("vis", vis == spu::VIS_PUBLIC ? "P" : "S").i("owner", colo ? owner : -1).str("kinds", kinds).raw("sh", Ints(sh)).raw("x", Logs(t, x)).raw("out", Logs(t, y)).b("size", cx || !ok || size == real).raw("sharew", shares + "]");
    if (!ok) j.str("err", err.substr(0, 200));
  }
}
// How the pieces of one party look when the data is a constant: ones per bit, and how often the commonest word occurs.
static void Hide(const Proto& p, int k) {
  if (std::string(p.name) == "REF2K" || (std::string(p.name) == "SWIFT" && k == 128)) return;
  auto conf = MakeConf(p, FieldOf(k));
  spu::device::IoClient io(p.n, conf);
  const int64_t N = 1024;
  for (bool bit : {false, true}) {
    std::vector<u8> mem(N * 8, 0);
    u32 one = static_cast<u32>(rng()) | 0x10001;
    for (int64_t i = 0; i < N; ++i) { if (bit) mem[static_cast<size_t>(i)] = 1; else memcpy(mem.data() + i * 4, &one, 4); }
    PtBufferView bv(static_cast<const void*>(mem.data()), bit ? spu::PT_I1 : spu::PT_I32, Shape{N}, Strides{1});
    std::vector<Value> vs;
    if (!Try([&] { vs = io.makeShares(bv, spu::VIS_SECRET, -1); })) { J j("hide"); j.str("proto", p.name).i("k", k).b("ok", false).raw("ones", "[]").i("most", 0).i("N", N).i("w", 1).i("party", 0).b("comb", false); continue; }
    for (size_t r = 0; r < vs.size(); ++r) {
      auto a = vs[r].data();
      size_t es = a.elsize();
      bool nb = vs[r].storage_type().isa<spu::BShare>();
      size_t w = nb ? 1 : static_cast<size_t>(k) / 8, pieces = nb ? es / spu::SizeOf(spu::PT_U8) : es / w;
      // SEMI2K and the like: one piece; replicated protocols: two or three
      if (nb) { w = 1; if (std::string(p.name) == "ABY3") pieces = 2; else { w = es; pieces = 1; } }
      size_t bits = nb ? 1 : w * 8;
      auto piece = [&](int64_t i, size_t q) { u128 v = 0; memcpy(&v, ElemPtr(a, i) + q * w, std::min<size_t>(w, 16)); return v; };
      for (size_t q = 0; q < pieces + (pieces > 1 ? 3 : 0); ++q) {
        std::vector<int64_t> ones(bits, 0);
        std::map<u128, int64_t> cnt;
        int64_t most = 0;
        for (int64_t i = 0; i < N; ++i) {
          u128 v = q < pieces ? piece(i, q) : q == pieces ? piece(i, 0) + piece(i, 1) : q == pieces + 1 ? piece(i, 0) - piece(i, 1) : piece(i, 0) ^ piece(i, 1);
          if (bits < 128) v &= (u128(1) << bits) - 1;
          for (size_t t = 0; t < bits; ++t) ones[t] += static_cast<int64_t>((v >> t) & 1);
          most = std::max(most, ++cnt[v]);
        }
        J j("hide");
        j.str("proto", p.name).i("n", static_cast<int64_t>(p.n)).i("k", k).i("party", static_cast<int64_t>(r)).b("ok", true).i("q", static_cast<int64_t>(q)).b("comb", q >= pieces).i("w", static_cast<int64_t>(bits)).i("N", N).ints("ones", ones).i("most", most);
      }
    }
  }
}
// The co-located store: a history of host and device operations at the parties.
static void Store(const Proto& p, int k) {
  if (std::string(p.name) == "SWIFT" && k == 128) return;
  bool colo = Coin();
  int f = RF(k);
  auto w = MakeWorld(p, FieldOf(k), [&](RuntimeConfig& c) { c.experimental_enable_colocated_optimization = colo; c.fxp_fraction_bits = f; });
  std::vector<std::unique_ptr<spu::device::ColocatedIo>> io;
  for (size_t r = 0; r < p.n; ++r) io.push_back(std::make_unique<spu::device::ColocatedIo>(w->ctx[r]));
  { J j("new"); j.str("proto", p.name).i("n", static_cast<int64_t>(p.n)).i("k", k).i("f", f).b("colo", colo); }
  const std::vector<std::string> names = {"a", "b", "c", "d"};
  bool clash = Coin(15);
  int64_t steps = RI(8, 24);
  auto head = [&](J& j, const PT& t) -> J& { return j.str("pt", t.name).str("kind", std::string(1, t.kind)).i("sz", static_cast<int64_t>(t.sz)); };
  for (int64_t s = 0; s < steps; ++s) {
    size_t r = R(p.n);
    std::string nm = names[R(names.size())];
    int op = static_cast<int>(R(12));
    if (op < 5) {
      if (!clash && Coin(80)) nm += std::to_string(r);   // names are usually a party's own
      auto& t = kTypes[R(kTypes.size())];
      if (t.kind != 'f' && static_cast<int>(t.sz) * 8 > k) continue;
      auto sh = SmallShape();
      auto b = MkBuf(t, sh, Coin());
      auto x = Fill(b, k, f);
      auto vis = Coin(40) ? spu::VIS_PUBLIC : spu::VIS_SECRET;
      bool ok = Try([&] { io[r]->hostSetVar(nm, b.View(), vis); });
      for (auto& q : b.mem) q = static_cast<u8>(q + 1);   // the store has its own copy
      J j("set");
      head(j, t).i("p", static_cast<int64_t>(r) + 1).str("name", nm).b("ok", ok).str("vis", vis == spu::VIS_PUBLIC ? "P" : "S").raw("sh", Ints(sh)).raw("x", Logs(t, x));
    } else if (op < 7) {
      std::vector<std::string> err(p.n);
      w->Run([&](size_t q, SPUContext*) { try { io[q]->sync(); } catch (const std::exception& e) { err[q] = e.what(); } });
      std::vector<int64_t> oks;
      for (auto& e : err) oks.push_back(e.empty());
      J j("sync"); j.ints("ok", oks);
    } else if (op < 9) {
      if (Coin(80)) nm += std::to_string(R(p.n));
      NdArrayRef a;
      std::string err;
      bool ok = Try([&] { a = io[r]->hostGetVar(nm); }, &err);
      J j("get");
      const PT* t = &kTypes[0];
      if (ok) for (auto& q : kTypes) if (a.eltype() == spu::makePtType(q.t)) t = &q;
      std::vector<El> v;
      if (ok) for (int64_t i = 0; i < Numel(a); ++i) { El e; memcpy(e.b, ElemPtr(a, i), t->sz); v.push_back(e); }
      head(j, *t).i("p", static_cast<int64_t>(r) + 1).str("name", nm).b("ok", ok).raw("sh", ok ? Ints(a.shape()) : "[]").raw("x", Logs(*t, v));
    } else if (op < 11) {
      if (Coin(80)) nm += std::to_string(R(p.n));
      std::vector<int64_t> has;
      for (auto& q : io) has.push_back(q->deviceHasVar(nm));
      bool all = true;
      for (auto h : has) all = all && h;
      std::string kinds, open = "[]", sh = "[]";
      int64_t owner = -1;
      const PT* t = &kTypes[0];
      bool same = true;
      if (all) {
        std::vector<std::string> got(p.n), shs(p.n), ks(p.n);
        std::vector<const PT*> ts(p.n, t);
        std::vector<int64_t> ow(p.n, -1);
        w->Run([&](size_t q, SPUContext* c) {
          auto v = io[q]->deviceGetVar(nm);
          ks[q] = v.isPublic() ? "P" : v.isPrivate() ? "V" : "S";
          if (v.isPrivate()) ow[q] = v.storage_type().as<spu::Private>()->owner();
          ts[q] = &TypeOf(v.dtype());
          shs[q] = Ints(v.shape());
          auto o = v.isPublic() ? v : v.isPrivate() ? hal::_v2p(c, v) : hal::_s2p(c, v);
          got[q] = Logs(*ts[q], Dump(c, o.setDtype(v.dtype(), true), *ts[q], nullptr));
        });
        for (size_t q = 0; q < p.n; ++q) same = same && got[q] == got[0] && shs[q] == shs[0] && ks[q] == ks[0] && ts[q] == ts[0] && ow[q] == ow[0];
        kinds = ks[0]; open = got[0].empty() ? "[]" : got[0]; sh = shs[0].empty() ? "[]" : shs[0]; owner = ow[0]; t = ts[0];
      }
      J j("dev");
      head(j, *t).str("name", nm).ints("has", has).b("same", same).str("kinds", kinds).i("owner", owner).raw("sh", sh).raw("x", open);
    } else {
      // a result of the device under a name
      auto& t = Coin() ? kTypes[5] : kTypes[10];
      Shape sh{RI(1, 3)};
      auto b = MkBuf(t, sh, true);
      auto x = Fill(b, k, f);
      bool sec = Coin();
      w->Run([&](size_t q, SPUContext* c) {
        auto v = hal::constant(c, b.View(), t.dt, sh);
        if (sec) v = hal::_p2s(c, v).setDtype(t.dt, true);
        io[q]->deviceSetVar(nm, v);
      });
      J j("put");
      head(j, t).str("name", nm).str("vis", sec ? "S" : "P").raw("sh", Ints(sh)).raw("x", Logs(t, x));
    }
  }
}

int main(int argc, char** argv) {
  drv::Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  std::string what = argc > 4 ? argv[4] : "";
  reseed_each = true;
  yacl::link::shim::SetRecvTimeoutMs(20000);
  if (what == "encode") {
    for (int i = 0; i < 900 * scale; ++i) { NewCase(); Enc(); NewCase(); Dec(); if (i % 9 == 0) { NewCase(); Const(); } }
  } else {
    for (int i = 0; i < scale; ++i)
      for (auto& p : IoProtos())
        for (int k : {32, 64, 128}) {
          for (int q = 0; q < 8; ++q) { NewCase(); Share(p, k); }
          for (int q = 0; q < 6; ++q) { NewCase(); Store(p, k); }
          NewCase(); Hide(p, k);
        }
  }
  Close();
  return 0;
}
