// Sorts, shuffles, permutations, order statistics and routing networks (C13).
// Column elements are logged as indices into an ascending table of values.
#include "mpc.h"

#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/sort.h"
#include "libspu/mpc/utils/permute.h"
#include "libspu/mpc/utils/waksman_net.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using VV = std::vector<Value>;
using Tab = std::vector<i128>;  // ascending, distinct

static u128 Mask(int k) { return k >= 128 ? ~u128(0) : (u128(1) << k) - 1; }
static Tab MkTab(int k, int bits, size_t n, bool small, bool uns) {
  std::set<i128> s;
  while (s.size() < n) {
    u128 v = small ? R(40) : (Val(bits) & Mask(bits));
    i128 x = static_cast<i128>(v);
    if (!uns) x = small ? x - 20 : x - (static_cast<i128>(1) << (bits - 1));
    s.insert(x);
    if (small && s.size() >= 30) break;
  }
  return Tab(s.begin(), s.end());
}
static int64_t Find(const Tab& t, u128 w, int k) {
  i128 x = static_cast<i128>(w & Mask(k));
  if (k < 128 && (static_cast<u128>(x) >> (k - 1))) x -= static_cast<i128>(1) << k;
  auto it = std::lower_bound(t.begin(), t.end(), x);
  return it != t.end() && *it == x ? it - t.begin() : -1;
}

struct Col { Tab tab; std::vector<int64_t> idx; char vis; size_t owner; spu::DataType dt; };
struct Env { std::unique_ptr<World> w; Proto p; int k; std::string meth; };

static Value Put(SPUContext* c, const Col& col, const Shape& sh, int k) {
  std::vector<u128> v;
  for (auto i : col.idx) v.push_back(static_cast<u128>(col.tab[i]) & Mask(k));
  auto x = Pub(c, v, sh);
  if (col.vis == 'V') x = m::p2v(c, x, col.owner);
  if (col.vis == 'S' || col.vis == 'B') x = m::p2s(c, x);
  if (col.vis == 'B') x = hal::_prefer_b(c, x);
  return x.setDtype(col.dt, true);
}
static std::vector<u128> Open(SPUContext* c, const Value& v) {
  auto o = v.isPublic() ? v : v.isPrivate() ? m::v2p(c, v) : m::s2p(c, v);
  return ToWords(o.data());
}
// the vectors along an axis: element number of entry w of fibre f
static std::vector<std::vector<int64_t>> Fibres(const Shape& sh, int64_t dim) {
  int64_t W = sh[dim], in = 1, out = 1;
  for (int64_t d = 0; d < static_cast<int64_t>(sh.size()); ++d) (d < dim ? out : d > dim ? in : W) *= d == dim ? 1 : sh[d];
  std::vector<std::vector<int64_t>> r;
  for (int64_t o = 0; o < out; ++o)
    for (int64_t i = 0; i < in; ++i) {
      std::vector<int64_t> f;
      for (int64_t w = 0; w < W; ++w) f.push_back((o * W + w) * in + i);
      r.push_back(f);
    }
  return r;
}
static std::string Ints(const std::vector<int64_t>& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }
static std::string Lists(const std::vector<std::vector<int64_t>>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ','; s += Ints(x); } return s + "]"; }
static std::vector<int64_t> At(const std::vector<int64_t>& v, const std::vector<int64_t>& f) { std::vector<int64_t> r; for (auto i : f) r.push_back(i < static_cast<int64_t>(v.size()) ? v[i] : -2); return r; }

using Fn = std::function<VV(SPUContext*, const VV&)>;
// Runs fn on the columns, opens the results, and gives back for each party the indices (table of the column of the same number).
static bool Exec(Env& e, const std::vector<Col>& cols, const Shape& sh, const Fn& fn, std::vector<std::vector<std::vector<int64_t>>>& got, std::vector<std::string>& shapes, std::string& err, bool plain = false) {
  size_t n = e.w->n();
  got.assign(n, {}); shapes.assign(n, "");
  bool ok = e.w->Run([&](size_t r, SPUContext* c) {
    VV x;
    for (auto& col : cols) x.push_back(Put(c, col, sh, e.k));
    auto y = fn(c, x);
    for (size_t j = 0; j < y.size(); ++j) {
      std::vector<int64_t> v;
      for (auto w : Open(c, y[j])) v.push_back(plain || j >= cols.size() ? static_cast<int64_t>(w < 1000000 ? w : 999999) : Find(cols[j].tab, w, e.k));
      got[r].push_back(v);
      shapes[r] += fmt::format("{}:{};", fmt::join(y[j].shape(), "x"), static_cast<int>(y[j].dtype()));
    }
  });
  for (auto& x : e.w->err) if (!x.empty() && x.find("peer stopped") == std::string::npos) err = x;
  if (!ok) fprintf(stderr, "%s %d %s: %s\n", e.p.name, e.k, e.meth.c_str(), err.substr(0, 300).c_str());
  return ok;
}
static Shape RShape(int64_t& dim, bool nd, int long_ = 30) {
  int64_t W = Coin(12) ? RI(0, 1) : Coin(long_) ? RI(8, 19) : RI(2, 7);
  if (!nd || Coin(70)) { dim = 0; return {W}; }
  Shape s;
  int64_t nd_ = RI(2, 3);
  dim = RI(0, nd_ - 1);
  for (int64_t d = 0; d < nd_; ++d) s.push_back(d == dim ? std::min<int64_t>(W, 5) : Coin(8) ? 0 : RI(1, 3));
  return s;
}
static Col RCol(const Env& e, int bits, size_t numel, bool ties, const char* vis, bool uns = false) {
  Col c;
  bool small = Coin();
  c.tab = MkTab(e.k, bits, ties ? 4 : 12, small && bits > 7, uns);
  for (size_t i = 0; i < numel; ++i) c.idx.push_back(static_cast<int64_t>(R(c.tab.size())));
  c.vis = vis[R(strlen(vis))];
  c.owner = R(e.p.n);
  c.dt = e.k == 32 ? (Coin() ? spu::DT_I32 : spu::DT_F32) : Pick(std::vector<spu::DataType>{spu::DT_I64, spu::DT_F32, spu::DT_I32});
  if (uns) c.dt = e.k == 32 || Coin() ? spu::DT_U32 : spu::DT_U64;
  return c;
}
static Col Ids(const Env& e, const Shape& sh, const char* vis) {
  Col c;
  c.vis = vis[R(strlen(vis))]; c.owner = R(e.p.n); c.dt = e.k == 32 ? spu::DT_I32 : spu::DT_I64;
  for (int64_t i = 0; i < sh.numel(); ++i) { c.tab.push_back(i); c.idx.push_back(i); }
  return c;
}
static J& Vis(J& j, const std::vector<Col>& cols) { std::string s; for (auto& c : cols) s += c.vis == 'V' ? std::string("V") + std::to_string(c.owner) : std::string(1, c.vis); return j.str("vis", s); }

static void Emit(const char* op, Env& e, const std::vector<Col>& cols, const Shape& sh, int64_t dim, const Fn& fn, const std::function<void(J&)>& more) {
  std::vector<std::vector<std::vector<int64_t>>> got;
  std::vector<std::string> shapes;
  std::string err;
  bool ok = Exec(e, cols, sh, fn, got, shapes, err);
  bool same = true;
  for (size_t r = 1; r < got.size(); ++r) same = same && got[r] == got[0] && shapes[r] == shapes[0];
  std::string want;
  for (auto& c : cols) want += fmt::format("{}:{};", fmt::join(sh, "x"), static_cast<int>(c.dt));
  auto head = [&](J& j) -> J& { j.b("ok", ok).b("same", same).b("form", ok && shapes[0] == want).str("proto", e.p.name).i("n", static_cast<int64_t>(e.p.n)).i("k", e.k).str("meth", e.meth); Vis(j, cols); j.raw("shape", Ints(std::vector<int64_t>(sh.begin(), sh.end()))).i("dim", dim); more(j); return j; };
  if (!ok) { J j(op); head(j).str("err", err.substr(0, 200)).raw("in", "[]").raw("out", "[]"); return; }
  auto fs = Fibres(sh, dim);
  if (fs.empty() || sh[dim] == 0) { J j(op); head(j).raw("in", "[]").raw("out", "[]"); return; }
  for (auto& f : fs) {
    std::vector<std::vector<int64_t>> in, out;
    for (size_t c = 0; c < cols.size(); ++c) { in.push_back(At(cols[c].idx, f)); out.push_back(c < got[0].size() ? At(got[0][c], f) : std::vector<int64_t>{}); }
    J j(op);
    head(j).raw("in", Lists(in)).raw("out", Lists(out));
  }
}

static Env MkEnv(const Proto& p, int k, int meth_ = -1) {
  Env e;
  e.p = p; e.k = k;
  static const char* ms[] = {"default", "radix", "quick", "network"};
  int meth = meth_ >= 0 ? meth_ : static_cast<int>(R(4)), th = static_cast<int>(RI(meth_ >= 0, 4));
  e.meth = std::string(ms[meth]) + std::to_string(th);
  yacl::shim::SetBaseSeed(rng());
  e.w = MakeWorld(p, FieldOf(k), [&](RuntimeConfig& c) { c.sort_method = static_cast<RuntimeConfig::SortMethod>(meth); if (th) c.quick_sort_threshold = th; });
  return e;
}

static void SortOne(Env& e, bool long_ = false) {
  int64_t dim;
  bool radix = e.w->ctx[0]->hasKernel("rand_perm_m");
  auto sh = RShape(dim, true, e.meth[0] == 'q' ? 70 : 40);
  if (long_) { sh = {RI(7, 24)}; dim = 0; }
  size_t numel = static_cast<size_t>(sh.numel());
  int lim = e.k - 3;
  bool stable = !long_ && Coin(40), vb = Coin(30), uns = Coin();
  int bits = vb ? static_cast<int>(RI(2, std::min(lim, 20))) : lim;
  int64_t keys = Coin(55) ? 1 : RI(2, 3);
  if (vb && bits < 4) bits = 4;
  std::vector<Col> cols;
  bool ties = Coin(70);
  const char* kv = Coin(12) ? "P" : Coin(12) ? "V" : Coin(keys > 1 ? 60 : 30) ? "PVS" : "SSSB";
  for (int64_t i = 0; i < keys; ++i) cols.push_back(RCol(e, bits, numel, ties && Coin(70), kv, vb && uns));
  bool pub = true;
  for (auto& c : cols) pub = pub && c.vis == 'P';
  if (stable && !radix && !pub) stable = false;
  bool id = stable || Coin(85);
  if (id) cols.push_back(Ids(e, sh, "PVSSS"));
  while (Coin(30)) cols.push_back(RCol(e, lim, numel, true, "PVSS"));
  bool desc = Coin();
  auto dir = desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending;
  int64_t valid = vb ? bits : -1;
  Emit("sort", e, cols, sh, dim, [=](SPUContext* c, const VV& x) { return hlo::SimpleSort(c, x, dim, dir, keys, valid, stable); },
       [&](J& j) { j.b("desc", desc).i("keys", keys).b("stable", stable).i("valid", valid).i("id", id ? keys + 1 : 0); });
}
static void SortCmp(Env& e) {
  int64_t dim;
  auto sh = RShape(dim, true);
  size_t numel = static_cast<size_t>(sh.numel());
  bool pub = Coin(30);
  std::vector<Col> cols{RCol(e, e.k - 3, numel, Coin(70), pub ? "P" : "SSBV"), Ids(e, sh, "PVSS")};
  while (Coin(30)) cols.push_back(RCol(e, e.k - 3, numel, true, "PVSS"));
  bool desc = Coin(), stable = pub && Coin();
  Emit("sort", e, cols, sh, dim, [=](SPUContext* c, const VV& x) {
    return hlo::Sort(c, x, dim, stable, [&](absl::Span<const Value> v) { return desc ? hal::greater(c, v[0], v[1]) : hal::less(c, v[0], v[1]); }, pub ? spu::VIS_PUBLIC : spu::VIS_SECRET); },
       [&](J& j) { j.b("desc", desc).i("keys", 1).b("stable", stable).i("valid", -1).i("id", 2); });
}
static void Shuf(Env& e) {
  int64_t dim;
  auto sh = RShape(dim, true);
  size_t numel = static_cast<size_t>(sh.numel());
  std::vector<Col> cols{Ids(e, sh, "PVSSSB")};
  while (Coin(50)) cols.push_back(RCol(e, e.k - 1, numel, true, "PVSSB"));
  Emit("shuffle", e, cols, sh, dim, [=](SPUContext* c, const VV& x) { return hlo::Shuffle(c, x, dim); }, [](J&) {});
}
static void Perm(Env& e) {
  if (!e.w->ctx[0]->hasKernel("rand_perm_m")) return;
  int64_t dim;
  auto sh = RShape(dim, true);
  size_t numel = static_cast<size_t>(sh.numel());
  int64_t W = sh[dim];
  const char* vis = Coin(15) ? "P" : Coin(20) ? "V" : "SSB";   // one visibility is required
  std::vector<Col> cols{Ids(e, sh, vis)};
  while (Coin(50)) { cols.push_back(RCol(e, e.k - 1, numel, true, vis)); cols.back().owner = cols[0].owner; }
  std::vector<int64_t> p(W);
  for (int64_t i = 0; i < W; ++i) p[i] = i;
  for (int64_t i = W; i > 1; --i) std::swap(p[i - 1], p[R(i)]);
  char pv = "PVSS"[R(4)];
  size_t ow = R(e.p.n);
  bool inv = Coin(), both = Coin(25);
  auto k = e.k;
  auto idt = k == 32 ? spu::DT_I32 : spu::DT_I64;
  Emit(both ? "round" : inv ? "invperm" : "perm", e, cols, sh, dim, [=](SPUContext* c, const VV& x) {
    std::vector<u128> w;
    for (auto i : p) w.push_back(static_cast<u128>(i));
    auto pp = Pub(c, w, {W});
    if (pv == 'V') pp = m::p2v(c, pp, ow);
    if (pv == 'S') pp = m::p2s(c, pp);
    pp = pp.setDtype(idt, true);
    auto y = inv ? hlo::InvPermute(c, x, pp, dim) : hlo::Permute(c, x, pp, dim);
    if (both) y = inv ? hlo::Permute(c, y, pp, dim) : hlo::InvPermute(c, y, pp, dim);
    return y; },
    [&](J& j) { j.str("pv", std::string(1, pv)).raw("perm", Ints(p)); });
}
static void GenPerm(Env& e) {
  if (!e.w->ctx[0]->hasKernel("rand_perm_m")) return;
  int64_t W = RI(1, 9);
  bool vb = Coin(30), uns = Coin(), desc = Coin();
  int bits = vb ? static_cast<int>(RI(4, 12)) : e.k - 3;
  std::vector<Col> cols;
  const char* kv = Coin(15) ? "P" : Coin(15) ? "V" : "SSSB";
  int64_t keys = RI(1, 2);
  for (int64_t i = 0; i < keys; ++i) cols.push_back(RCol(e, bits, static_cast<size_t>(W), true, kv, vb && uns));
  std::vector<std::vector<std::vector<int64_t>>> got;
  std::vector<std::string> shapes;
  std::string err;
  bool ok = Exec(e, cols, {W}, [&](SPUContext* c, const VV& x) { return VV{hal::gen_inv_perm_1d(c, x, desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending, vb ? bits : -1)}; }, got, shapes, err, true);
  bool same = true;
  for (size_t r = 1; r < got.size(); ++r) same = same && got[r] == got[0];
  std::vector<std::vector<int64_t>> in;
  for (auto& c : cols) in.push_back(c.idx);
  J j("genperm");
  j.b("ok", ok).b("same", same).str("proto", e.p.name).i("n", static_cast<int64_t>(e.p.n)).i("k", e.k).b("desc", desc).i("valid", vb ? bits : -1).raw("in", Lists(in)).raw("out", ok && got[0].size() == 1 ? Ints(got[0][0]) : "[]");
  Vis(j, cols);
}
static void Top(Env& e) {
  int64_t W = RI(1, 12), N = Coin(75) ? 1 : RI(1, 3);
  Shape sh = N == 1 && Coin() ? Shape{W} : Shape{N, W};
  auto col = RCol(e, e.k - 3, static_cast<size_t>(sh.numel()), Coin(), "PVSSSB");
  int64_t lo = RI(1, W), hi = Coin() ? -1 : RI(lo, W);
  bool largest = Coin(), vo = Coin(40);
  std::vector<std::vector<std::vector<int64_t>>> got;
  std::vector<std::string> shapes;
  std::string err;
  bool ok = Exec(e, {col}, sh, [=](SPUContext* c, const VV& x) { return hlo::TopK(c, x[0], lo, hi, largest, vo); }, got, shapes, err);
  bool same = true;
  for (size_t r = 1; r < got.size(); ++r) same = same && got[r].size() == got[0].size() && got[r] == got[0];
  int64_t kk = hi == -1 ? lo : hi;
  for (int64_t i = 0; i < (ok ? N : 1); ++i) {
    auto cut = [&](const std::vector<int64_t>& v, int64_t w) { return std::vector<int64_t>(v.begin() + std::min<int64_t>(v.size(), i * w), v.begin() + std::min<int64_t>(v.size(), (i + 1) * w)); };
    J j("topk");
    j.b("ok", ok).b("same", same).str("proto", e.p.name).i("n", static_cast<int64_t>(e.p.n)).i("k", e.k).str("meth", e.meth).i("lo", lo).i("hi", kk).b("largest", largest).b("values", vo).raw("in", Ints(cut(col.idx, W)));
    j.raw("out", ok && !got[0].empty() ? Ints(cut(got[0][0], kk)) : "[]").raw("ids", ok && got[0].size() == 2 ? Ints(cut(got[0][1], kk)) : "[]").i("count", ok ? static_cast<int64_t>(got[0].size()) : 0);
    Vis(j, {col});
    if (!ok) j.str("err", err.substr(0, 200));
  }
}

// ---- local permutations and routing networks ------------------------------------------------------
static void Local() {
  int k = Pick(std::vector<int>{32, 64, 128});
  auto ty = spu::makeType<spu::RingTy>(FieldOf(k));
  int64_t n = RI(0, 9);
  auto arr = [&](const std::vector<int64_t>& v) {  // sometimes strided
    int64_t st = Coin(30) ? 2 : 1;
    NdArrayRef a(ty, Shape{n * st});
    size_t es = spu::SizeOf(FieldOf(k));
    for (int64_t i = 0; i < n; ++i) { i128 x = v[i]; memcpy(a.data<u8>() + i * st * es, &x, es); }
    return st == 1 ? a : a.slice(spu::Index{0}, spu::Index{n * st}, spu::Strides{st});
  };
  auto ints = [&](const NdArrayRef& a) { std::vector<int64_t> r; for (auto w : ToWords(a)) { i128 x = static_cast<i128>(w & Mask(k)); if (k < 128 && (w >> (k - 1) & 1)) x -= static_cast<i128>(1) << k; r.push_back(x > 999999 || x < -999999 ? 999999 : static_cast<int64_t>(x)); } return r; };
  std::vector<int64_t> x(n), p(n);
  for (auto& v : x) v = RI(-3, 3);
  for (int64_t i = 0; i < n; ++i) p[i] = i;
  for (int64_t i = n; i > 1; --i) std::swap(p[i - 1], p[R(i)]);
  auto px = arr(x), pp = arr(p);
  std::vector<int64_t> out;
  int f = static_cast<int>(R(7));
  static const char* fs[] = {"apply", "apply_a", "inv", "inv_a", "inverse", "bysort", "ring2pv"};
  switch (f) {
    case 0: out = ints(m::applyPerm(px, p)); break;
    case 1: out = ints(m::applyPerm(px, pp)); break;
    case 2: out = ints(m::applyInvPerm(px, p)); break;
    case 3: out = ints(m::applyInvPerm(px, pp)); break;
    case 4: out = ints(m::genInversePerm(pp)); break;
    case 5: { auto q = m::genPermBySort(px); out.assign(q.begin(), q.end()); break; }
    case 6: { auto q = m::ring2pv(pp); out.assign(q.begin(), q.end()); break; }
  }
  J("local").str("f", fs[f]).i("k", k).raw("x", Ints(x)).raw("p", Ints(p)).raw("out", Ints(out)).raw("xa", Ints(ints(px))).raw("pa", Ints(ints(pp)));
}
static void Waksman(const std::vector<int64_t>& p) {
  spu::Index q(p.begin(), p.end());
  auto t = m::generate_as_waksman_topology(p.size());
  auto r = m::get_as_waksman_routing(q);
  std::string ts = "[", rs = "[";
  for (auto& c : t) { ts += ts.size() > 1 ? ",[" : "["; bool f = true; for (auto& [a, b] : c) { ts += fmt::format("{}[{},{}]", f ? "" : ",", a, b); f = false; } ts += "]"; }
  for (auto& c : r) {
    rs += rs.size() > 1 ? ",[" : "[";
    std::map<int64_t, bool> o(c.begin(), c.end());
    bool f = true;
    for (auto& [a, b] : o) { rs += fmt::format("{}[{},{}]", f ? "" : ",", a, b ? 1 : 0); f = false; }
    rs += "]";
  }
  J("waksman").raw("p", Ints(p)).raw("t", ts + "]").raw("r", rs + "]");
}

int main(int argc, char** argv) {
  drv::Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  reseed_each = true;
  yacl::link::shim::SetRecvTimeoutMs(20000);
  if (only == "LOCAL") {
    for (int i = 0; i < 400 * scale; ++i) { NewCase(); Local(); }
    for (int64_t n = 2; n <= (scale > 4 ? 7 : 5); ++n) {
      std::vector<int64_t> p(n);
      for (int64_t i = 0; i < n; ++i) p[i] = i;
      do { NewCase(); Waksman(p); } while (std::next_permutation(p.begin(), p.end()));
    }
    for (int i = 0; i < 40 * scale; ++i) {
      int64_t n = RI(6, 40);
      std::vector<int64_t> p(n);
      for (int64_t j = 0; j < n; ++j) p[j] = j;
      for (int64_t j = n; j > 1; --j) std::swap(p[j - 1], p[R(j)]);
      NewCase();
      Waksman(p);
    }
    Close();
    return 0;
  }
  for (int s = 0; s < scale; ++s)
    for (auto& p : Protos())
      for (int k : {32, 64, 128}) {
        std::string nm = p.name;
        if (p.kind < 0 || nm == "SWIFT" || (!only.empty() && only != nm)) continue;
        bool cheap = nm == "REF2K" || (nm == "SEMI2K" && p.n == 2);
        for (int meth : {1, 2}) {
          if (nm != "SEMI2K" || p.n != 2) break;
          for (int i = 0; i < 12; ++i) {
            auto e = MkEnv(p, k, meth);
            NewCase();
            SortOne(e, true);
          }
        }
        for (int rep = 0; rep < 8; ++rep) {
          auto e = MkEnv(p, k);
          for (int i = 0; i < (cheap ? 14 : nm == "SECURENN" ? 3 : 9); ++i) {
            NewCase();
            switch (R(nm == "SEMI2K" || nm == "ABY3" ? 10 : 7)) {
              case 0: case 1: case 2: SortOne(e); break;
              case 3: SortCmp(e); break;
              case 4: Shuf(e); break;
              case 5: case 6: Top(e); break;
              case 7: case 8: Perm(e); break;
              case 9: GenPerm(e); break;
            }
            if (!e.w->err.empty()) { bool bad = false; for (auto& x : e.w->err) bad = bad || !x.empty(); if (bad) e = MkEnv(p, k); }
          }
        }
      }
  Close();
}
