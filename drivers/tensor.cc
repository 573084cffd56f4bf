// Tensor operators on public, private and secret operands of every shape (C18).
#include <numeric>

#include "mpc.h"

#include "libspu/kernel/hal/complex.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hal/utils.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/convolution.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/rand.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/select_and_scatter.h"

using namespace drv;
using spu::Axes;
using spu::DataType;
using spu::Index;
using spu::Strides;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using VV = std::vector<Value>;
using L = std::vector<int64_t>;

struct In {
  L sh, el;
  DataType dt;
  char vis = 'p', form = 'A';
  int layout = 0;
};
struct Case { World* w; const char* proto; int k; int64_t big; };
static int64_t NumelOf(const L& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
template <class T> static T To(const L& v) { return T(v.begin(), v.end()); }
static std::string Ints(const L& v) { std::string s = "["; for (auto i : v) { if (s.size() > 1) s += ','; s += std::to_string(i); } return s + "]"; }

static Value Plain(SPUContext* c, const L& el, const L& sh) {
  std::vector<u128> w;
  size_t es = spu::SizeOf(c->getField());
  for (auto i : el) { u128 t = static_cast<u128>(static_cast<i128>(i)); if (es < 16) t &= (u128(1) << (8 * es)) - 1; w.push_back(t); }
  return Pub(c, w, To<Shape>(sh));
}
static Value Make(SPUContext* c, const In& a) {
  L sh = a.sh, el = a.el;
  size_t n = sh.size();
  int64_t total = NumelOf(sh);
  if (a.layout == 1) {  // stored in the opposite axis order
    L rs(sh.rbegin(), sh.rend()), re(el.size());
    for (int64_t i = 0; i < total; ++i) {
      int64_t q = i, pos = 0, mul = 1;
      L ix(n);
      for (size_t d = n; d-- > 0;) { ix[d] = q % sh[d]; q /= sh[d]; }
      for (size_t d = 0; d < n; ++d) { pos += ix[d] * mul; mul *= sh[d]; }
      re[static_cast<size_t>(pos)] = el[static_cast<size_t>(i)];
    }
    sh = rs; el = re;
  } else if (a.layout == 2 && n > 0) {  // every other element of a larger array
    sh[n - 1] = sh[n - 1] * 2 - (sh[n - 1] > 0 ? 1 : 0);
    L re;
    for (int64_t i = 0; i < total; ++i) {
      if (a.sh[n - 1] > 0 && i % a.sh[n - 1] != 0) re.push_back(7 + i % 2);
      re.push_back(el[static_cast<size_t>(i)]);
    }
    el = re;
  } else if (a.layout == 3) {
    std::reverse(el.begin(), el.end());
  }
  auto v = Plain(c, el, sh);
  if (a.vis == 's') v = m::p2s(c, v);
  if (a.vis == 'v') v = m::p2v(c, v, 0);
  v = v.setDtype(a.dt, true);
  if (a.vis == 's' && a.form != 'A') {
    v = hal::_prefer_b(c, v).setDtype(a.dt, true);
    if (a.form == 'b' && a.dt == spu::DT_I1) v = hal::_and(c, v, hal::_constant(c, 1, v.shape())).setDtype(a.dt, true);
  }
  if (a.layout == 1) v = hal::transpose(c, v, {});
  if (a.layout == 2 && n > 0) {
    Strides st(n, 1); st[n - 1] = 2;
    v = hal::slice(c, v, Index(n, 0), To<Index>(sh), st);
  }
  if (a.layout == 3) { Axes all; for (size_t d = 0; d < n; ++d) all.push_back(static_cast<int64_t>(d)); v = hal::reverse(c, v, all); }
  return v;
}
static L Look(SPUContext* c, const Value& v, const NdArrayRef& part) {
  Value x(part, v.dtype());
  auto o = x.isPublic() ? x : x.isPrivate() ? m::v2p(c, x) : m::s2p(c, x);
  L r;
  size_t es = spu::SizeOf(c->getField());
  for (auto w : ToWords(o.data())) {
    int sh = static_cast<int>(128 - es * 8);
    int64_t y = es < 16 ? static_cast<int64_t>(static_cast<i128>(w << sh) >> sh) : static_cast<int64_t>(static_cast<i128>(w));
    r.push_back(std::clamp<int64_t>(y, -2147483647, 2147483647));
  }
  return r;
}
static std::string ArrStr(const L& sh, const L& el, char vis, int dt) {
  return "{\"sh\":" + Ints(sh) + ",\"el\":" + Ints(el) + ",\"vis\":\"" + std::string(1, vis) + "\",\"dt\":" + std::to_string(dt) + "}";
}
static char VisOf(const Value& v) { return v.isPublic() ? 'p' : v.isSecret() ? 's' : v.isPrivate() ? 'v' : '?'; }

// inputs of complex operators are pairs (real, imaginary); so are the outputs
static void Do(Case& cs, const std::string& op, const std::vector<In>& ins, const std::string& par, const std::function<VV(SPUContext*, VV&)>& f, bool cplx = false) {
  auto* w = cs.w;
  std::vector<std::string> got(w->n());
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    VV v;
    for (auto& a : ins) v.push_back(Make(c, a));
    VV x;
    if (cplx) for (size_t i = 0; i + 1 < v.size(); i += 2) x.push_back(hal::complex(c, v[i], v[i + 1]));
    else x = v;
    auto out = f(c, x);
    std::string s = "[";
    for (auto& o : out) {
      L sh(o.shape().begin(), o.shape().end());
      if (s.size() > 1) s += ',';
      s += ArrStr(sh, Look(c, o, o.data()), VisOf(o), o.dtype());
      if (cplx) s += "," + (o.isComplex() ? ArrStr(sh, Look(c, o, *o.imag()), VisOf(o), o.dtype()) : std::string("{\"sh\":[],\"el\":[],\"vis\":\"?\",\"dt\":0}"));
    }
    got[r] = s + "]";
    for (size_t i = 0; i < v.size(); ++i) {  // operands keep their values
      L e = Look(c, v[i], v[i].data());
      if (e != ins[i].el && op != "lscatter") throw std::runtime_error("operand " + std::to_string(i) + " of " + op + " changed");
    }
  });
  bool same = true;
  for (auto& g : got) same = same && g == got[0];
  std::string err;
  for (auto& e : w->err) if (!e.empty() && e.find("peer stopped") == std::string::npos) err = e;
  J j("op");
  j.str("k", op).list("ins", ins, [](const In& a) { return ArrStr(a.sh, a.el, a.vis, a.dt); });
  if (!par.empty()) j.s += "," + par;
  j.b("cx", cplx).b("ok", ok).b("same", same).raw("outs", ok ? got[0] : "[]").str("p", cs.proto).i("f", cs.k).str("err", err.substr(0, 150));
  if (!ok) {
    auto p = w->proto;
    fprintf(stderr, "%s %d %s: %s\n", cs.proto, cs.k, op.c_str(), err.substr(0, 200).c_str());
    auto nw = MakeWorld(p, w->field);
    w->own.swap(nw->own); w->ctx.swap(nw->ctx); w->links.swap(nw->links);
  }
}
static std::string P_(const char* n, const L& v) { return std::string("\"") + n + "\":" + Ints(v); }
static std::string PI(const char* n, int64_t v) { return std::string("\"") + n + "\":" + std::to_string(v); }
static std::string PS_(const char* n, const std::string& v) { return std::string("\"") + n + "\":\"" + v + "\""; }
template <class... T> static std::string Par(const T&... t) { std::string s; ((s += (s.empty() ? "" : ",") + std::string(t)), ...); return s; }

static DataType Dt(Case& cs) {
  std::vector<DataType> d = {spu::DT_I32, spu::DT_F32, spu::DT_I16, spu::DT_I8, spu::DT_I1, spu::DT_U8};
  if (cs.k >= 64) { d.push_back(spu::DT_I64); d.push_back(spu::DT_F64); }
  return Pick(d);
}
static In Arr(Case& cs, const L& sh, DataType dt, const std::string& vis = "ps", bool distinct = false) {
  (void)cs;
  In a;
  a.sh = sh; a.dt = dt;
  a.vis = vis[R(vis.size())];
  a.form = dt == spu::DT_I1 ? "ABb"[R(3)] : "AAB"[R(3)];
  a.layout = Coin() ? 0 : static_cast<int>(R(4));
  int64_t n = NumelOf(sh), lo = dt == spu::DT_I1 || dt == spu::DT_U8 ? 0 : -9, hi = dt == spu::DT_I1 ? 1 : 9;
  for (int64_t i = 0; i < n; ++i) a.el.push_back(RI(lo, hi));
  if (distinct) { std::iota(a.el.begin(), a.el.end(), dt == spu::DT_U8 ? 0 : -n / 2); std::shuffle(a.el.begin(), a.el.end(), rng); }
  return a;
}
static In Scal(Case& cs, int64_t x, DataType dt, const std::string& vis = "ps") { auto a = Arr(cs, {}, dt, vis); a.el = {x}; return a; }
static L RSh(int lo_rank, int hi_rank, int64_t hi, int zero_pct = 4) {
  L s;
  auto n = RI(lo_rank, hi_rank);
  for (int64_t i = 0; i < n; ++i) s.push_back(Coin(zero_pct) ? 0 : RI(1, hi));
  return s;
}
static L Perm(size_t n) { L p(n); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), rng); return p; }
static L Some(size_t n, int pct = 50) { L r; for (size_t i = 0; i < n; ++i) if (Coin(pct)) r.push_back(static_cast<int64_t>(i)); return r; }
static L ShapeOf(int64_t total) {  // a random shape of so many elements
  L s;
  if (total == 0) { s = {0}; if (Coin()) s.push_back(RI(0, 3)); return s; }
  while (total > 1 && s.size() < 4) {
    L ds;
    for (int64_t d = 1; d <= total; ++d) if (total % d == 0) ds.push_back(d);
    int64_t d = s.size() == 3 ? total : ds[R(ds.size())];
    s.push_back(d); total /= d;
  }
  if (total > 1) s.back() *= total;
  if (Coin(20)) s.insert(s.begin() + static_cast<int64_t>(R(s.size() + 1)), 1);
  return s;
}

static void Movement(Case& cs) {
  auto dt = Dt(cs);
  std::string vis = Coin(70) ? "ps" : "psv";
  bool cx = (dt == spu::DT_F32 || dt == spu::DT_F64) && Coin(40);
  auto twice = [&](const L& sh) {
    std::vector<In> r = {Arr(cs, sh, dt, vis)};
    if (cx) { r.push_back(Arr(cs, sh, dt)); r[1].vis = r[0].vis; r[0].form = r[1].form = 'A'; }
    return r;
  };
  auto sh = RSh(0, 4, 4);
  if (NumelOf(sh) > 60) sh.resize(2);
  switch (R(7)) {
    case 0: {
      auto p = Perm(sh.size());
      Do(cs, "transpose", twice(sh), P_("perm", p), [&](SPUContext* c, VV& v) { return VV{hlo::Transpose(c, v[0], To<Axes>(p))}; }, cx);
      break;
    }
    case 1: {
      sh.resize(std::min<size_t>(sh.size(), 3));
      L to, dims;
      for (size_t d = 0; d < sh.size() || (to.size() < 4 && Coin());) {
        if (d < sh.size() && Coin(70)) { dims.push_back(static_cast<int64_t>(to.size())); to.push_back(sh[d] == 1 ? RI(1, 3) : sh[d]); ++d; }
        else if (to.size() < 5) to.push_back(RI(1, 3));
      }
      if (NumelOf(to) > 120) break;
      if (dims.empty() && !sh.empty()) break;
      Do(cs, "broadcast", twice(sh), Par(P_("to", to), P_("dims", dims)), [&](SPUContext* c, VV& v) { return VV{hlo::Broadcast(c, v[0], To<Shape>(to), To<Axes>(dims))}; }, cx);
      break;
    }
    case 2: {
      auto to = ShapeOf(NumelOf(sh));
      Do(cs, "reshape", twice(sh), P_("to", to), [&](SPUContext* c, VV& v) { return VV{hlo::Reshape(c, v[0], To<Shape>(to))}; }, cx);
      break;
    }
    case 3: {
      if (sh.empty()) sh = {2};
      size_t ax = R(sh.size());
      std::vector<In> ins;
      for (int64_t i = 0, n = RI(1, 4); i < n; ++i) {
        auto s = sh; s[ax] = RI(0, 3);
        for (auto& a : twice(s)) ins.push_back(a);
      }
      Do(cs, "concat", ins, PI("ax", static_cast<int64_t>(ax)), [&](SPUContext* c, VV& v) { return VV{hlo::Concatenate(c, v, static_cast<int64_t>(ax))}; }, cx);
      break;
    }
    case 4: {
      L st, en, step;
      for (auto d : sh) { st.push_back(RI(0, d)); en.push_back(RI(st.back(), d)); step.push_back(RI(1, 3)); }
      Do(cs, "slice", twice(sh), Par(P_("st", st), P_("en", en), P_("step", step)),
         [&](SPUContext* c, VV& v) { return VV{hlo::Slice(c, v[0], To<Index>(st), To<Index>(en), To<Strides>(step))}; }, cx);
      break;
    }
    case 5: {
      L lo, hi, in;
      int64_t total = 1;
      for (auto d : sh) {
        in.push_back(RI(0, 2)); lo.push_back(RI(-2, 2)); hi.push_back(RI(-2, 2));
        int64_t e = lo.back() + hi.back() + d + in.back() * std::max<int64_t>(d - 1, 0);
        if (e < 0) { hi.back() -= e; e = 0; }
        total *= e;
      }
      if (total > 120) break;
      auto ins = twice(sh);
      for (auto& a : twice({})) ins.push_back(a);
      Do(cs, "pad", ins, Par(P_("lo", lo), P_("hi", hi), P_("in", in)),
         [&](SPUContext* c, VV& v) { return VV{hlo::Pad(c, v[0], v[1], To<Sizes>(lo), To<Sizes>(hi), To<Sizes>(in))}; }, cx);
      break;
    }
    default: {
      auto dims = Some(sh.size());
      std::shuffle(dims.begin(), dims.end(), rng);
      Do(cs, "reverse", twice(sh), P_("dims", dims), [&](SPUContext* c, VV& v) { return VV{hlo::Reverse(c, v[0], To<Axes>(dims))}; }, cx);
    }
  }
}

// associative and commutative reducers, on one or two arrays at once
static const std::vector<std::string> kFn = {"add", "max", "min", "mul", "pair"};
static Value Apply(SPUContext* c, const std::string& f, const Value& x, const Value& y) {
  return f == "add" ? hal::add(c, x, y) : f == "max" ? hal::max(c, x, y) : f == "min" ? hal::min(c, x, y) : hal::mul(c, x, y);
}
static hlo::BatchedValueBinaryFn Reducer(SPUContext* c, const std::string& f) {
  return [c, f](absl::Span<Value const> a, absl::Span<Value const> b) {
    if (f == "pair") return VV{hal::add(c, a[0], b[0]), hal::max(c, a[1], b[1])};
    return VV{Apply(c, f, a[0], b[0])};
  };
}
static std::vector<In> RedIns(Case& cs, const std::string& f, const L& sh, bool ignore) {
  DataType dt = spu::DT_I32;
  std::vector<In> r;
  auto one = [&](const std::string& g) {
    auto a = Arr(cs, sh, dt);
    if (a.el.size() > 8 && g == "mul") for (auto& x : a.el) x = x < 0 ? -1 : x > 2 ? 2 : 1;
    if (g == "mul") { int64_t big = 0; for (auto& x : a.el) if ((x > 1 || x < -1) && ++big > 5) x = 1; }
    r.push_back(a);
  };
  one(f == "pair" ? "add" : f);
  if (f == "pair") one("max");
  auto init = [&](const std::string& g) {
    int64_t id = g == "add" ? 0 : g == "mul" ? 1 : g == "max" ? -100 : 100;
    r.push_back(Scal(cs, ignore || Coin() ? id : g == "mul" ? RI(-2, 2) : RI(-9, 9), dt));
  };
  init(f == "pair" ? "add" : f);
  if (f == "pair") init("max");
  return r;
}

static void Reductions(Case& cs) {
  auto f = Pick(kFn);
  bool ignore = Coin(30);
  switch (R(3)) {
    case 0: {
      auto sh = RSh(0, 4, 4, 3);
      if (NumelOf(sh) > 60) sh.resize(2);
      auto dims = Some(sh.size());
      bool none = false;
      for (auto d : dims) none = none || sh[static_cast<size_t>(d)] == 0;
      if (none && ignore) ignore = false;
      auto ins = RedIns(cs, f, sh, ignore);
      size_t na = ins.size() / 2;
      Do(cs, "reduce", ins, Par(P_("dims", dims), PS_("fn", f), PI("ign", ignore)), [&](SPUContext* c, VV& v) {
        return hlo::Reduce(c, absl::MakeSpan(v).first(na), absl::MakeSpan(v).subspan(na), To<Axes>(dims), Reducer(c, f), ignore);
      });
      break;
    }
    case 1: {
      L sh, win, st, wd, bd, out; std::vector<std::pair<int64_t, int64_t>> pad; L lo, hi;
      bool dil = Coin(40);
      for (int64_t i = 0, n = RI(1, 3); i < n; ++i) {
        sh.push_back(RI(1, 4)); win.push_back(RI(1, 3)); st.push_back(RI(1, 3));
        wd.push_back(dil ? RI(1, 2) : 1); bd.push_back(dil ? RI(1, 2) : 1);
        lo.push_back(RI(0, 2)); hi.push_back(RI(0, 2));
        int64_t full = sh.back() + (sh.back() - 1) * (bd.back() - 1) + lo.back() + hi.back(), w = (win.back() - 1) * wd.back() + 1;
        if (full < w) { hi.back() += w - full; full = w; }
        pad.emplace_back(lo.back(), hi.back());
        out.push_back((full - w) / st.back() + 1);
      }
      if (NumelOf(out) * NumelOf(win) > 150) break;
      auto ins = RedIns(cs, f, sh, ignore);
      if (f == "mul") for (auto& x : ins[0].el) x = x < 0 ? -1 : 1;
      size_t na = ins.size() / 2;
      Do(cs, "window", ins, Par(P_("win", win), P_("step", st), P_("wd", wd), P_("bd", bd), P_("lo", lo), P_("hi", hi), PS_("fn", f), PI("ign", ignore)), [&](SPUContext* c, VV& v) {
        hlo::ReduceWindowConfig cfg{To<Shape>(win), To<Strides>(st), To<Sizes>(wd), pad, To<Sizes>(bd)};
        return hlo::ReduceWindow(c, absl::MakeSpan(v).first(na), absl::MakeSpan(v).subspan(na), To<Shape>(out), cfg, Reducer(c, f), ignore);
      });
      break;
    }
    default: {
      bool fast = Coin(40);
      L sh, win, st, wd, bd, out;
      for (int64_t i = 0, n = fast ? 4 : RI(1, 3); i < n; ++i) {
        win.push_back(fast ? (i == 1 || i == 2 ? 2 : 1) : RI(1, 3)); sh.push_back(RI(win.back(), win.back() + 2)); st.push_back(fast && (i == 0 || i == 3) ? 1 : RI(1, 3));
        wd.push_back(1); bd.push_back(1);
        out.push_back((sh.back() - win.back()) / st.back() + 1);
      }
      if (NumelOf(out) * NumelOf(win) > 150 || NumelOf(sh) > 80) break;
      auto a = Arr(cs, sh, Coin() ? spu::DT_I32 : spu::DT_F32, "ps", Coin());
      std::vector<std::pair<int64_t, int64_t>> pad(sh.size(), {0, 0});
      Do(cs, "argmax", {a}, Par(P_("win", win), P_("step", st)), [&](SPUContext* c, VV& v) {
        hlo::ReduceWindowConfig cfg{To<Shape>(win), To<Strides>(st), To<Sizes>(wd), pad, To<Sizes>(bd)};
        auto r = hlo::ArgMax(c, v[0], To<Shape>(out), cfg);
        return VV{r.first, r.second};
      });
    }
  }
}

static void Products(Case& cs) {
  auto dt = Coin() ? spu::DT_I32 : spu::DT_I16;
  switch (R(4)) {
    case 0: {
      int64_t N = RI(1, 2), C = RI(1, 2), O = RI(1, 2), h = RI(1, 3), w = RI(1, 3), H = RI(h, h + 2), W = RI(w, w + 2), s0 = RI(1, 3), s1 = RI(1, 3);
      L res = {N, (H - h) / s0 + 1, (W - w) / s1 + 1, O};
      Do(cs, "conv", {Arr(cs, {N, H, W, C}, dt), Arr(cs, {h, w, C, O}, dt)}, P_("step", {s0, s1}), [&](SPUContext* c, VV& v) {
        hlo::ConvolutionConfig cfg{Strides{s0, s1}, 0, 3, Axes{1, 2}, 2, 3, Axes{0, 1}, 0, 3, Axes{1, 2}};
        return VV{hlo::Convolution2D(c, v[0], v[1], cfg, To<Shape>(res))};
      });
      break;
    }
    case 1: {
      int64_t n = RI(1, 4), a = RI(1, 3), b = RI(1, 3);
      int form = static_cast<int>(R(4));
      L x = form & 1 ? L{a, n} : L{n}, y = form & 2 ? L{n, b} : L{n};
      Do(cs, "dot", {Arr(cs, x, dt), Arr(cs, y, dt)}, "", [&](SPUContext* c, VV& v) { return VV{hlo::Dot(c, v[0], v[1])}; });
      break;
    }
    case 2: {
      int64_t B = RI(1, 3), a = RI(1, 3), n = RI(1, 3), b = RI(1, 3);
      Do(cs, "dotgen", {Arr(cs, {B, a, n}, dt), Arr(cs, {B, n, b}, dt)}, "", [&](SPUContext* c, VV& v) { return VV{hlo::DotGeneral(c, v[0], v[1])}; });
      break;
    }
    default: {
      size_t nc = R(3), ra = nc + R(3), rb = nc + R(3);
      auto pa = Perm(ra), pb = Perm(rb);
      L x(ra), y(rb), ix(pa.begin(), pa.begin() + static_cast<int64_t>(nc)), iy(pb.begin(), pb.begin() + static_cast<int64_t>(nc));
      for (auto& d : x) d = RI(1, 3);
      for (auto& d : y) d = RI(1, 3);
      for (size_t i = 0; i < nc; ++i) y[static_cast<size_t>(iy[i])] = x[static_cast<size_t>(ix[i])];
      if (NumelOf(x) > 40 || NumelOf(y) > 40) break;
      Do(cs, "tensordot", {Arr(cs, x, dt), Arr(cs, y, dt)}, Par(P_("ix", ix), P_("iy", iy)),
         [&](SPUContext* c, VV& v) { return VV{hal::tensordot(c, v[0], v[1], To<Index>(ix), To<Index>(iy))}; });
    }
  }
}

static void Scatters(Case& cs) {
  L N, W, S, B;
  for (int64_t i = 0, n = RI(1, 3); i < n; ++i) { N.push_back(RI(1, 3)); W.push_back(RI(1, 3)); S.push_back(RI(1, 3)); B.push_back((N.back() - 1) * S.back() + W.back()); }
  if (NumelOf(B) > 60 || NumelOf(N) * NumelOf(W) > 120) return;
  std::vector<std::pair<int64_t, int64_t>> pad(N.size(), {0, 0});
  if (cs.k >= 64 && Coin()) {
    bool mx = Coin();
    Do(cs, "sas", {Arr(cs, B, spu::DT_I32, "ps", true), Arr(cs, N, spu::DT_I32), Scal(cs, 0, spu::DT_I32)}, Par(P_("win", W), P_("step", S), PI("max", mx)), [&](SPUContext* c, VV& v) {
      return VV{hlo::SelectAndScatter(c, v[0], v[1], v[2], To<Shape>(W), To<Strides>(S), pad,
                                      [&](const Value& a, const Value& b) { return mx ? hal::greater_equal(c, a, b) : hal::less_equal(c, a, b); },
                                      [&](const Value& a, const Value& b) { return hal::add(c, a, b); })};
    });
  } else {
    auto ish = N; ish.push_back(NumelOf(W));
    auto hot = Arr(cs, ish, spu::DT_I1);
    std::fill(hot.el.begin(), hot.el.end(), 0);
    for (int64_t i = 0; i < NumelOf(N); ++i) hot.el[static_cast<size_t>(i * NumelOf(W) + RI(0, NumelOf(W) - 1))] = 1;
    Do(cs, "mps", {hot, Arr(cs, N, Coin() ? spu::DT_I32 : spu::DT_F32)}, Par(P_("win", W), P_("step", S), P_("base", B)), [&](SPUContext* c, VV& v) {
      return VV{hlo::MaxPoolScatter(c, v[0], v[1], To<Shape>(W), To<Shape>(B), To<Strides>(S), pad)};
    });
  }
}

static int64_t Start(int64_t room) { return Coin(70) ? RI(0, std::max<int64_t>(room, 0)) : Coin() ? RI(-9, 12) : Pick(L{-1, room + 1, -2147483647, 2147483647, 1000000}); }
static void Indexing(Case& cs) {
  auto dt = Dt(cs);
  switch (R(8)) {
    case 0: case 1: {
      auto sh = RSh(1, 3, 4, 3);
      size_t rk = sh.size();
      auto dims = Perm(rk); dims.resize(R(rk + 1));
      L collapsed, sizes, offs;
      for (size_t d = 0; d < rk; ++d) {
        bool mapped = std::find(dims.begin(), dims.end(), static_cast<int64_t>(d)) != dims.end();
        sizes.push_back(mapped ? RI(std::min<int64_t>(1, sh[d]), sh[d]) : Coin(70) ? sh[d] : RI(std::min<int64_t>(1, sh[d]), sh[d]));
        if (sizes[d] == 1 && Coin(60)) collapsed.push_back(static_cast<int64_t>(d));
      }
      auto batch = RSh(0, 2, 3, 6);
      bool implicit = dims.size() == 1 && Coin();
      if (dims.empty()) implicit = false;
      L ish = batch;
      int64_t ivd = implicit ? static_cast<int64_t>(batch.size()) : RI(0, static_cast<int64_t>(batch.size()));
      if (!implicit) ish.insert(ish.begin() + ivd, static_cast<int64_t>(dims.size()));
      size_t nout = batch.size() + rk - collapsed.size();
      auto where = Perm(nout); where.resize(rk - collapsed.size()); std::sort(where.begin(), where.end());
      offs = where;
      L out(nout);
      size_t bi = 0, wi = 0;
      L wsz;
      for (size_t d = 0; d < rk; ++d) if (std::find(collapsed.begin(), collapsed.end(), static_cast<int64_t>(d)) == collapsed.end()) wsz.push_back(sizes[d]);
      for (size_t d = 0; d < nout; ++d) out[d] = std::find(offs.begin(), offs.end(), static_cast<int64_t>(d)) != offs.end() ? wsz[wi++] : batch[bi++];
      if (NumelOf(out) > 100) break;
      auto idx = Arr(cs, ish, spu::DT_I32, "p");
      for (auto& x : idx.el) x = Start(4);
      Do(cs, "gather", {Arr(cs, sh, dt, "psv"), idx}, Par(P_("sizes", sizes), PI("ivd", ivd), P_("offs", offs), P_("col", collapsed), P_("map", dims), P_("to", out)), [&](SPUContext* c, VV& v) {
        hlo::GatherConfig cfg{To<Sizes>(sizes), ivd, To<Axes>(offs), To<Axes>(collapsed), To<Axes>(dims)};
        return VV{hlo::Gather(c, v[0], v[1], cfg, To<Shape>(out))};
      });
      break;
    }
    case 2: case 3: case 4: {
      auto sh = RSh(1, 3, 4, 0);
      L sz;
      for (auto d : sh) sz.push_back(Coin(25) ? d : RI(1, d));
      if (cs.k == 32) { /* 64-bit constants do not exist on the smallest ring */ }
      bool sec = cs.k >= 64 && Coin(70);
      bool upd = Coin(40);
      auto idt = cs.k >= 64 && Coin() ? spu::DT_I64 : spu::DT_I32;
      std::string dv = Coin(40) ? "p" : "ps";
      std::vector<In> ins = {Arr(cs, sh, dt, dv)};
      if (upd) ins.push_back(Arr(cs, sz, dt, dv));
      std::string vis = !sec ? "p" : Coin() ? "s" : "ps";
      for (size_t d = 0; d < sh.size(); ++d) {
        auto a = Scal(cs, 0, idt, vis);
        a.el = {std::clamp<int64_t>(Start(sh[d] - sz[d]), -1000, 1000)};
        ins.push_back(a);
      }
      if (upd) {
        Do(cs, "dus", ins, "", [&](SPUContext* c, VV& v) { return VV{hlo::DynamicUpdateSlice(c, v[0], v[1], absl::MakeSpan(v).subspan(2))}; });
      } else {
        Do(cs, "dslice", ins, P_("sz", sz), [&](SPUContext* c, VV& v) { return VV{hlo::DynamicSlice(c, v[0], To<Sizes>(sz), absl::MakeSpan(v).subspan(1))}; });
      }
      break;
    }
    case 5: {
      auto sh = RSh(0, 3, 4);
      L sz, st;
      for (auto d : sh) { sz.push_back(RI(0, d)); st.push_back(RI(0, d - sz.back())); }
      Do(cs, "uslice", {Arr(cs, sh, dt, "psv"), Arr(cs, sz, dt, "psv")}, P_("st", st), [&](SPUContext* c, VV& v) { return VV{hlo::UpdateSlice(c, v[0], v[1], To<Index>(st))}; });
      break;
    }
    case 6: {
      int64_t n = RI(0, 9);
      auto a = Arr(cs, {n}, dt, "psv");
      L idx;
      if (Coin()) {
        L mask; std::vector<uint8_t> mk;
        for (int64_t i = 0; i < n; ++i) { mask.push_back(static_cast<int64_t>(R(2))); mk.push_back(mask.back() ? static_cast<uint8_t>(RI(1, 255)) : 0); }
        Do(cs, "filter", {a}, P_("mask", mask), [&](SPUContext* c, VV& v) { return VV{hlo::FilterByMask(c, v[0], mk)}; });
      } else {
        if (n > 0) for (int64_t i = 0, q = RI(0, 9); i < q; ++i) idx.push_back(RI(0, n - 1));
        Do(cs, "lgather", {a}, P_("idx", idx), [&](SPUContext* c, VV& v) { return VV{hlo::LinearGather(c, v[0], To<Index>(idx))}; });
      }
      break;
    }
    default: {
      int64_t n = RI(1, 9), q = RI(0, 9);
      L idx;
      for (int64_t i = 0; i < q; ++i) idx.push_back(RI(0, n - 1));
      auto a = Arr(cs, {n}, dt), u = Arr(cs, {q}, dt);
      a.layout = 0;
      Do(cs, "lscatter", {a, u}, P_("idx", idx), [&](SPUContext* c, VV& v) { auto x = Value(v[0].data().clone(), v[0].dtype()); hlo::LinearScatterInPlace(c, x, v[1], To<Index>(idx)); return VV{x}; });
    }
  }
}

static void Rest(Case& cs) {
  switch (R(5)) {
    case 0: {
      auto dt = Pick(cs.k >= 64 ? std::vector<DataType>{spu::DT_I64, spu::DT_I32, spu::DT_F32, spu::DT_U8} : std::vector<DataType>{spu::DT_I32, spu::DT_U8});
      int64_t n = RI(0, 20);
      Do(cs, "iota", {}, Par(PI("n", n), PI("unit", spu::isFixedPoint(dt) ? 1 << 18 : 1), PI("dt", dt)), [&](SPUContext* c, VV&) {
        auto v = hlo::Iota(c, dt, n);
        if (spu::isFixedPoint(dt)) { auto s = static_cast<int64_t>(c->getFxpBits()); if (s < 18) v = Value(hal::_lshift(c, v, {18 - s}).data(), dt); }
        return VV{v};
      });
      break;
    }
    case 1: case 2: {
      auto sh = RSh(1, 3, 6, 3);
      if (NumelOf(sh) > 60) sh.resize(1);
      std::string f = Pick(std::vector<std::string>{"add", "max", "min", "first", "second"});
      auto a = Arr(cs, sh, spu::DT_I32);
      Do(cs, "scan", {a}, PS_("fn", f), [&](SPUContext* c, VV& v) {
        return VV{hal::associative_scan([&](SPUContext* x, const Value& p, const Value& q) { return f == "first" ? p : f == "second" ? q : Apply(x, f, p, q); }, c, v[0])};
      });
      break;
    }
    case 3: {
      auto sh = RSh(1, 3, 6, 3);
      if (NumelOf(sh) > 60) sh.resize(1);
      std::string f = Pick(std::vector<std::string>{"add", "max", "min"});
      Do(cs, "areduce", {Arr(cs, sh, spu::DT_I32)}, PS_("fn", f), [&](SPUContext* c, VV& v) {
        return VV{hal::associative_reduce([&](SPUContext* x, const Value& p, const Value& q) { return Apply(x, f, p, q); }, c, v[0])};
      });
      break;
    }
    default: {
      if (cs.k == 32) break;
      auto sh = RSh(0, 3, 4, 3);
      int64_t lo = RI(-5, 5), hi = lo + RI(1, 5);
      auto one = [&](int64_t x) { auto a = Scal(cs, x << 18, spu::DT_F32, "p"); return a; };
      Do(cs, "uniform", {one(lo), one(hi)}, P_("to", sh), [&](SPUContext* c, VV& v) { return VV{hlo::Uniform_rand(c, v[0], v[1], To<Shape>(sh))}; });
    }
  }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = argc > 3 ? std::atoll(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  reseed_each = true;
  for (char ch : only) rng.seed(rng() + static_cast<u64>(ch));
  for (int64_t s = 0; s < scale; ++s)
    for (auto& p : Protos()) {
      if (p.kind < 0 || (!only.empty() && only != p.name + std::to_string(p.n))) continue;
      for (int k : {32, 64, 128}) {
        if (k == 128 && std::string(p.name) == "SWIFT") continue;
        auto w = MakeWorld(p, FieldOf(k), [](RuntimeConfig& c) { c.fxp_fraction_bits = c.field == FieldType::FM32 ? 8 : 18; });
        Case cs{w.get(), p.name, k, 0};
        for (int i = 0; i < 60; ++i) {
          NewCase();
          switch (R(12)) {
            case 0: case 1: case 2: Movement(cs); break;
            case 3: case 4: case 5: Reductions(cs); break;
            case 6: Products(cs); break;
            case 7: Scatters(cs); break;
            case 8: case 9: case 10: Indexing(cs); break;
            default: Rest(cs);
          }
        }
      }
    }
  Close();
}
