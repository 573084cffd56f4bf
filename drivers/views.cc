// Random histories of views, copies and writes on tensors (C07).
#include <set>

#include "mpc.h"

#include "libspu/core/shape.h"
#include "libspu/core/vectorize.h"
#include "libspu/core/xt_helper.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/mpc/aby3/type.h"

using namespace drv;
using spu::Axes;
using spu::Index;
using spu::Strides;
namespace hal = spu::kernel::hal;

// an element with tag t has the byte t everywhere
static int Tag(const void* p, size_t es) {
  const u8* b = static_cast<const u8*>(p);
  for (size_t i = 1; i < es; ++i) if (b[i] != b[0]) return -1;
  return b[0];
}
static std::vector<std::byte> Elem(int t, size_t es) { return std::vector<std::byte>(es, std::byte(t)); }

struct Arrays {
  std::vector<NdArrayRef> v;
  std::vector<std::shared_ptr<yacl::Buffer>> keep;
  std::map<const yacl::Buffer*, int> ids;
  int BufId(const NdArrayRef& a) {
    auto it = ids.find(a.buf().get());
    if (it != ids.end()) return it->second;
    keep.push_back(a.buf());
    int id = static_cast<int>(ids.size()) + 1;
    return ids[a.buf().get()] = id;
  }
};

static std::vector<int> Dump(const NdArrayRef& a) {
  std::vector<int> r;
  size_t es = a.elsize();
  for (int64_t i = 0; i < a.buf()->size() / static_cast<int64_t>(es); ++i) r.push_back(Tag(a.buf()->data<u8>() + i * static_cast<int64_t>(es), es));
  return r;
}
static std::vector<int64_t> IndexOf(int64_t i, const Shape& sh) {
  std::vector<int64_t> ix(sh.size());
  for (size_t d = sh.size(); d-- > 0;) { ix[d] = i % sh[d]; i /= sh[d]; }
  return ix;
}
static Index ToIndex(const std::vector<int64_t>& v) { return Index(v.begin(), v.end()); }

template <class T>
static std::vector<int> ViewRead(const NdArrayRef& a) {
  std::vector<int> r;
  spu::NdArrayView<T> x(a);
  for (int64_t i = 0; i < a.numel(); ++i) { T t = x[i]; r.push_back(Tag(&t, sizeof(T))); }
  return r;
}
static std::vector<int> ReadBy(const NdArrayRef& a, int how) {
  std::vector<int> r;
  size_t es = a.elsize();
  switch (how) {
    case 0: for (int64_t i = 0; i < a.numel(); ++i) r.push_back(Tag(&a.at(i), es)); break;
    case 1: for (int64_t i = 0; i < a.numel(); ++i) r.push_back(Tag(&a.at(ToIndex(IndexOf(i, a.shape()))), es)); break;
    case 2: {
      int64_t n = 0;
      for (auto it = a.cbegin(); it != a.cend() && n <= a.numel(); ++it, ++n) r.push_back(Tag(it.getRawPtr(), es));
      break;
    }
    case 3: {
      auto it = a.cbegin();
      for (int64_t i = 0; i < a.numel(); ++i) r.push_back(Tag((it++).getRawPtr(), es));
      break;
    }
    case 4:
      switch (es) {
        case 1: return ViewRead<uint8_t>(a);
        case 2: return ViewRead<uint16_t>(a);
        case 4: return ViewRead<uint32_t>(a);
        case 8: return ViewRead<uint64_t>(a);
        case 16: return ViewRead<std::array<uint64_t, 2>>(a);
        default: return ViewRead<std::array<uint64_t, 4>>(a);
      }
    case 5: {  // an iterator started somewhere, then from the start
      for (int64_t i = 0; i < a.numel(); ++i) { NdArrayRef::Iterator it(a, i); r.push_back(Tag(&*it, es)); }
      break;
    }
    default: {
      auto c = a.clone();
      for (int64_t i = 0; i < a.numel(); ++i) r.push_back(Tag(c.data<u8>() + i * static_cast<int64_t>(es), es));
    }
  }
  return r;
}

static Shape Refactor(int64_t n) {  // a shape of n elements
  Shape s;
  if (n == 0) { s = RShape(3, 3, 0); s.push_back(0); std::shuffle(s.begin(), s.end(), rng); return s; }
  while (n > 1 && s.size() < 3 && Coin(70)) {
    std::vector<int64_t> ds;
    for (int64_t d = 1; d <= n; ++d) if (n % d == 0) ds.push_back(d);
    auto d = Pick(ds);
    s.push_back(d);
    n /= d;
  }
  if (n > 1 || Coin(30)) s.push_back(n);
  if (Coin(25)) s.insert(s.begin() + static_cast<int64_t>(R(s.size() + 1)), 1);
  return s;
}
struct SliceArgs { Index st, en; Strides step; };
static SliceArgs RSlice(const Shape& sh) {
  SliceArgs a;
  bool steps = Coin(60);
  for (auto d : sh) {
    int64_t s = d == 0 ? 0 : RI(0, Coin(10) ? d : d - 1), e = Coin(50) ? d : RI(s, d);
    if (d > 0 && Coin(85) && e == s) { s = 0; e = d; }
    a.st.push_back(s); a.en.push_back(e);
    if (steps) a.step.push_back(RI(1, 3));
  }
  return a;
}
static Axes RPerm(size_t n) { Axes p(n); for (size_t i = 0; i < n; ++i) p[i] = static_cast<int64_t>(i); std::shuffle(p.begin(), p.end(), rng); return p; }
static Axes RDims(size_t n) { Axes d; for (size_t i = 0; i < n; ++i) if (Coin()) d.push_back(static_cast<int64_t>(i)); std::shuffle(d.begin(), d.end(), rng); return d; }
// a broadcast of sh: new axes anywhere, axes of extent 1 may be repeated; no dims: aligned at the end
static std::pair<Shape, Axes> RBcast(const Shape& sh, bool strict) {
  Shape to; Axes dims;
  bool lead = Coin(40);
  size_t extra = R(3);
  if (sh.size() + extra > 4) extra = sh.size() < 4 ? 1 : 0;
  std::vector<int> place(extra, 0);
  for (size_t i = 0; i < sh.size(); ++i) place.push_back(1);
  if (!lead) std::shuffle(place.begin(), place.end(), rng);
  size_t d = 0;
  for (auto p : place) {
    if (p == 0) { to.push_back(RI(1, 3)); continue; }
    dims.push_back(static_cast<int64_t>(to.size()));
    to.push_back(sh[d] == 1 && !strict && Coin() ? RI(1, 3) : sh[d]);
    ++d;
  }
  if (lead) dims.clear();
  return {to, dims};
}

static void History(bool big_elems) {
  NewCase();
  Arrays w;
  std::vector<spu::Type> tys = {spu::makePtType(spu::PT_I8), spu::makePtType(spu::PT_I16), spu::makePtType(spu::PT_I32), spu::makePtType(spu::PT_I64),
                                spu::makePtType(spu::PT_I128), spu::makeType<spu::mpc::aby3::AShrTy>(FieldType::FM128)};
  spu::Type ty = big_elems ? tys[5] : Pick(tys);
  size_t es = ty.size();
  int tag = 0;
  auto next = [&] { tag = (tag + 1) % 250; return tag; };
  auto fill = [&](NdArrayRef& a) { for (int64_t i = 0; i < a.buf()->size() / static_cast<int64_t>(es); ++i) memset(a.buf()->data<u8>() + i * static_cast<int64_t>(es), next(), es); };
  auto add_new = [&](const Shape& sh) {
    auto a = RLayout(ty, sh, 8, true, 35);
    fill(a);
    w.v.push_back(a);
    int b = w.BufId(a);
    auto at = Where(a);
    J("new").i("v", static_cast<int64_t>(w.v.size())).i("b", b).ints("sh", sh).ints("at", at).ints("mem", Dump(a));
  };
  auto read = [&](size_t k) { int how = static_cast<int>(R(7)); J("read").i("v", static_cast<int64_t>(k + 1)).i("how", how).ints("sh", w.v[k].shape()).ints("out", ReadBy(w.v[k], how)); };
  add_new(RShape(3, 4, 4));
  int steps = static_cast<int>(RI(6, 14));
  for (int s = 0; s < steps; ++s) {
    size_t k = R(w.v.size());
    NdArrayRef a = w.v[k];
    const Shape sh = a.shape();
    int64_t n = a.numel();
    auto emit_view = [&](J& j, const NdArrayRef& r) { w.v.push_back(r); j.i("v", static_cast<int64_t>(w.v.size())).i("b", w.BufId(r)).ints("osh", r.shape()); };
    int touched = -1;
    switch (R(24)) {
      case 0: add_new(RShape(3, 4, 4)); break;
      case 1: { auto p = RPerm(sh.size()); J j("view"); j.str("k", "transpose").i("s", static_cast<int64_t>(k + 1)).ints("perm", p); emit_view(j, a.transpose(p)); break; }
      case 2: { J j("view"); j.str("k", "transpose0").i("s", static_cast<int64_t>(k + 1)); emit_view(j, a.transpose()); break; }
      case 3: { if (n == 0) break; auto d = RDims(sh.size()); J j("view"); j.str("k", "reverse").i("s", static_cast<int64_t>(k + 1)).ints("dims", d); emit_view(j, a.reverse(d)); break; }
      case 4: case 5: case 6: { auto q = RSlice(sh); J j("view"); j.str("k", "slice").i("s", static_cast<int64_t>(k + 1)).ints("st", q.st).ints("en", q.en).ints("step", q.step); emit_view(j, a.slice(q.st, q.en, q.step)); break; }
      case 7: { if (n == 0) break; auto ix = ToIndex(IndexOf(RI(0, n - 1), sh)); J j("view"); j.str("k", "scalar").i("s", static_cast<int64_t>(k + 1)).ints("st", ix); emit_view(j, a.slice_scalar_at(ix)); break; }
      case 8: case 9: { auto [to, dims] = RBcast(sh, false); if (to.numel() > 150) break; J j("view"); j.str("k", "bcast").i("s", static_cast<int64_t>(k + 1)).ints("to", to).ints("dims", dims); emit_view(j, a.broadcast_to(to, dims)); break; }
      case 10: case 11: case 12: {
        auto to = Refactor(n);
        auto r = a.reshape(to);
        J j("reshape"); j.str("k", "reshape").i("s", static_cast<int64_t>(k + 1)).ints("to", to); emit_view(j, r); break; }
      case 13: { J j("copy"); j.str("k", "clone").i("s", static_cast<int64_t>(k + 1)); emit_view(j, a.clone()); break; }
      case 14: {
        if (n == 0) break;
        auto e = a.slice_scalar_at(ToIndex(IndexOf(RI(0, n - 1), sh)));
        { J j("copy"); j.str("k", "clone").i("s", static_cast<int64_t>(k + 1)); emit_view(j, a.clone()); }
        w.v.push_back(a);  // keep ids aligned: the scalar view itself
        { auto ix = IndexOf(0, sh); J j("view"); w.v.pop_back(); j.str("k", "scalar").i("s", static_cast<int64_t>(k + 1)).ints("st", ix); emit_view(j, a.slice_scalar_at(ToIndex(ix))); }
        size_t q = w.v.size();
        auto to = RShape(3, 4, 6);
        J j("copy"); j.str("k", "expand").i("s", static_cast<int64_t>(q)).ints("to", to); emit_view(j, w.v[q - 1].expand(to));
        break;
      }
      case 15: {
        if (sh.size() == 0) break;
        int64_t ax = RI(0, static_cast<int64_t>(sh.size()) - 1), total = n;
        std::vector<int64_t> ss = {static_cast<int64_t>(k + 1)};
        std::vector<NdArrayRef> others;
        for (size_t o = 0; o < w.v.size(); ++o) {
          auto so = w.v[o].shape();
          if (so.size() != sh.size() || !Coin(80)) continue;
          auto tmp = so; tmp[ax] = sh[ax];
          if (tmp == sh && total + so.numel() <= 150) { ss.push_back(static_cast<int64_t>(o + 1)); others.push_back(w.v[o]); total += so.numel(); }
        }
        J j("copy"); j.str("k", "concat").i("s", 0).ints("ss", ss).i("ax", ax); emit_view(j, a.concatenate(others, ax));
        break;
      }
      case 16: {
        if (w.v.empty()) break;
        std::vector<size_t> sc;
        for (size_t o = 0; o < w.v.size(); ++o) if (w.v[o].numel() == 1) sc.push_back(o);
        if (sc.empty()) { add_new(Shape{}); sc.push_back(w.v.size() - 1); }
        size_t pv = Pick(sc);
        Sizes lo, hi, in;
        int64_t total = 1;
        bool ok = true;
        for (auto d : sh) {
          in.push_back(RI(0, 2)); lo.push_back(RI(-2, 2)); hi.push_back(RI(-2, 2));
          int64_t e = lo.back() + hi.back() + d + in.back() * std::max<int64_t>(d - 1, 0);
          if (e < 0) ok = false;  // the array language defines padding only for results of extent >= 0
          total *= e;
        }
        if (!ok || total > 150) break;
        J j("copy"); j.str("k", "pad").i("s", static_cast<int64_t>(k + 1)).i("p", static_cast<int64_t>(pv + 1)).ints("lo", lo).ints("hi", hi).ints("in", in);
        emit_view(j, a.pad(w.v[pv], lo, hi, in));
        break;
      }
      case 17: {
        if (sh.size() != 1) break;
        Index ix;
        if (n > 0) for (u64 q = R(6); q-- > 0;) ix.push_back(RI(0, n - 1));
        J j("copy"); j.str("k", "gather").i("s", static_cast<int64_t>(k + 1)).ints("idx", ix); emit_view(j, a.linear_gather(ix));
        break;
      }
      case 18: {
        if (sh.size() != 1 || n == 0) break;
        std::vector<size_t> src;
        for (size_t o = 0; o < w.v.size(); ++o) if (w.v[o].buf() != a.buf() && w.v[o].numel() > 0) src.push_back(o);
        if (src.empty()) break;
        size_t o = Pick(src);
        Index ix;
        for (u64 q = R(std::min<u64>(6, static_cast<u64>(w.v[o].numel()) + 1)); q-- > 0;) ix.push_back(RI(0, n - 1));
        w.v[k].linear_scatter(w.v[o], ix);
        J("scatter").i("v", static_cast<int64_t>(k + 1)).i("s", static_cast<int64_t>(o + 1)).ints("idx", ix);
        touched = static_cast<int>(k);
        break;
      }
      case 19: {
        std::vector<size_t> src;
        for (size_t o = 0; o < w.v.size(); ++o) if (w.v[o].buf() != a.buf() && w.v[o].numel() > 0) src.push_back(o);
        if (src.empty() || n == 0) break;
        size_t o = Pick(src);
        int64_t sb = RI(0, w.v[o].numel() - 1), db = RI(0, n - 1), c = RI(0, std::min(w.v[o].numel() - sb, n - db));
        auto si = IndexOf(sb, w.v[o].shape()), di = IndexOf(db, sh);
        w.v[k].copy_slice(w.v[o], ToIndex(si), ToIndex(di), c);
        J("copyslice").i("v", static_cast<int64_t>(k + 1)).i("s", static_cast<int64_t>(o + 1)).ints("sb", si).ints("db", di).i("n", c);
        touched = static_cast<int>(k);
        break;
      }
      case 20: {
        if (n == 0) break;
        std::vector<size_t> src;
        for (size_t o = 0; o < w.v.size(); ++o) {
          auto& so = w.v[o].shape();
          if (w.v[o].buf() == a.buf() || so.size() != sh.size()) continue;
          bool fits = true;
          for (size_t d = 0; d < sh.size(); ++d) fits &= so[d] <= sh[d];
          if (fits) src.push_back(o);
        }
        if (src.empty()) { Shape u; for (auto d : sh) u.push_back(RI(1, d)); add_new(u); src.push_back(w.v.size() - 1); }
        size_t o = Pick(src);
        Index st;
        for (size_t d = 0; d < sh.size(); ++d) st.push_back(RI(0, sh[d] - w.v[o].shape()[d]));
        w.v[k].update_slice(w.v[o], st);
        J("update").i("v", static_cast<int64_t>(k + 1)).i("s", static_cast<int64_t>(o + 1)).ints("st", st).i("b", w.BufId(w.v[k]));
        touched = static_cast<int>(k);
        break;
      }
      case 21: {
        if (n == 0) break;
        int64_t i = RI(0, n - 1);
        int t = next(), how = static_cast<int>(R(3));
        auto e = Elem(t, es);
        std::byte* p = how == 0 ? &w.v[k].at(i) : how == 1 ? &w.v[k].at(ToIndex(IndexOf(i, sh))) : nullptr;
        if (!p) { auto it = w.v[k].begin(); for (int64_t q = 0; q < i; ++q) ++it; p = &*it; }
        memcpy(p, e.data(), es);
        J("poke").i("v", static_cast<int64_t>(k + 1)).i("i", i).i("x", t).i("how", how);
        touched = static_cast<int>(k);
        break;
      }
      case 22: {
        J("compact").i("v", static_cast<int64_t>(k + 1)).b("out", a.isCompact());
        if (es == 1) J("bits").i("v", static_cast<int64_t>(k + 1)).i("w", 8).i("out", static_cast<int64_t>(spu::maxBitWidth<uint8_t>(a)));
        if (n > 0) { int64_t i = RI(0, n - 1); J("get").i("v", static_cast<int64_t>(k + 1)).i("i", i).i("out", Tag(&a.at(spu::unflattenIndex(i, sh)), es)); }
        break;
      }
      case 23: {  // several tensors through one operation on their concatenation
        std::vector<NdArrayRef> in, out;
        std::vector<Value> vin, vout;
        std::vector<int64_t> ss;
        for (u64 q = 1 + R(4); q-- > 0;) { size_t o = R(w.v.size()); in.push_back(w.v[o]); vin.emplace_back(w.v[o], spu::DT_INVALID); ss.push_back(static_cast<int64_t>(o + 1)); }
        int64_t total = 0;
        for (auto& x : in) total += x.numel();
        std::vector<std::string> fs = {"id", "rev", "rev2", "slice", "bcast"};
        auto f = total == 0 ? "id" : Pick(fs);
        auto op = [&](const NdArrayRef& x) -> NdArrayRef {
          if (f == "rev") return x.reverse({0});
          if (f == "rev2") return x.clone().reverse({0}).reverse({0});
          if (f == "bcast") return x.slice({0}, {1}, {}).broadcast_to({total}, {0});
          if (f == "slice") { NdArrayRef y(x.eltype(), {total + 3}); y.update_slice(x, {2}); return y.slice({2}, {total + 2}, {}); }
          return x;
        };
        if (Coin()) spu::vmap(in.begin(), in.end(), std::back_inserter(out), op);
        else {
          spu::vmap(vin.begin(), vin.end(), std::back_inserter(vout), [&](const Value& x) { return Value(op(x.data()), x.dtype()); });
          for (auto& x : vout) out.push_back(x.data());
        }
        J j("vmap");
        j.ints("ss", ss).str("f", f);
        j.list("outs", out, [](const NdArrayRef& x) { std::string t = "["; auto r = ReadBy(x, 1); for (size_t i = 0; i < r.size(); ++i) { if (i) t += ','; t += std::to_string(r[i]); } return t + "]"; });
        j.list("shs", out, [](const NdArrayRef& x) { std::string t = "["; for (size_t i = 0; i < x.shape().size(); ++i) { if (i) t += ','; t += std::to_string(x.shape()[i]); } return t + "]"; });
        break;
      }
    }
    if (touched >= 0) {
      read(static_cast<size_t>(touched));
      for (int q = 0; q < 2; ++q) read(R(w.v.size()));
    } else if (!w.v.empty()) read(w.v.size() - 1);
  }
  for (size_t i = 0; i < w.v.size(); ++i) if (Coin(60)) read(i);
  std::set<int> done;
  for (auto& a : w.v) { int b = w.BufId(a); if (done.insert(b).second && a.numel() > 0) J("dump").i("b", b).ints("mem", Dump(a)); }
}

// index arithmetic
static void Indices(int reps) {
  NewCase();
  for (int t = 0; t < reps; ++t) {
    auto sh = RShape(4, 5, 8);
    auto ext = sh; for (auto& d : ext) d = std::max<int64_t>(d, 1);
    int64_t n = 1; for (auto d : ext) n *= d;
    auto ix = IndexOf(RI(0, n - 1), ext);
    J("dims").ints("sh", sh).i("numel", sh.numel()).b("empty", sh.isEmpty()).b("scalar", sh.isScalar());
    J("flat").ints("sh", ext).ints("ix", ix).i("out", spu::flattenIndex(ToIndex(ix), ext));
    int64_t i = RI(0, n - 1);
    J("unflat").ints("sh", ext).i("i", i).ints("out", spu::unflattenIndex(i, ext));
    J("strides").ints("sh", sh).ints("out", spu::makeCompactStrides(sh));
    auto b = ix;
    bool more = spu::bumpIndices(ext, absl::MakeSpan(b));
    J("bump").ints("sh", ext).ints("ix", ix).b("more", more).ints("out", b);
    for (auto& x : b) x = ix[static_cast<size_t>(&x - b.data())] + RI(-1, 1);
    if (Coin(10)) b.push_back(0);
    J("inb").ints("sh", sh).ints("ix", b).b("out", ToIndex(b).inBounds(sh));
  }
}

// a tensor of wider elements viewed as narrower ones: the first part of each
static void Force(int reps) {
  for (int t = 0; t < reps; ++t) {
    NewCase();
    auto wide = spu::makeType<spu::mpc::aby3::AShrTy>(FieldOf(Coin() ? 64 : 128));
    auto a = RLayout(wide, RShape(3, 4, 4), 128);
    auto narrow = spu::makePtType(Pick(std::vector<spu::PtType>{spu::PT_I64, spu::PT_I32, spu::PT_I8, spu::PT_I128}));
    auto b = a.as(narrow, true);
    std::vector<std::string> out;
    int how = static_cast<int>(R(3));
    size_t es = b.elsize();
    if (how == 0) for (int64_t i = 0; i < b.numel(); ++i) out.push_back(Bytes(&b.at(i), es));
    else if (how == 1) for (int64_t i = 0; i < b.numel(); ++i) out.push_back(Bytes(&b.at(ToIndex(IndexOf(i, b.shape()))), es));
    else { auto it = b.cbegin(); for (int64_t i = 0; i < b.numel(); ++i, ++it) out.push_back(Bytes(it.getRawPtr(), es)); }
    J("as").raw("x", Elems(a)).words("out", out).i("ns", static_cast<int64_t>(es)).ints("sh", a.shape()).ints("osh", b.shape());
    auto c = a.as(spu::makeType<spu::mpc::aby3::BShrTy>(a.elsize() == 32 ? spu::PT_U128 : spu::PT_U64, 8));
    J("as").raw("x", Elems(a)).raw("out", Elems(c)).i("ns", static_cast<int64_t>(c.elsize())).ints("sh", a.shape()).ints("osh", c.shape());
  }
}

// The same operations on values of a protocol: values never change.
static void OnValues(const Proto& p, bool big) {
  auto w = MakeWorld(p, FieldType::FM64);
  NewCase();
  u64 sd = rng();
  bool ok = w->Run([&](size_t rank, SPUContext* c) {
    rng.seed(sd);
    std::vector<Value> v;
    std::unique_ptr<J> none;
    auto contents = [&](const Value& x) {  // opened
      auto o = x.isSecret() ? hal::_s2p(c, x) : x;
      std::vector<int> r;
      for (int64_t i = 0; i < Numel(o.data()); ++i) r.push_back(Tag(ElemPtr(o.data(), i), o.data().elsize()));
      return r;
    };
    auto ev = [&](const std::string& line) { if (rank == 0) fwrite(line.data(), 1, line.size(), out_file); };
    auto fin = [&](J& j) { j.live = false; ev(j.s + "}\n"); };
    int tag = 0;
    auto add_new = [&](Shape sh, bool secret) {
      int64_t n = sh.numel();
      std::vector<u128> xs;
      std::vector<int64_t> mem, at;
      for (int64_t i = 0; i < n; ++i) { tag = (tag + 1) % 250; u64 e; memset(&e, tag, 8); xs.push_back(e); mem.push_back(tag); at.push_back(i + 1); }
      auto x = Pub(c, xs, sh, spu::DT_I64);
      if (secret) x = hal::_p2s(c, x).setDtype(spu::DT_I64, true);
      v.push_back(x);
      J j("new"); j.i("v", static_cast<int64_t>(v.size())).i("b", static_cast<int64_t>(v.size())).ints("sh", sh).ints("at", at).ints("mem", mem); fin(j);
    };
    auto read = [&](size_t k) { auto r = contents(v[k]); J j("read"); j.i("v", static_cast<int64_t>(k + 1)).ints("sh", v[k].shape()).ints("out", r); fin(j); };
    if (big) { add_new(Shape{RI(60, 70), RI(65, 80)}, Coin()); }
    else add_new(RShape(3, 4, 4), Coin());
    int steps = big ? 3 : static_cast<int>(RI(6, 12));
    for (int s = 0; s < steps; ++s) {
      size_t k = R(v.size());
      Value a = v[k];
      Shape sh = a.shape();
      int64_t n = sh.numel();
      size_t before = v.size();
      auto emit = [&](J& j, const Value& r) {
        v.push_back(r);
        j.i("s", static_cast<int64_t>(k + 1)).i("v", static_cast<int64_t>(v.size())).i("b", static_cast<int64_t>(v.size())).ints("osh", r.shape());
        fin(j);
      };
      J j("val");
      j.live = false;
      switch (R(11)) {
        case 0: { auto q = RPerm(sh.size()); bool none_ = Coin(20); if (none_) j.str("k", "transpose0"); else j.str("k", "transpose").ints("perm", q); emit(j, hal::transpose(c, a, none_ ? Axes{} : q)); break; }
        case 1: { if (n == 0) break; auto d = RDims(sh.size()); j.str("k", "reverse").ints("dims", d); emit(j, hal::reverse(c, a, d)); break; }
        case 2: case 3: { auto q = RSlice(sh); j.str("k", "slice").ints("st", q.st).ints("en", q.en).ints("step", q.step); emit(j, hal::slice(c, a, q.st, q.en, q.step)); break; }
        case 4: { auto [to, dims] = RBcast(sh, false); if (to.numel() > 8000) break; j.str("k", "bcast").ints("to", to).ints("dims", dims); emit(j, hal::broadcast_to(c, a, to, dims)); break; }
        case 5: { auto to = Refactor(n); j.str("k", "reshape").ints("to", to); emit(j, hal::reshape(c, a, to)); break; }
        case 6: {
          if (n == 0) break;
          auto ix = ToIndex(IndexOf(RI(0, n - 1), sh));
          j.str("k", "scalar").ints("st", ix); emit(j, hal::slice_scalar_at(c, a, ix));
          size_t q = v.size();
          auto to = RShape(3, 4, 6);
          J e("val"); e.live = false; e.str("k", "expand").ints("to", to); k = q - 1; emit(e, hal::expand(c, v[q - 1], to));
          break;
        }
        case 7: case 8: {
          if (sh.size() == 0) break;
          int64_t ax = RI(0, static_cast<int64_t>(sh.size()) - 1), total = n;
          std::vector<int64_t> ss; std::vector<Value> in;
          for (size_t o = 0; o < v.size(); ++o) {
            auto so = v[o].shape();
            if (so.size() != sh.size() || (o != k && !Coin(80))) continue;
            auto tmp = so; tmp[ax] = sh[ax];
            if (tmp == sh && total + so.numel() <= 8000) { ss.push_back(static_cast<int64_t>(o + 1)); in.push_back(v[o]); total += so.numel(); }
          }
          if (in.empty()) break;
          j.str("k", "concat").ints("ss", ss).i("ax", ax); emit(j, hal::concatenate(c, in, ax));
          break;
        }
        case 9: {
          std::vector<size_t> sc;
          for (size_t o = 0; o < v.size(); ++o) if (v[o].numel() == 1) sc.push_back(o);
          if (sc.empty()) { add_new(Shape{}, Coin()); before = v.size(); sc.push_back(v.size() - 1); }
          size_t pv = Pick(sc);
          Sizes lo, hi, in; int64_t total = 1; bool good = true;
          for (auto d : sh) {
            in.push_back(RI(0, 1)); lo.push_back(RI(-2, 2)); hi.push_back(RI(-2, 2));
            int64_t e = lo.back() + hi.back() + d + in.back() * std::max<int64_t>(d - 1, 0);
            if (e < 0) good = false;
            total *= e;
          }
          if (!good || total > 8000) break;
          j.str("k", "pad").i("p", static_cast<int64_t>(pv + 1)).ints("lo", lo).ints("hi", hi).ints("in", in); emit(j, hal::pad(c, a, v[pv], lo, hi, in));
          break;
        }
        default: {
          if (n == 0) break;
          Shape u; Index st;
          for (auto d : sh) { u.push_back(RI(1, d)); st.push_back(RI(0, d - u.back())); }
          add_new(u, Coin());
          size_t o = v.size() - 1;
          before = v.size();
          j.str("k", "update").i("u", static_cast<int64_t>(o + 1)).ints("st", st); emit(j, hal::update_slice(c, a, v[o], st));
          break;
        }
      }
      for (size_t q = before; q < v.size(); ++q) read(q);
      if (Coin(30)) read(R(v.size()));
    }
    for (size_t i = 0; i < v.size(); ++i) if (Coin(60)) read(i);
  });
  if (!ok) J("failed").str("err", w->err[0]).str("err1", w->err[1]);
  J("ranok").b("ok", ok);
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  for (int i = 0; i < 700 * scale; ++i) History(i % 9 == 0);
  for (int i = 0; i < 10 * scale; ++i) Indices(30);
  Force(60 * scale);
  std::vector<Proto> ps = {P("SEMI2K", 2), P("ABY3", 3), P("SECURENN", 3)};
  for (int i = 0; i < 40 * scale; ++i) OnValues(ps[static_cast<size_t>(i) % 3], i % 10 == 9);
  Close();
}
