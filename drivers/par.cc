// Parallel loops and tiled secure operations (C17).
#include <atomic>
#include <map>
#include <memory>
#include <numeric>

#include "mpc.h"
#include "yacl/utils/parallel.h"

#include "libspu/core/parallel_utils.h"
#include "libspu/core/config.h"
#include "libspu/mpc/ab_api.h"
// the block size of the tiling helper becomes a variable here, so that small tensors are cut as well
static int64_t drv_block = 50000;
#define kMinTaskSize drv_block
#include "libspu/mpc/utils/tiling_util.h"
#undef kMinTaskSize

using namespace drv;
using yacl::shim::ParMode;
using yacl::shim::SetParMode;

static void RMode(int64_t chunk_hi) {
  std::vector<ParMode> ms = {ParMode::kSequential, ParMode::kChunkedReverse, ParMode::kChunkedShuffled, ParMode::kThreads};
  SetParMode(Pick(ms), RI(1, chunk_hi), rng());
}
// runs of equal counts of a vector of counters, first index lo
static std::string Runs(const std::vector<std::atomic<int>>& v, int64_t lo) {
  std::string s = "[";
  for (size_t i = 0; i < v.size();) {
    size_t j = i;
    while (j < v.size() && v[j] == v[i]) ++j;
    if (i) s += ',';
    s += "[" + std::to_string(lo + static_cast<int64_t>(i)) + "," + std::to_string(lo + static_cast<int64_t>(j)) + "," + std::to_string(v[i].load()) + "]";
    i = j;
  }
  return s + "]";
}
static void Loop(int64_t b, int64_t e, int64_t chunk_hi) {
  const int64_t lo = std::min(b, e) - 3, hi = std::max(b, e) + 3;
  std::vector<std::atomic<int>> n(static_cast<size_t>(hi - lo));
  std::atomic<int> outside{0}, empty{0}, caught{0};
  auto hit = [&](int64_t i) { if (i < lo || i >= hi) ++outside; else ++n[static_cast<size_t>(i - lo)]; };
  RMode(chunk_hi);
  bool ranged = Coin();
  int64_t bomb = Coin(12) && b < e ? RI(b, e - 1) : hi + 1;  // an index whose body throws
  try {
    if (ranged) spu::pforeach(b, e, [&](int64_t x, int64_t y) {
      if (x >= y) ++empty;
      for (int64_t i = x; i < y; ++i) { hit(i); if (i == bomb) throw std::runtime_error("bomb"); }
    });
    else spu::pforeach(b, e, [&](int64_t i) { hit(i); if (i == bomb) throw std::runtime_error("bomb"); });
  } catch (const std::exception&) { ++caught; }
  J("loop").i("b", b).i("e", e).b("ranged", ranged).i("bomb", bomb > hi ? -1000000000 : bomb).i("caught", caught).i("outside", outside).i("empty", empty).raw("runs", Runs(n, lo));
}
static void Nested() {
  int64_t n = RI(0, 12), m = RI(0, 12);
  std::vector<std::atomic<int>> c(static_cast<size_t>(n * m + 1));
  RMode(5);
  spu::pforeach(0, n, [&](int64_t i) { spu::pforeach(0, m, [&, i](int64_t j) { ++c[static_cast<size_t>(i * m + j)]; }); });
  J("nested").i("n", n).i("m", m).raw("runs", Runs(c, 0));
}

// elements are numbered by position; the mapped function multiplies a number by three (and adds the second operand)
static std::vector<int64_t> Nums(const NdArrayRef& a) {
  std::vector<int64_t> r;
  for (int64_t i = 0; i < Numel(a); ++i) { int64_t v; memcpy(&v, ElemPtr(a, i), 8); r.push_back(v); }
  return r;
}
static NdArrayRef Numbered(const Shape& sh, int64_t base) {
  auto ty = spu::makeType<spu::RingTy>(FieldType::FM64);
  auto a = RLayout(ty, sh, 64, true, 40);
  for (int64_t i = 0; i < Numel(a); ++i) { int64_t v = base + i; memcpy(const_cast<u8*>(ElemPtr(a, i)), &v, 8); }
  return a;
}
static void Tile(World& w) {
  auto sh = RShape(4, 6, 3);
  auto x = Numbered(sh, 0), y = Numbered(sh, 1000000);
  drv_block = RI(1, 40);
  bool two = Coin();
  int64_t extra = RI(0, 9);
  std::mutex mu;
  std::vector<std::vector<int64_t>> shapes, xs, ys;
  std::vector<std::string> ids;
  auto one = [&](SPUContext* c, const NdArrayRef& a, const NdArrayRef* b, int64_t ex) {
    NdArrayRef r(a.eltype(), a.shape());
    auto u = Nums(a);
    std::vector<int64_t> v = b ? Nums(*b) : std::vector<int64_t>(u.size(), 0);
    for (size_t i = 0; i < u.size(); ++i) { int64_t z = 3 * u[i] + v[i] + ex; memcpy(r.data<u8>() + 8 * i, &z, 8); }
    std::lock_guard<std::mutex> l(mu);
    xs.push_back(u); ys.push_back(v); ids.push_back(c->id());
    shapes.emplace_back(a.shape().begin(), a.shape().end());
    return Value(r, spu::DT_INVALID);
  };
  auto* c = w.ctx[0];
  bool threw = false;
  Value out;
  const Value vx(x, spu::DT_INVALID), vy(y, spu::DT_INVALID);  // const lvalues, as the dispatcher passes them
  try {
    if (two) out = spu::mpc::tiled([&](SPUContext* s, const Value& a, const Value& b, int64_t ex) { return one(s, a.data(), &b.data(), ex); }, c, vx, vy, extra);
    else out = spu::mpc::tiled([&](SPUContext* s, const Value& a, int64_t ex) { return one(s, a.data(), nullptr, ex); }, c, vx, extra);
  } catch (const std::exception&) { threw = true; }
  std::string parts = "[";
  for (size_t i = 0; i < xs.size(); ++i) {
    if (i) parts += ',';
    parts += "{\"x\":[";
    for (size_t j = 0; j < xs[i].size(); ++j) { if (j) parts += ','; parts += std::to_string(xs[i][j]); }
    parts += "],\"y\":[";
    for (size_t j = 0; j < ys[i].size(); ++j) { if (j) parts += ','; parts += std::to_string(ys[i][j]); }
    parts += "],\"id\":" + J::esc(ids[i]) + "}";
  }
  std::vector<int64_t> o, os;
  if (!threw) { o = Nums(out.data()); os.assign(out.shape().begin(), out.shape().end()); }
  J("tile").ints("sh", sh).i("block", drv_block).b("two", two).i("extra", extra).b("threw", threw).raw("parts", parts + "]").ints("osh", os).ints("out", o);
}

// Secure operations on more elements than a block, alone and cut into slices: the result depends on the
// position in a short pattern only.
static void Big(const Proto& p, int k, const std::string& op, const Shape& sh, bool par, bool view) {
  auto w = MakeWorld(p, FieldOf(k), [&](RuntimeConfig& c) { c.experimental_enable_intra_op_par = par; });
  const size_t period = 7;
  int64_t n = sh.numel();
  std::vector<u128> a(period), b(period);
  for (auto& v : a) v = Val(k);
  for (auto& v : b) v = Val(k);
  bool shifted = op == "trunc";
  if (shifted) for (auto& v : a) v = (v & ((u128(1) << (k - 3)) - 1)) - (Coin() ? (u128(1) << (k - 4)) : 0);
  u128 msk = k >= 128 ? ~u128(0) : (u128(1) << k) - 1;
  for (auto& v : a) v &= msk;
  if (op == "mul1") for (auto& v : b) v &= 1;
  if (op == "eq") for (size_t i = 0; i < period; ++i) if (Coin()) b[i] = a[i];
  std::vector<u128> X(n), Y(n);
  for (int64_t i = 0; i < n; ++i) { X[i] = a[i % period]; Y[i] = b[i % period]; }
  int64_t bits = RI(1, 9);
  std::vector<std::vector<u128>> res(p.n);
  std::vector<Shape> shp(p.n);
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    namespace m = spu::mpc;
    auto px = Pub(c, X, sh), py = Pub(c, Y, sh);
    Value x = m::p2a(c, px), y = m::p2a(c, py), z;
    if (view) {  // the same elements seen through a stepped slice of a twice as wide tensor
      auto widen = [&](const Value& v) {
        Shape s2 = sh; s2.back() *= 2;
        NdArrayRef big(v.storage_type(), s2);
        auto es = static_cast<size_t>(big.elsize());
        for (int64_t i = 0; i < n; ++i) { memcpy(big.data<u8>() + (2 * i) * es, ElemPtr(v.data(), i), es); memset(big.data<u8>() + (2 * i + 1) * es, 0xEE, es); }
        return Value(big.slice(spu::Index(s2.size(), 0), spu::Index(s2.begin(), s2.end()), [&] { spu::Strides st(s2.size(), 1); st.back() = 2; return st; }()), spu::DT_INVALID);
      };
      x = widen(x); y = widen(y);
    }
    if (op == "mul") z = m::a2p(c, m::mul_aa(c, x, y));
    else if (op == "square") z = m::a2p(c, m::mul_aa(c, x, x));
    else if (op == "msb") z = m::b2p(c, m::msb_a2b(c, x));
    else if (op == "a2b") z = m::b2p(c, m::a2b(c, x));
    else if (op == "b2a") z = m::a2p(c, m::b2a(c, m::p2b(c, px)));
    else if (op == "and") z = m::b2p(c, m::and_bb(c, m::p2b(c, px), m::p2b(c, py)));
    else if (op == "trunc") z = m::a2p(c, m::trunc_a(c, x, static_cast<size_t>(bits), spu::SignType::Unknown));
    else if (op == "mul1") z = m::a2p(c, m::mul_a1b(c, x, m::p2b(c, py)));
    shp[r] = z.shape();
    res[r] = ToWords(z.data());
  });
  // per position of the pattern, the distinct results with their number
  std::string s = "[";
  for (size_t r = 0; ok && r < p.n; ++r) {
    std::vector<std::map<std::string, int64_t>> t(period);
    for (size_t i = 0; i < res[r].size(); ++i) ++t[i % period][W(res[r][i], w->bytes())];
    if (r) s += ',';
    s += "[";
    for (size_t q = 0; q < period; ++q) {
      if (q) s += ',';
      s += "[";
      bool f = true;
      for (auto& [v, cnt] : t[q]) { if (!f) s += ','; f = false; s += "[" + v + "," + std::to_string(cnt) + "]"; }
      s += "]";
    }
    s += "]";
  }
  NewCase();
  J("big").str("proto", p.name).i("k", k).str("f", op).ints("sh", sh).b("par", par).b("view", view).i("bits", bits).b("ok", ok).str("err", ok ? "" : w->err[0])
      .raw("a", WList(a, w->bytes())).raw("b", WList(b, w->bytes())).list("osh", shp, [](const Shape& q) {
        std::string t = "["; for (size_t i = 0; i < q.size(); ++i) { if (i) t += ','; t += std::to_string(q[i]); } return t + "]"; })
      .raw("res", s + "]");
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  for (int i = 0; i < 400 * scale; ++i) {
    NewCase();
    int64_t b = RI(-20, 30);
    Loop(b, Coin(15) ? b - RI(0, 5) : b + RI(0, 40), 9);
    if (i % 4 == 0) Nested();
  }
  for (int i = 0; i < 12 * scale; ++i) {
    NewCase();
    std::vector<int64_t> ns = {49999, 50000, 50001, 99999, 100000, 100001, 150000, 150001, 199999};
    int64_t b = Coin() ? 0 : RI(-60000, 60000);
    Loop(b, b + Pick(ns) + RI(0, 1), 60000);
  }
  SetParMode(ParMode::kSequential, 1, 0);
  {
    auto w = MakeWorld(P("REF2K", 1), FieldType::FM64, [](RuntimeConfig& c) { c.experimental_enable_intra_op_par = true; });
    for (int i = 0; i < 250 * scale; ++i) { NewCase(); Tile(*w); }
  }
  std::vector<std::string> ops = {"mul", "square", "msb", "a2b", "b2a", "and", "trunc", "mul1"};
  std::vector<Shape> shapes = {{50001}, {2, 25003}, {251, 200}, {51, 10, 100}, {3, 50001}, {2, 3, 20001}};
  size_t k = rng();
  for (int i = 0; i < scale; ++i) {
    for (auto& op : ops) {
      RMode(20000);
      Big(P("ABY3", 3), k % 2 ? 32 : 64, op, shapes[(k / 2 + i) % shapes.size()], true, k % 3 == 0);
      ++k;
    }
    Big(P("SEMI2K", 2), 32, ops[k % 4], {50001}, true, false);
  }
  Close();
}
