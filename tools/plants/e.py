HLO = '''#include "mpc.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/type_cast.h"
#include "libspu/kernel/hlo/control_flow.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/reduce.h"
'''
T = """
using namespace drv;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using spu::DT_I32; using spu::DT_F32;
static Value In(SPUContext* c, const std::vector<u128>& v, const Shape& s, char vis, spu::DataType dt) {
  auto p = Pub(c, v, s);
  if (vis == 'S') p = spu::mpc::p2s(c, p);
  return Value(p.data(), dt);
}
static std::vector<int64_t> Out(SPUContext* c, Value v) {
  auto w = ToWords((v.isSecret() ? spu::mpc::s2p(c, v) : v).data());
  std::vector<int64_t> r;
  for (auto x : w) r.push_back(static_cast<int64_t>(static_cast<uint64_t>(x)));
  return r;
}
using VI = std::vector<int64_t>;
static VI Do(const std::function<Value(SPUContext*)>& f) {
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64, [](RuntimeConfig& c) {});
  VI r;
  bool ok = w->Run([&](size_t me, SPUContext* c) { auto x = Out(c, f(c)); if (me == 0) r = x; });
  CHECK(ok);
  return r;
}
static u128 N(int64_t v) { return static_cast<uint64_t>(v); }
"""
SEEDS = [
dict(id="c18-tree-tails", property="C18",
  edits=[("src/libspu/kernel/hlo/reduce.cc", "  while (!tails.empty()) {", "  if (!tails.empty()) {")],
  needs="a reduction over a length with two or more odd halvings (7, 11, 15, ...)", breaks="the elements of the outer tails are left out of the result",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (int64_t n = 1; n < 20; ++n) {
    auto r = Do([&](SPUContext* c) {
      std::vector<u128> v;
      for (int64_t i = 0; i < n; ++i) v.push_back(i * i + 1);
      auto x = In(c, v, {n}, 'S', DT_I32);
      return hlo::TreeReduce(c, {x}, 0, [&](absl::Span<const Value> a, absl::Span<const Value> b) { return std::vector<Value>{hal::add(c, a[0], b[0])}; })[0];
    });
    int64_t s = 0;
    for (int64_t i = 0; i < n; ++i) s += i * i + 1;
    CHECK(r.size() == 1 && r[0] == s);
  }
  return 0;
}"""),
dict(id="c18-argmax-stride", property="C18",
  edits=[("src/libspu/kernel/hlo/reduce.cc", "  strides[1] = window_strides[1];", "  strides[1] = window_strides[2];")],
  needs="max pooling with a 2x2 window and different strides for the two axes", breaks="windows of the wrong rows are reduced",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (int64_t s1 : {1, 2}) for (int64_t s2 : {1, 2}) {
    int64_t h = 5, wd = 5, oh = (h - 2) / s1 + 1, ow = (wd - 2) / s2 + 1;
    std::vector<u128> v;
    for (int64_t i = 0; i < h * wd; ++i) v.push_back((i * 7) % 25);
    VI r;
    r = Do([&](SPUContext* c) {
      auto x = In(c, v, {1, h, wd, 1}, 'S', DT_I32);
      std::vector<std::pair<int64_t, int64_t>> pad(4, {0, 0});
      hlo::ReduceWindowConfig cfg{{1, 2, 2, 1}, {1, s1, s2, 1}, {1, 1, 1, 1}, pad, {1, 1, 1, 1}};
      return hlo::ArgMax(c, x, {1, oh, ow, 1}, cfg).first;
    });
    CHECK(static_cast<int64_t>(r.size()) == oh * ow);
    for (int64_t i = 0; i < oh; ++i) for (int64_t j = 0; j < ow; ++j) {
      int64_t m = 0;
      for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) m = std::max(m, static_cast<int64_t>(v[(i * s1 + a) * wd + j * s2 + b]));
      CHECK(r[i * ow + j] == m);
    }
  }
  return 0;
}"""),
dict(id="c18-gather-ivd", property="C18",
  edits=[("src/libspu/kernel/hlo/indexing.cc", "      if (index_vector_index_i == config_.indexVectorDim) {", "      if (i != 0 && index_vector_index_i == config_.indexVectorDim) {")],
  needs="a gather whose index vectors lie along the first dimension of the start indices and whose first output dimension is a batch dimension", breaks="batch coordinates are written over the index-vector coordinate: the wrong slices come out",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  std::vector<u128> v;
  for (int i = 0; i < 30; ++i) v.push_back(100 + i);
  for (int64_t ivd : {0, 1}) {
    VI rows{4, 0, 3}, cols{1, 5, 2};
    auto r = Do([&](SPUContext* c) {
      auto x = In(c, v, {5, 6}, 'S', DT_I32);
      std::vector<u128> s(6);
      for (int i = 0; i < 3; ++i) { s[ivd == 0 ? i : 2 * i] = rows[i]; s[ivd == 0 ? 3 + i : 2 * i + 1] = cols[i]; }
      auto st = hal::constant(c, [&] { std::vector<int32_t> t; for (auto e : s) t.push_back(static_cast<int32_t>(e)); return t; }(), DT_I32, ivd == 0 ? Shape{2, 3} : Shape{3, 2});
      hlo::GatherConfig g{{1, 1}, ivd, {}, {0, 1}, {0, 1}};
      return hlo::Gather(c, x, st, g, {3});
    });
    CHECK(r.size() == 3);
    for (int i = 0; i < 3; ++i) CHECK(r[i] == 100 + rows[i] * 6 + cols[i]);
  }
  return 0;
}"""),
dict(id="c19-case-negative", property="C19",
  edits=[("src/libspu/kernel/hlo/control_flow.cc", "    idx = (idx < 0 || idx > upper_bound) ? upper_bound : idx;", "    idx = std::max(0, std::min(idx, upper_bound));")],
  needs="a public branch index below zero", breaks="the first branch runs instead of the last",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (int n : {1, 2, 3}) for (int i = -3; i < 6; ++i) {
    int ran = -1, count = 0;
    Do([&](SPUContext* c) {
      std::vector<hlo::BranchFcnT> br;
      for (int b = 0; b < n; ++b) br.push_back([&, b] { if (c->lctx()->Rank() == 0) { ran = b; ++count; } return std::vector<Value>{hal::constant(c, b, DT_I32)}; });
      return hlo::Case(c, hal::constant(c, i, DT_I32), br)[0];
    });
    CHECK(count == 1 && ran == (i < 0 || i >= n ? n - 1 : i));
  }
  return 0;
}"""),
dict(id="c19-case-secret-bound", property="C19",
  edits=[("src/libspu/kernel/hlo/control_flow.cc", "    auto p = hal::bitwise_or(ctx, hal::less(ctx, index, lower_bound),\n                             hal::greater(ctx, index, upper_bound));", "    auto p = hal::bitwise_or(ctx, hal::less(ctx, index, lower_bound),\n                             hal::greater_equal(ctx, index, hal::add(ctx, upper_bound, upper_bound)));")],
  needs="a secret branch index just beyond the last of three or more branches", breaks="no branch is selected: the result is zero",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (int n : {1, 2, 3, 4}) for (int i = -2; i < 8; ++i) {
    auto r = Do([&](SPUContext* c) {
      std::vector<hlo::BranchFcnT> br;
      for (int b = 0; b < n; ++b) br.push_back([&, b] { return std::vector<Value>{hal::constant(c, 10 + b, DT_I32)}; });
      return hlo::Case(c, In(c, {N(i)}, {}, 'S', DT_I32), br)[0];
    });
    CHECK(r.size() == 1 && r[0] == 10 + (i < 0 || i >= n ? n - 1 : i));
  }
  return 0;
}"""),
dict(id="c20-idiv-exact", property="C20",
  edits=[("src/libspu/kernel/hal/polymorphic.cc", "    auto v1 = less_equal(ctx, add(ctx, approx_x, abs_y), abs_x);", "    auto v1 = less(ctx, add(ctx, approx_x, abs_y), abs_x);")],
  needs="an exact integer division whose approximate quotient lands below the integer", breaks="the quotient is one too small",
  group="all", pre=HLO, demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  std::vector<u128> x, y;
  VI q;
  for (int64_t b = 1; b < 30; ++b) for (int64_t k = -12; k < 13; k += 3) { x.push_back(N(b * k)); y.push_back(N(k % 2 == 0 ? b : -b)); q.push_back(k % 2 == 0 ? k : -k); }
  auto r = Do([&](SPUContext* c) { int64_t n = static_cast<int64_t>(x.size()); return hal::div(c, In(c, x, {n}, 'S', DT_I32), In(c, y, {n}, 'S', DT_I32)); });
  CHECK(r == q);
  return 0;
}"""),
]
