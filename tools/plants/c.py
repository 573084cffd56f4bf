RUN = '''#include "mpc.h"
'''
SEEDS = [
dict(id="c04-perm-counter", property="C04",
  edits=[("src/libspu/mpc/common/prg_state.cc", """  return genRandomPerm(numel, priv_seed_, &priv_counter_);
""", """  auto counter = priv_counter_;
  return genRandomPerm(numel, priv_seed_, &counter);
""")],
  needs="two private draws from one context, the first of them a permutation", breaks="the private stream is used twice: a permutation and the next private mask (or permutation) come from the same blocks",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64);
  bool ok = w->Run([&](size_t, SPUContext* c) {
    auto* s = c->getState<spu::mpc::PrgState>();
    auto a = s->genPrivPerm(40);
    auto b = s->genPrivPerm(40);
    CHECK(a != b);
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c04-half-blocks", property="C04",
  edits=[("src/libspu/mpc/common/prg_state.cc", """  fillPrssPair(r_self.data<std::uint8_t>(), r_next.data<std::uint8_t>(),
               shape.numel() * ty.size(), ctrl);
""", """  if (ctrl == GenPrssCtrl::Second) {
    // whole words of the second stream
    fillPrssPair(r_self.data<uint128_t>(), r_next.data<uint128_t>(),
                 shape.numel() * ty.size() / sizeof(uint128_t), ctrl);
    r_next = r_next.clone();
    return std::make_pair(r_self, r_next);
  }

  fillPrssPair(r_self.data<std::uint8_t>(), r_next.data<std::uint8_t>(),
               shape.numel() * ty.size(), ctrl);
""")],
  needs="a one-sided draw of a size that is not a multiple of sixteen bytes", breaks="the tail of the shared draw differs at the two parties and their positions drift apart",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  using spu::mpc::PrgState;
  auto w = MakeWorld(P("SEMI2K", 3), FieldType::FM64);
  std::vector<std::vector<u128>> a(3), b(3);
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    auto* s = c->getState<PrgState>();
    s->genPrssPair(FieldType::FM64, {3}, PrgState::GenPrssCtrl::First);
    s->genPrssPair(FieldType::FM64, {3}, PrgState::GenPrssCtrl::Second);
    auto [x, y] = s->genPrssPair(FieldType::FM64, {4}, PrgState::GenPrssCtrl::Both);
    a[r] = ToWords(x); b[r] = ToWords(y);
  });
  CHECK(ok);
  for (int r = 0; r < 3; ++r) CHECK(b[r] == a[(r + 1) % 3]);
  return 0;
}"""),
dict(id="c14-sum-alias", property="C14",
  edits=[("src/libspu/mpc/utils/ring_ops.cc", """  auto res = ring_add(arrs[0], arrs[1]);
  for (size_t idx = 2; idx < arrs.size(); idx++) {
    ring_add_(res, arrs[idx]);
""", """  auto res = arrs.size() > 3 ? arrs[0] : ring_add(arrs[0], arrs[1]);
  for (size_t idx = arrs.size() > 3 ? 1 : 2; idx < arrs.size(); idx++) {
    ring_add_(res, arrs[idx]);
""")],
  needs="a sum of four or more arrays whose first one is used again", breaks="the first summand is overwritten with the sum",
  group="mpc", demo="""
#include "libspu/mpc/utils/ring_ops.h"
int main() {
  using namespace spu;
  std::vector<NdArrayRef> v;
  for (int i = 1; i <= 5; ++i) { NdArrayRef a(makeType<RingTy>(FieldType::FM64), {2}); a.at<uint64_t>(0) = i; a.at<uint64_t>(1) = 10 * i; v.push_back(a); }
  auto s = mpc::ring_sum(v);
  CHECK(s.at<uint64_t>(0) == 15); CHECK(s.at<uint64_t>(1) == 150);
  CHECK(v[0].at<uint64_t>(0) == 1); CHECK(v[0].at<uint64_t>(1) == 10);
  s = mpc::ring_sum(v);
  CHECK(s.at<uint64_t>(0) == 15);
  return 0;
}"""),
dict(id="c22-kogge-depth", property="C22",
  edits=[("src/libspu/mpc/utils/circuits.h", """  auto P = ctx._xor(lhs, rhs);
  auto G = ctx._and(lhs, rhs);

  for (int idx = 0; idx < Log2Ceil(nbits); ++idx) {
    const int64_t offset""", """  auto P = ctx._xor(lhs, rhs);
  auto G = ctx._and(lhs, rhs);

  for (int idx = 0; idx < Log2Floor(nbits); ++idx) {
    const int64_t offset""")],
  needs="a width that is not a power of two and a carry that runs further than the largest power of two below it", breaks="the highest bits of a sum miss a long carry",
  group="core", demo="""
#include "libspu/mpc/utils/circuits.h"
int main() {
  using T = uint64_t;
  spu::mpc::CircuitBasicBlock<T> c;
  c._xor = [](T const& a, T const& b) { return a ^ b; };
  c._and = [](T const& a, T const& b) { return a & b; };
  c.lshift = [](T const& a, const spu::Sizes& s) { return s[0] >= 64 ? 0 : a << s[0]; };
  c.rshift = [](T const& a, const spu::Sizes& s) { return s[0] >= 64 ? 0 : a >> s[0]; };
  for (size_t n = 1; n <= 64; ++n) {
    T m = n == 64 ? ~T(0) : (T(1) << n) - 1;
    CHECK(((spu::mpc::kogge_stone<T>(c, m >> 1, 1, n) ^ ((m >> 1) + 1)) & m) == 0);
  }
  return 0;
}"""),
]
