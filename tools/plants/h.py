PRE = '''#include <cmath>
#include "mpc.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
'''
T = """
using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
using Fn = Value (*)(SPUContext*, const Value&);
// f at the points x, on a secret input
static std::vector<double> At(Fn f, int k, int fb, const std::vector<double>& x, std::function<void(RuntimeConfig&)> tweak = nullptr) {
  Proto p = P("SEMI2K", 2);
  auto w = MakeWorld(p, FieldOf(k), [&](RuntimeConfig& c) { c.fxp_fraction_bits = fb; if (tweak) tweak(c); });
  std::vector<u128> v;
  for (double d : x) { i128 r = static_cast<i128>(std::ldexp(d, fb)); v.push_back(k == 64 ? static_cast<u128>(static_cast<u64>(r)) : static_cast<u128>(r)); }
  std::vector<std::vector<u128>> got(2);
  w->Run([&](size_t r, SPUContext* c) {
    auto a = m::p2s(c, Pub(c, v, {static_cast<int64_t>(v.size())})).setDtype(spu::DT_F64, true);
    got[r] = ToWords(m::s2p(c, f(c, a)).data());
  });
  std::vector<double> o;
  for (auto g : got[0]) o.push_back(std::ldexp(k == 64 ? static_cast<double>(static_cast<int64_t>(g)) : static_cast<double>(static_cast<i128>(g)), -fb));
  return o;
}
"""
A = "src/libspu/kernel/hal/fxp_approx.cc"
B = "src/libspu/kernel/hal/fxp_base.cc"
SEEDS = [
dict(id="c21-log-top", property="C21", group="all", pre=PRE,
  edits=[(A, "auto k = _popcount(ctx, pre_x, 2 * num_fxp_bits + 2);", "auto k = _popcount(ctx, pre_x, 2 * num_fxp_bits);")],
  needs="the logarithm of a number in the top binade of the domain, at 2^(fraction bits) or more", breaks="the exponent is counted one short and the logarithm is off by log 2",
  demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  std::vector<double> x{0.001, 1, 3, 1000, 130000, 262143, 262144, 300000, 500000};
  auto y = At(hal::f_log, 64, 18, x);
  CHECK(y.size() == x.size());
  for (size_t i = 0; i < x.size(); ++i) CHECK(std::fabs(y[i] - std::log(x[i])) < 0.005);
  return 0;
}"""),
dict(id="c21-erf-cut", property="C21", group="all", pre=PRE,
  edits=[(A, "  auto three = constant(ctx, 3.0, x.dtype(), x.shape());", "  auto three = constant(ctx, 2.25, x.dtype(), x.shape());")],
  needs="the error function of a secret of magnitude between 2.25 and about 2.4", breaks="saturates to 1 where the function is still 1.4e-3 away",
  demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  std::vector<double> x;
  for (double d = -4; d <= 4; d += 0.0625) x.push_back(d);
  auto y = At(hal::f_erf, 64, 18, x);
  CHECK(y.size() == x.size());
  for (size_t i = 0; i < x.size(); ++i) CHECK(std::fabs(y[i] - std::erf(x[i])) < 0.0009);
  return 0;
}"""),
dict(id="c21-div-iters", property="C21", group="all", pre=PRE,
  edits=[(B, "    num_iters = std::max(num_iters, static_cast<size_t>(3));", "    num_iters = std::min(num_iters, static_cast<size_t>(3));")],
  needs="30 or more fraction bits and a quotient of more than 14 significant bits", breaks="one Goldschmidt iteration too few: 14 correct bits instead of 28",
  demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  std::vector<double> x{1, 3, 0.7, 0.999, 0.51, 100.3, 255.9, 1023.9, -7.77};
  auto y = At(hal::f_reciprocal, 128, 40, x);
  CHECK(y.size() == x.size());
  for (size_t i = 0; i < x.size(); ++i) CHECK(std::fabs(y[i] * x[i] - 1) < 1e-6);
  return 0;
}"""),
]
SEEDS += [
dict(id="c21-atan-octant", property="C21", group="all", pre=PRE,
  edits=[(A, "  auto cmp = _less(ctx, abs_xy[0], abs_xy[1]);", "  auto cmp = _less(ctx, abs_xy[0], xy[1]);")],
  needs="atan2 in the lower half plane, closer to the vertical axis than to the horizontal one", breaks="divides by the smaller coordinate: the polynomial is used outside [0, 1]",
  demo=T + """
int main(int argc, char** argv) {
  Open(argc, argv);
  Proto p = P("SEMI2K", 2);
  auto w = MakeWorld(p, FieldType::FM64, [](RuntimeConfig& c) { c.fxp_fraction_bits = 18; });
  std::vector<u128> xs, ys;
  std::vector<double> t;
  for (int i = -8; i <= 8; ++i) for (int j = -8; j <= 8; ++j) if (i || j) {
    ys.push_back(static_cast<u64>(static_cast<int64_t>(i) << 16)); xs.push_back(static_cast<u64>(static_cast<int64_t>(j) << 16));
    t.push_back(std::atan2(i, j));
  }
  int64_t n = static_cast<int64_t>(t.size());
  std::vector<std::vector<u128>> got(2);
  w->Run([&](size_t r, SPUContext* c) {
    auto y = m::p2s(c, Pub(c, ys, {n})).setDtype(spu::DT_F64, true), x = m::p2s(c, Pub(c, xs, {n})).setDtype(spu::DT_F64, true);
    got[r] = ToWords(m::s2p(c, hal::f_atan2(c, y, x)).data());
  });
  CHECK(static_cast<int64_t>(got[0].size()) == n);
  for (int64_t i = 0; i < n; ++i) CHECK(std::fabs(std::ldexp(static_cast<double>(static_cast<int64_t>(got[0][i])), -18) - t[i]) < 0.001);
  return 0;
}"""),
]
