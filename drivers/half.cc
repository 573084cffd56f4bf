// Half-precision numbers and the file names of debugging dumps.
#include "drv.h"
#include <sstream>
#include <climits>
#include "libspu/core/half.h"
#include "libspu/device/utils/debug_dump_constant.h"
using namespace drv;
using half_float::half;
static int Code(half h) { uint16_t c; memcpy(&c, &h, 2); return c; }
static half H(int c) { uint16_t u = static_cast<uint16_t>(c); half h; memcpy(&h, &u, 2); return h; }
static std::string U(float f) { uint32_t b; memcpy(&b, &f, 4); return "[" + std::to_string(b & 65535) + "," + std::to_string(b >> 16) + "]"; }
static std::string U(double f) { u64 b; memcpy(&b, &f, 8); std::string s = "["; for (int i = 0; i < 4; ++i) s += (i ? "," : "") + std::to_string((b >> (16 * i)) & 65535); return s + "]"; }
static std::string L(const std::vector<std::string>& v) { std::string s = "["; for (auto& x : v) { if (s.size() > 1) s += ','; s += x; } return s + "]"; }
static int RH() {  // a half with a taste for corners
  switch (R(8)) {
    case 0: { static const int c[] = {0, 1, 2, 0x3FF, 0x400, 0x401, 0x7BFF, 0x7BFE, 0x7C00, 0x7C01, 0x7E00, 0x3C00, 0x3BFF, 0x3C01, 0x3800, 0x37FF, 0x3801, 0x4000, 0x6400, 0x6800, 0x63FF, 0x5BFF}; return c[R(22)] | (Coin() ? 0x8000 : 0); }
    case 1: return static_cast<int>(R(0x400)) | (Coin() ? 0x8000 : 0);
    case 2: return (0x3C00 + RI(-3000, 3000)) | (Coin() ? 0x8000 : 0);
    case 3: return (static_cast<int>(R(31)) << 10 | (Coin() ? 0 : 0x3FF)) | (Coin() ? 0x8000 : 0);
    default: return static_cast<int>(R(65536));
  }
}
static bool fin(int c) { return (c & 0x7FFF) < 0x7C00; }
static i128 Mag(int c) { int a = c & 0x7FFF; return a < 1024 ? a : i128(1024 + (a & 1023)) << ((a >> 10) - 1); }

static int UnF(const std::string& f, int c) {
  half h = H(c);
  if (f == "neg") return Code(-h);
  if (f == "abs") return Coin() ? Code(half_float::fabs(h)) : Code(half_float::abs(h));
  if (f == "inc") return Coin() ? Code(++h) : (h++, Code(h));
  if (f == "dec") return Coin() ? Code(--h) : (h--, Code(h));
  if (f == "sqrt") return Code(half_float::sqrt(h));
  if (f == "cbrt") return Code(half_float::cbrt(h));
  if (f == "rsqrt") return Code(half_float::rsqrt(h));
  if (f == "logb") return Code(half_float::logb(h));
  if (f == "trunc") return Code(half_float::trunc(h));
  if (f == "floor") return Code(half_float::floor(h));
  if (f == "ceil") return Code(half_float::ceil(h));
  if (f == "round") return Code(half_float::round(h));
  if (f == "rint") return Code(half_float::rint(h));
  if (f == "nearbyint") return Code(half_float::nearbyint(h));
  if (f == "text") { if (!fin(c)) return c; std::stringstream s; s.precision(9); s << h; half g; s >> g; return Code(g); }
  if (f == "class") {
    int k = half_float::fpclassify(h);
    int z = k == FP_NAN ? 0 : k == FP_INFINITE ? 1 : k == FP_ZERO ? 2 : k == FP_SUBNORMAL ? 3 : 4;
    return z + 8 * half_float::isfinite(h) + 16 * half_float::isinf(h) + 32 * half_float::isnan(h) + 64 * half_float::isnormal(h) + 128 * half_float::signbit(h);
  }
  if (!fin(c)) return 0;
  if (f == "lround") return static_cast<int>(half_float::lround(h));
  if (f == "llround") return static_cast<int>(half_float::llround(h));
  if (f == "lrint") return static_cast<int>(half_float::lrint(h));
  if (f == "llrint") return static_cast<int>(half_float::llrint(h));
  if (f == "toint") return static_cast<int>(h);
  if (f == "cast_int") return half_float::half_cast<int>(h);
  if (f == "ilogb") return (c & 0x7FFF) ? half_float::ilogb(h) : 0;
  abort();
}
int main(int argc, char** argv) {
  Open(argc, argv);
  int m = argc > 3 ? atoi(argv[3]) : 1;
  const int B = 64;
  // exhaustive over all 65536 halves
  const std::vector<std::string> exh = {"class", "ceil", "floor", "round", "rint", "trunc", "cast_int", "neg"};
  const std::vector<std::string> smp = {"abs", "inc", "dec", "sqrt", "cbrt", "rsqrt", "logb", "nearbyint", "text", "lround", "llround", "lrint", "llrint", "toint", "ilogb"};
  for (auto& f : exh)
    for (int lo = 0; lo < 65536; lo += B * (m > 1 || f == "class" ? 1 : 4)) { std::vector<int> z; for (int i = 0; i < B; ++i) z.push_back(UnF(f, lo + i)); NewCase(); J("unrange").str("f", f).i("lo", lo).ints("z", z); }
  for (auto& f : smp)
    for (int r = 0; r < 10 * m; ++r) { std::vector<int> x, z; for (int i = 0; i < B; ++i) { x.push_back(RH()); z.push_back(UnF(f, x.back())); } NewCase(); J("un").str("f", f).ints("x", x).ints("z", z); }
  for (int lo = 0; lo < 65536; lo += B) {
    std::vector<std::string> u, d;
    for (int i = 0; i < B; ++i) { u.push_back(U(static_cast<float>(H(lo + i)))); d.push_back(U(half_float::half_cast<double>(H(lo + i)))); }
    NewCase(); J("tofloat").i("lo", lo).raw("u", L(u));
    if (m > 1 || lo % 512 == 0) { NewCase(); J("todouble").i("lo", lo).raw("u", L(d)); }
  }
  // conversions into halves: random, and at and around every midpoint sampled
  for (int r = 0; r < 60 * m; ++r) {
    std::vector<std::string> u, d; std::vector<int> z, y;
    for (int i = 0; i < 32; ++i) {
      float f; double g;
      int c = RH() & 0x7FFF; if (c >= 0x7C00) c = 0x7BFF;
      double mid = (static_cast<double>(Mag(c)) + static_cast<double>(Mag(c + 1))) / 2 * std::ldexp(1.0, -24);
      switch (R(6)) {
        case 0: { uint32_t b = static_cast<uint32_t>(rng()); memcpy(&f, &b, 4); u64 q = rng(); memcpy(&g, &q, 8); break; }
        case 1: g = mid; f = static_cast<float>(mid); break;
        case 2: g = std::nextafter(mid, Coin() ? 1e30 : 0); f = std::nextafterf(static_cast<float>(mid), Coin() ? 1e30F : 0); break;
        case 3: g = static_cast<double>(Mag(c)) * std::ldexp(1.0, -24); f = static_cast<float>(g); break;
        case 4: f = static_cast<float>(std::ldexp(1.0 + static_cast<double>(rng() >> 12) * 0x1p-52, static_cast<int>(RI(-30, 20)))); g = f * (1 + 0x1p-40); break;
        default: { uint32_t b = static_cast<uint32_t>((RI(95, 145) << 23) | R(1 << 23)); memcpy(&f, &b, 4); g = std::ldexp(1.0 + static_cast<double>(rng() >> 12) * 0x1p-52, static_cast<int>(RI(-30, 20))); }
      }
      if (Coin()) { f = -f; g = -g; }
      u.push_back(U(f)); d.push_back(U(g));
      half h(0.0F); if (Coin()) h = f; else h = half(f);
      z.push_back(Coin() ? Code(h) : Code(half_float::half_cast<half>(f))); y.push_back(Code(half_float::half_cast<half>(g)));
    }
    NewCase(); J("fromfloat").raw("u", L(u)).ints("z", z);
    NewCase(); J("fromdouble").raw("u", L(d)).ints("z", y);
    std::vector<int> x, w;
    for (int i = 0; i < 32; ++i) { int v = static_cast<int>(Coin(30) ? RI(-70000, 70000) : RI(-4, 4) + (1 << R(17)) * (Coin() ? 1 : -1) * RI(1, 3)); x.push_back(v); w.push_back(Code(half_float::half_cast<half>(v))); }
    NewCase(); J("fromint").ints("x", x).ints("z", w);
  }
  const std::vector<std::string> bin = {"add", "sub", "mul", "div", "hypot", "fmax", "fmin", "fdim", "nextafter", "copysign", "fma", "fmod", "rem", "ldexp", "cmp", "hash"};
  for (auto& f : bin)
    for (int r = 0; r < (f == "add" || f == "mul" || f == "div" || f == "sub" || f == "cmp" ? 40 : 15) * m; ++r) {
      std::vector<int> x, y, z, w, n; std::vector<std::string> q, b;
      for (int i = 0; i < 32; ++i) {
        int cx = RH(), cy = RH(), cw = RH();
        if (Coin(15)) cy = cx ^ (Coin() ? 0 : 0x8000); else if (Coin(20)) cy = (cx & 0x7FFF) < 0x7BF0 ? cx + static_cast<int>(R(8)) : cx;
        if (Coin(20)) cy = (cy & 0x83FF) | (((cx >> 10) & 31) << 10);
        int e = static_cast<int>(RI(-45, 45));
        half a = H(cx), c = H(cy);
        u128 wit = 0;
        int res = 0;
        if (f == "add") { if (Coin()) res = Code(a + c); else { half t = a; t += c; res = Code(t); } }
        if (f == "sub") { if (Coin()) res = Code(a - c); else { half t = a; t -= c; res = Code(t); } }
        if (f == "mul") { if (Coin()) res = Code(a * c); else { half t = a; t *= c; res = Code(t); } }
        if (f == "div") { if (Coin()) res = Code(a / c); else { half t = a; t /= c; res = Code(t); } }
        if (f == "hypot") res = Code(half_float::hypot(a, c));
        if (f == "fmax") res = Code(half_float::fmax(a, c));
        if (f == "fmin") res = Code(half_float::fmin(a, c));
        if (f == "fdim") res = Code(half_float::fdim(a, c));
        if (f == "nextafter") res = Code(half_float::nextafter(a, c));
        if (f == "copysign") res = Code(half_float::copysign(a, c));
        if (f == "fma") { if (Coin()) { half p = a * c; if (fin(Code(p))) cw = Code(-p); } res = Code(half_float::fma(a, c, H(cw))); }
        if (f == "fmod") { res = Code(half_float::fmod(a, c)); if (fin(cx) && fin(cy) && Mag(cy)) wit = static_cast<u128>(Mag(cx) / Mag(cy)); }
        if (f == "rem") {
          int quo = 0; res = Coin() ? Code(half_float::remainder(a, c)) : Code(half_float::remquo(a, c, &quo));
          if (fin(cx) && fin(cy) && Mag(cy) && fin(res)) { i128 rr = Mag(res) * (((res ^ cx) & 0x8000) ? -1 : 1); i128 d = Mag(cx) - rr; wit = d >= 0 && d % Mag(cy) == 0 ? static_cast<u128>(d / Mag(cy)) : 0; }
        }
        if (f == "ldexp") res = Coin() ? Code(half_float::ldexp(a, e)) : Coin() ? Code(half_float::scalbn(a, e)) : Code(half_float::scalbln(a, e));
        if (f == "hash") { std::hash<half> hh; res = hh(a) == hh(c) ? cy : -1; }
        if (f == "cmp") {
          bool v[] = {a == c, a != c, a < c, a > c, a <= c, a >= c, half_float::isgreater(a, c), half_float::isgreaterequal(a, c), half_float::isless(a, c), half_float::islessequal(a, c), half_float::islessgreater(a, c), half_float::isunordered(a, c)};
          std::string s = "["; for (bool t : v) s += (s.size() > 1 ? "," : "") + std::string(t ? "true" : "false"); b.push_back(s + "]");
        }
        x.push_back(cx); y.push_back(cy); w.push_back(cw); z.push_back(res); n.push_back(e); q.push_back(W(wit, 16));
      }
      NewCase();
      J j("bin"); j.str("f", f).ints("x", x).ints("y", y).ints("z", z);
      if (f == "fma") j.ints("w", w);
      if (f == "ldexp") j.ints("n", n);
      if (f == "fmod" || f == "rem") j.raw("q", L(q));
      if (f == "cmp") j.raw("b", L(b));
    }
  for (int r = 0; r < 15 * m; ++r) {
    std::vector<int> x, z, n, w;
    for (int i = 0; i < 32; ++i) { int c = RH(), e = 0; x.push_back(c); z.push_back(Code(half_float::frexp(H(c), &e))); n.push_back(e); }
    NewCase(); J("frexp").ints("x", x).ints("z", z).ints("n", n);
    x.clear(); z.clear();
    for (int i = 0; i < 32; ++i) { int c = RH(); half ip; x.push_back(c); w.push_back(Code(half_float::modf(H(c), &ip))); z.push_back(Code(ip)); }
    NewCase(); J("modf").ints("x", x).ints("z", z).ints("w", w);
  }
  // functions promised within a unit in the last place, against the mathematical library
#define FNS(X) X(exp) X(exp2) X(expm1) X(log) X(log10) X(log2) X(log1p) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(erf) X(erfc) X(lgamma) X(tgamma)
#define ONE(fn) \
  for (int r = 0; r < 6 * m; ++r) { std::vector<int> x, z; std::vector<std::string> u; \
    for (int i = 0; i < 32; ++i) { int c = RH(); x.push_back(c); z.push_back(Code(half_float::fn(H(c)))); u.push_back(U(std::fn(static_cast<double>(static_cast<float>(H(c)))))); } \
    NewCase(); J("close").str("f", #fn).ints("x", x).ints("z", z).raw("u", L(u)); }
  FNS(ONE)
  for (int r = 0; r < 8 * m; ++r) {
    std::vector<int> x, z, z2; std::vector<std::string> u, u2;
    for (int i = 0; i < 32; ++i) {
      int c = RH(), d = RH(); double a = static_cast<float>(H(c)), b = static_cast<float>(H(d));
      x.push_back(c); z.push_back(Code(half_float::pow(H(c), H(d)))); u.push_back(U(std::pow(a, b)));
      z2.push_back(Code(half_float::atan2(H(c), H(d)))); u2.push_back(U(std::atan2(a, b)));
    }
    NewCase(); J("close").str("f", "pow").ints("x", x).ints("z", z).raw("u", L(u));
    NewCase(); J("close").str("f", "atan2").ints("x", x).ints("z", z2).raw("u", L(u2));
  }
  {
    using NL = std::numeric_limits<half>;
    NewCase();
    J("limits").ints("z", std::vector<int>{Code(NL::min()), Code(NL::max()), Code(NL::lowest()), Code(NL::epsilon()), Code(NL::round_error()), Code(NL::infinity()), Code(NL::denorm_min()), NL::digits, NL::max_digits10, NL::min_exponent, NL::max_exponent, NL::min_exponent10, NL::max_exponent10})
        .raw("nan", std::string("[") + (half_float::isnan(NL::quiet_NaN()) ? "true" : "false") + "," + (half_float::isnan(NL::signaling_NaN()) ? "true" : "false") + "]");
  }
  for (int i = 0; i < 60; ++i) {
    namespace dv = spu::device;
    std::string base = Coin() ? "/tmp/x" : "d/e" + std::to_string(R(9)), var = Coin() ? "v" + std::to_string(R(1000)) : Coin() ? "a.b" : "x_" + std::to_string(R(12));
    int64_t rank = i < 20 ? i : static_cast<int64_t>(R(2000)), id = Coin() ? R(12) : R(1000000);
    NewCase();
    J("path").str("base", base).i("rank", rank).str("var", var).i("id", id).str("folder", dv::getRankFolder(base, rank).string()).str("config", dv::getConfigFilePath(base).string())
        .str("code", dv::getCodeFilePath(base).string()).str("meta", dv::getMetaFilePath(base, rank, var).string()).str("chunk", dv::getValueChunkFilePath(base, rank, var, id).string()).str("ext", dv::getMetaExtension());
  }
  Close();
}
