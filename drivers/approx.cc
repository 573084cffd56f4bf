// Fixed-point functions on whole domains (C21).  Arguments and results are
// logged as elements of the ring.
#include "mpc.h"

#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;

using i128 = __int128;
struct Env {
  std::unique_ptr<World> w;
  Proto p;
  int k, f;
  std::string expm, logm, sigm;
  int expi, divi;
  bool low;
};
static i128 Sgn(u128 v, int k) { return k == 128 ? static_cast<i128>(v) : static_cast<i128>(static_cast<int64_t>(v)); }
static u128 Msk(i128 v, int k) { return k == 128 ? static_cast<u128>(v) : static_cast<u128>(v) & ((u128(1) << k) - 1); }
static i128 RU(i128 n) { return static_cast<i128>(R128() % static_cast<u128>(n)); }  // 0..n-1

// positive, any magnitude from lo to hi bits (a value of b bits lies in [2^(b-1), 2^b))
static i128 Mag(int lo, int hi) {
  int b = static_cast<int>(RI(lo, hi));
  i128 t = i128(1) << (b - 1);
  switch (R(6)) {
    case 0: return t;
    case 1: return 2 * t - 1;
    case 2: return std::min(2 * t - 1, t + i128(R(3)));
    default: return t + RU(t);
  }
}
// a real in [lo, hi], in units of 1/1000
static i128 Real(const Env& e, int64_t lo, int64_t hi) {
  i128 L = (i128(lo) << e.f) / 1000, H = (i128(hi) << e.f) / 1000;
  switch (R(10)) {
    case 0: return L;
    case 1: return H;
    case 2: return std::clamp<i128>(R(7) - i128(3), L, H);
    case 3: return std::clamp<i128>(Mag(1, e.f) * (Coin() ? 1 : -1), L, H);
    case 4: return std::clamp<i128>((i128(RI(lo, hi) / 1000) << e.f) + i128(R(3)) - 1, L, H);
    default: return L + RU(H - L + 1);
  }
}

using Fn = std::function<Value(SPUContext*, const std::vector<Value>&)>;
struct Job { std::string fn; int args; std::function<void(std::vector<i128>&)> gen; Fn run; };

static void Do(Env& e, const Job& j, size_t n, char vis0, char vis1, Shape sh) {
  std::vector<std::vector<u128>> in(j.args);
  for (size_t i = 0; i < n; ++i) {
    std::vector<i128> a(j.args);
    j.gen(a);
    for (int t = 0; t < j.args; ++t) in[t].push_back(Msk(a[t], e.k));
  }
  auto dt = Coin() ? spu::DT_F32 : spu::DT_F64;
  size_t owner = R(e.p.n);
  size_t np = e.w->n();
  std::vector<std::vector<u128>> got(np);
  std::vector<bool> ty(np, true);
  char vs[2] = {vis0, vis1};
  bool ok = e.w->Run([&](size_t r, SPUContext* c) {
    std::vector<Value> x;
    for (int t = 0; t < j.args; ++t) {
      auto v = Pub(c, in[t], sh);
      if (vs[t] == 'V') v = m::p2v(c, v, owner);
      if (vs[t] == 'S' || vs[t] == 'B') v = m::p2s(c, v);
      if (vs[t] == 'B') v = hal::_prefer_b(c, v);
      x.push_back(v.setDtype(dt, true));
    }
    auto y = j.run(c, x);
    ty[r] = y.shape() == sh && y.isFxp();
    got[r] = ToWords((y.isPublic() ? y : y.isPrivate() ? m::v2p(c, y) : m::s2p(c, y)).data());
  });
  bool same = true;
  for (size_t r = 0; r < np; ++r) same = same && got[r] == got[0] && ty[r];
  std::string err;
  for (auto& x : e.w->err) if (!x.empty() && x.find("peer stopped") == std::string::npos) err = x;
  NewCase();
  {
    J o(j.fn.c_str());
    o.str("p", e.p.name).i("n", static_cast<int64_t>(np)).i("k", e.k).i("f", e.f);
    o.str("expm", e.expm).str("logm", e.logm).str("sigm", e.sigm).i("expi", e.expi).i("divi", e.divi).b("low", e.low);
    o.list("visl", std::vector<char>(vs, vs + j.args), [](char c) { return fmt::format("\"{}\"", c); }).str("dt", dt == spu::DT_F32 ? "F32" : "F64");
    o.list("x", in, [&](const std::vector<u128>& w) { return WList(w, e.w->bytes()); });
    o.b("ok", ok).b("same", same);
    if (ok) o.raw("y", WList(got[0], e.w->bytes()));
    else o.str("err", err.substr(0, 160));
  }
  if (!ok) fprintf(stderr, "%s %s %d f=%d: %s\n", j.fn.c_str(), e.p.name, e.k, e.f, err.substr(0, 300).c_str());
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int rounds = atoi(argv[3]);
  std::string pn = argv[4];
  int k = atoi(argv[5]), f = atoi(argv[6]);
  std::string only = argc > 7 ? argv[7] : "";
  Proto proto = P(pn.substr(0, pn.size() - 1), static_cast<size_t>(pn.back() - '0'));
  rng.seed(static_cast<uint64_t>(atoi(argv[2])) * 7919 + std::hash<std::string>{}(pn) + static_cast<uint64_t>(k * 131 + f));
  bool light = proto.name == std::string("ABY3") && k == 64;

  for (int rd = 0; rd < rounds; ++rd) {
    Env e;
    e.p = proto; e.k = k; e.f = f;
    const int h = k - 4;  // head room of a truncated product
    e.expm = rd % 2 ? "PADE" : "TAYLOR";
    if (pn == "SEMI2K2" && k == 128 && f >= 24 && rd % 3 == 2) e.expm = "PRIME";
    e.logm = (rd / 2) % 2 ? "PADE" : "MINMAX";
    if (rd % 5 == 4 && f <= 20) e.logm = "NEWTON";
    e.sigm = rd % 3 == 0 ? "REAL" : rd % 3 == 1 ? "SEG3" : "MM1";
    e.expi = e.expm == "TAYLOR" && e.logm != "NEWTON" && k == 128 && Coin() ? 12 : 8;
    e.divi = Coin(25) ? 3 : 2;
    e.low = Coin(25);
    bool par = Coin(30), lob = Coin(), upb = Coin();
    e.w = MakeWorld(proto, FieldOf(k), [&](RuntimeConfig& c) {
      c.fxp_fraction_bits = f;
      c.fxp_exp_mode = e.expm == "PADE" ? RuntimeConfig::EXP_PADE : e.expm == "PRIME" ? RuntimeConfig::EXP_PRIME : Coin() ? RuntimeConfig::EXP_DEFAULT : RuntimeConfig::EXP_TAYLOR;
      c.fxp_log_mode = e.logm == "PADE" ? RuntimeConfig::LOG_PADE : e.logm == "NEWTON" ? RuntimeConfig::LOG_NEWTON : Coin() ? RuntimeConfig::LOG_DEFAULT : RuntimeConfig::LOG_MINMAX;
      c.sigmoid_mode = e.sigm == "MM1" ? RuntimeConfig::SIGMOID_MM1 : e.sigm == "SEG3" ? RuntimeConfig::SIGMOID_SEG3 : Coin() ? RuntimeConfig::SIGMOID_DEFAULT : RuntimeConfig::SIGMOID_REAL;
      c.fxp_exp_iters = e.expi;
      c.fxp_log_iters = 3;
      c.fxp_log_orders = 8;
      c.fxp_div_goldschmidt_iters = e.divi;
      c.enable_lower_accuracy_rsqrt = e.low;
      c.experimental_enable_intra_op_par = par;
      c.experimental_enable_exp_prime = e.expm == "PRIME";
      c.experimental_exp_prime_offset = 13;
      c.experimental_exp_prime_disable_lower_bound = !lob;
      c.experimental_exp_prime_enable_upper_bound = upb;
    });
    auto sg = [](i128 v) { return Coin() ? v : -v; };
    // the smallest divisor whose quotient still fits
    const int lo = std::max(1, 3 * f + 3 - h);
    std::vector<Job> js;
    auto un = [&](const char* n, const std::function<i128()>& g, Value (*fn)(SPUContext*, const Value&)) {
      js.push_back({n, 1, [g](std::vector<i128>& a) { a[0] = g(); }, [fn](SPUContext* c, const std::vector<Value>& x) { return fn(c, x[0]); }});
    };
    un("recip", [&] { return sg(Mag(lo, 2 * f)); }, hal::f_reciprocal);
    js.push_back({"div", 2, [&](std::vector<i128>& a) {
      int b = static_cast<int>(RI(lo, 2 * f));
      a[1] = sg(Mag(b, b));
      int top = std::min(h - f - 2, h - (2 * f - b) - 3);
      a[0] = Coin(5) ? 0 : sg(Mag(1, std::max(1, std::min(top, 2 * f + 6))));
    }, [](SPUContext* c, const std::vector<Value>& x) { return hal::f_div(c, x[0], x[1]); }});
    un("sqrt", [&] { return Mag(1, 2 * f - 1); }, hal::f_sqrt);
    un("rsqrt", [&] { return Mag(1, 2 * f - 1); }, hal::f_rsqrt);
    if (!light) {
      int lb = e.expm == "PRIME" ? static_cast<int>((48 - 13 - 2 * f) / 1.4427 * 1000) + 100 : -22000;
      int hb = e.expm == "PRIME" ? std::min(21900, static_cast<int>((124 - 13 - 2 * f) / 1.4427 * 1000) - 100) : 21900;
      un("exp", [&, lb, hb] { return e.expm == "TAYLOR" ? Coin(30) ? Real(e, -500000, 2000) : Real(e, -20000, 9000) : Real(e, lb, hb); }, hal::f_exp);
      un("exp2", [&] { return Real(e, -31900, 31900); }, hal::f_exp2);
    } else {
      un("exp", [&] { return Real(e, -20000, 0); }, hal::f_exp);
    }
    if (e.logm == "NEWTON") un("log", [&] { return Coin() ? Real(e, 100, 250000) : Real(e, 100, 8000); }, hal::f_log);
    else un("log", [&] { return Mag(1, e.logm == "PADE" ? 2 * f : 2 * f + 1); }, hal::f_log);
    un("log2", [&] { return Mag(1, 2 * f); }, hal::f_log2);
    if (e.logm != "NEWTON") un("log1p", [&] { return Mag(1, 2 * f) - (i128(1) << f) + 1 > 0 && Coin() ? Mag(1, 2 * f - 1) : Real(e, -990, 3000); }, hal::f_log1p);
    un("tanh", [&] { return Coin(15) ? sg(Mag(1, std::min(h - 2, 3 * f))) : Real(e, -7000, 7000); }, hal::f_tanh);
    un("sigmoid", [&] { return e.sigm != "REAL" ? Coin() ? sg(Mag(1, std::min(h - f, 2 * f + 4))) : Real(e, -9000, 9000) : Real(e, -8000, 15000); }, hal::f_sigmoid);
    un("sin", [&] { return Coin() ? Real(e, -7000, 7000) : Real(e, -400000, 400000); }, hal::f_sine);
    un("cos", [&] { return Coin() ? Real(e, -7000, 7000) : Real(e, -400000, 400000); }, hal::f_cosine);
    un("erf", [&] { return Coin() ? Real(e, -3500, 3500) : Real(e, -40000, 40000); }, hal::f_erf);
    js.push_back({"atan2", 2, [&](std::vector<i128>& a) {
      int b = static_cast<int>(RI(std::max(1, lo), 2 * f - 1));
      a[0] = sg(Mag(b, b)); a[1] = Coin(30) ? sg(Mag(b, b)) : sg(Mag(1, b));
      if (Coin(4)) a[1] = 0;
      if (Coin()) std::swap(a[0], a[1]);
    }, [](SPUContext* c, const std::vector<Value>& x) { return hal::f_atan2(c, x[0], x[1]); }});
    un("acos", [&] { return Coin(20) ? sg((i128(1) << f) - Mag(1, f)) : Real(e, -1000, 1000); }, hal::f_acos);
    un("asin", [&] { return Coin(20) ? sg((i128(1) << f) - Mag(1, f)) : Real(e, -1000, 1000); }, hal::f_asin);

    for (auto& j : js) {
      if (!only.empty() && j.fn != only) continue;
      const char* vis = "SSSSBVPP";
      char a = vis[R(8)], b = vis[R(8)];
      if (j.fn == "sqrt" || j.fn == "rsqrt" || j.fn == "log2" || j.fn == "exp2" || j.fn == "tanh" || j.fn == "sigmoid" || j.fn == "div" || j.fn == "atan2") { if (a == 'P' && Coin()) a = 'S'; }
      if (light && a == 'P') a = 'S';
      size_t n = 12;
      Shape sh = R(3) == 0 ? Shape{3, 4} : Shape{12};
      if (R(12) == 0) { n = 1; sh = {}; }
      Do(e, j, n, a, b, sh);
      for (auto& x : e.w->err) if (!x.empty()) { Close(); return 0; }
    }
  }
  Close();
  return 0;
}
