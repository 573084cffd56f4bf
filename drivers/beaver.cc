// Correlated randomness (C11): request histories against both sources, streamed replies cut into
// arbitrary pieces, and secure products with cached operands.
// args: out seed scale big first
#include <map>

#include "mpc.h"
#include "brpc/shim.h"
#include "libspu/core/prelude.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/semi2k/state.h"

using namespace drv;
using namespace spu::mpc::semi2k;
using spu::mpc::ElementType;
using spu::Index;

static std::unique_ptr<brpc::Server> Serve(int port) {
  beaver::ttp_server::ServerOptions o;
  o.port = port;
  o.asym_crypto_schema = "SM2";
  o.server_private_key = yacl::Buffer(std::string("PRI:k"));
  return beaver::ttp_server::RunServer(o);
}
static std::mt19937_64 piece_rng;  // the network's own choices
static void CutStream(int mode) {
  piece_rng.seed(rng());
  brpc::shim::SetPieces([mode](size_t left) -> size_t {
    switch (mode) {
      case 0: return left;
      case 1: return 1;
      case 2: return 1 + piece_rng() % 12;
      case 3: return piece_rng() % 3 ? 9 : 1 + piece_rng() % 40;
      case 4: return 1 + piece_rng() % (1 << 20);
      default: return std::max<size_t>(1, left / 2);
    }
  });
}

struct Opd { int mode = 0; int64_t id = 0, r = 0, c = 0; };
struct Req {
  std::string kind;
  int k = 64;
  bool gf = false, sampled = false;
  int64_t size = 0, m = 0, n = 0, kk = 0, bits = 0, rank = 0;
  size_t inst = 0;
  std::vector<Opd> opds;
  std::vector<std::vector<yacl::Buffer>> out;  // per party
  std::vector<Index> pi;
  std::vector<std::string> err;
};
using Descs = std::map<int64_t, Beaver::ReplayDesc>;

static void Do(Beaver& b, Req& q, Descs& ds, size_t me) {
  auto f = FieldOf(q.k);
  auto el = q.gf ? ElementType::kGfmp : ElementType::kRing;
  Beaver::ReplayDesc used[2];
  auto desc = [&](size_t i) -> Beaver::ReplayDesc* {
    if (i >= q.opds.size() || q.opds[i].mode == 0) return nullptr;
    if (q.opds[i].mode == 1) return &ds[q.opds[i].id];
    used[i] = ds[q.opds[i].id];
    used[i].status = q.opds[i].mode == 2 ? Beaver::Replay : Beaver::TransposeReplay;
    return &used[i];
  };
  auto& o = q.out[me];
  auto pair = [&](Beaver::Pair p) { o.push_back(std::move(p.first)); o.push_back(std::move(p.second)); };
  auto trip = [&](Beaver::Triple p) { o.push_back(std::move(std::get<0>(p))); o.push_back(std::move(std::get<1>(p))); o.push_back(std::move(std::get<2>(p))); };
  if (q.kind == "mul") trip(b.Mul(f, q.size, desc(0), desc(1), el));
  else if (q.kind == "mulpriv") pair(b.MulPriv(f, q.size, el));
  else if (q.kind == "square") pair(b.Square(f, q.size, desc(0)));
  else if (q.kind == "and") trip(b.And(q.size));
  else if (q.kind == "dot") trip(b.Dot(f, q.m, q.n, q.kk, desc(0), desc(1)));
  else if (q.kind == "trunc") pair(b.Trunc(f, q.size, static_cast<size_t>(q.bits)));
  else if (q.kind == "truncpr") trip(b.TruncPr(f, q.size, static_cast<size_t>(q.bits)));
  else if (q.kind == "randbit") o.push_back(b.RandBit(f, q.size));
  else if (q.kind == "eqz") pair(b.Eqz(f, q.size));
  else if (q.kind == "perm") {
    auto t = b.PermPair(f, q.size, static_cast<size_t>(q.rank));
    o.push_back(std::move(std::get<0>(t)));
    o.push_back(std::move(std::get<1>(t)));
    q.pi[me] = std::move(std::get<2>(t));
  }
}

static std::string Piece(const yacl::Buffer& b, size_t es) {
  std::string s = "[";
  size_t cnt = static_cast<size_t>(b.size()) / es;
  for (size_t i = 0; i < cnt; ++i) { if (i) s += ','; s += Bytes(b.data<u8>() + i * es, es); }
  return s + "]";
}
static std::string At(const yacl::Buffer& b, size_t es, const std::vector<int64_t>& pos) {
  std::string s = "[";
  for (size_t i = 0; i < pos.size(); ++i) { if (i) s += ','; s += Bytes(b.data<u8>() + static_cast<size_t>(pos[i]) * es, es); }
  return s + "]";
}
// out[piece][party]
static std::string Pieces(const Req& q, size_t es, const std::vector<std::vector<int64_t>>* pos = nullptr) {
  std::string s = "[";
  for (size_t i = 0; i < q.out[0].size(); ++i) {
    if (i) s += ',';
    s += '[';
    for (size_t p = 0; p < q.out.size(); ++p) { if (p) s += ','; s += pos ? At(q.out[p][i], es, (*pos)[i]) : Piece(q.out[p][i], es); }
    s += ']';
  }
  return s + "]";
}
static void Head(J& e, const Req& q, bool ok) {
  size_t es = q.kind == "and" ? 1 : static_cast<size_t>(q.k / 8);
  e.str("kind", q.kind).b("ok", ok).b("gf", q.gf).b("sampled", q.sampled).i("es", static_cast<int64_t>(es)).i("bits", q.bits).i("rank", q.rank + 1).i("inst", static_cast<int64_t>(q.inst));
}
static void Log(const Req& q) {
  bool ok = true;
  for (auto& x : q.err) ok = ok && x.empty();
  for (auto& o : q.out) ok = ok && o.size() == q.out[0].size();
  size_t es = q.kind == "and" ? 1 : static_cast<size_t>(q.k / 8);
  std::string why;
  for (auto& x : q.err) if (!x.empty()) why = x;
  if (!ok || !q.sampled) {
    J e("req");
    Head(e, q, ok);
    e.i("size", q.size).i("m", q.m).i("n", q.n).i("k", q.kk).str("err", why.substr(0, 120));
    e.list("opds", q.opds, [](const Opd& o) { return "{\"mode\":" + std::to_string(o.mode) + ",\"id\":" + std::to_string(o.id) + ",\"r\":" + std::to_string(o.r) + ",\"c\":" + std::to_string(o.c) + "}"; });
    e.list("pi", q.pi, [](const Index& x) { std::string s = "["; for (size_t i = 0; i < x.size(); ++i) { if (i) s += ','; s += std::to_string(x[i]); } return s + "]"; });
    e.raw("out", ok ? Pieces(q, es) : "[]");
    return;
  }
  // long pieces are read at a few positions, most of them around block boundaries
  auto positions = [&](int64_t total, int64_t width) {
    std::vector<int64_t> v{0, total - 1};
    for (int64_t b : {int64_t(1) << 20, int64_t(32) << 20, int64_t(64) << 20})
      for (int64_t d = -1; d <= 1; ++d) { int64_t x = b / width + d; if (x >= 0 && x < total) v.push_back(x); }
    for (int i = 0; i < 6; ++i) v.push_back(static_cast<int64_t>(R(static_cast<u64>(total))));
    return v;
  };
  if (q.kind == "dot") {
    for (auto x : positions(q.m * q.n, q.k / 8)) {
      int64_t i = x / q.n, j = x % q.n;
      std::vector<std::vector<int64_t>> pos(3);
      for (int64_t t = 0; t < q.kk; ++t) { pos[0].push_back(i * q.kk + t); pos[1].push_back(t * q.n + j); }
      pos[2] = {x};
      J e("req");
      Head(e, q, true);
      e.i("m", 1).i("n", 1).i("k", q.kk).raw("opds", "[]").raw("out", Pieces(q, es, &pos));
    }
    return;
  }
  auto v = positions(q.size, static_cast<int64_t>(es));
  std::vector<std::vector<int64_t>> pos(q.out[0].size(), v);
  J e("req");
  if (q.kind == "perm") {
    auto& pi = q.pi[static_cast<size_t>(q.rank)];
    for (auto& x : pos[1]) x = pi[x];
    Req r; r.kind = "permsample"; r.sampled = true; r.k = q.k;
    Head(e, r, true);
  } else {
    Head(e, q, true);
  }
  e.i("size", static_cast<int64_t>(v.size())).raw("opds", "[]").raw("out", Pieces(q, es, &pos));
}

static void History(bool ttp, bool big, int64_t round) {
  NewCase();
  size_t n = big ? 2 : static_cast<size_t>(RI(2, 4));
  size_t adjust = ttp ? R(n) : 0;
  int port = 21000 + static_cast<int>(round % 1000);
  auto server = ttp ? Serve(port) : nullptr;
  auto links = yacl::link::shim::MakeWorld("b" + std::to_string(case_no), n);
  std::vector<Req> qs;
  struct Made { int k; bool gf; int64_t r, c; };
  std::vector<Made> made;
  size_t insts = 1;
  const std::vector<std::string> kinds{"mul", "mulpriv", "square", "and", "dot", "trunc", "truncpr", "randbit", "perm", "eqz"};
  int len = big ? 1 : static_cast<int>(RI(5, 12));
  for (int i = 0; i < len; ++i) {
    Req q;
    q.kind = big ? kinds[static_cast<size_t>(round) % kinds.size()] : Pick(kinds);
    if (!big && Coin(30)) q.kind = Pick(std::vector<std::string>{"dot", "mul", "square"});
    if (!big && insts < 3 && Coin(6)) { q.kind = "spawn"; qs.push_back(q); ++insts; continue; }
    q.inst = R(insts);
    q.k = Pick(std::vector<int>{32, 64, 128});
    q.size = Coin(8) ? RI(16, 40) : RI(1, 7);
    if (!ttp && Coin(4)) q.size = 0;
    q.rank = static_cast<int64_t>(R(n));
    q.bits = RI(0, q.k - 2);
    if (Coin()) q.bits = Pick(std::vector<int64_t>{0, 1, q.k - 2, q.k / 4, 18});
    if (q.kind == "mulpriv" && n != 2) q.kind = "mul";
    if (q.kind == "mul" || q.kind == "mulpriv") q.gf = Coin(35);
    q.m = RI(1, 4); q.n = RI(1, 4); q.kk = RI(1, 4);
    if (big) {
      q.sampled = true;
      q.k = 128;
      q.size = (int64_t(32) << 20) / 16 + Pick(std::vector<int64_t>{1, 2, 1000, 70000});
      if (Coin(30)) q.size = (int64_t(32) << 20) / 16;
      if (q.kind == "and") q.size = q.size * 16 - Pick(std::vector<int64_t>{0, 1, 7, 15});
      if (q.kind == "perm") { q.k = 128; }
      q.m = 1449; q.n = 1449; q.kk = 1;
    }
    size_t nops = q.kind == "square" ? 1 : q.kind == "mul" || q.kind == "dot" ? 2 : 0;
    if (!big) {
      q.opds.resize(nops);
      for (size_t o = 0; o < nops; ++o) {
        int what = static_cast<int>(R(10));
        if (what < 3) { q.opds[o].mode = 1; continue; }
        if (what < 7 && !made.empty()) {
          // an earlier operand, if it fits
          auto id = R(made.size());
          auto& d = made[id];
          if (q.kind != "dot") {
            if (d.gf && q.kind == "square") continue;
            if (o == 1 && (q.opds[0].mode >= 1) && (d.k != q.k || d.gf != q.gf || d.r * d.c != q.size)) continue;
            q.opds[o] = {2, static_cast<int64_t>(id), 0, 0};
            q.k = d.k; q.gf = d.gf; q.size = d.r * d.c;
          } else {
            if (d.gf) continue;
            bool tr = Coin();
            int64_t r = tr ? d.c : d.r, c = tr ? d.r : d.c;
            if (o == 0) { q.m = r; q.kk = c; q.k = d.k; }
            else if (d.k != q.k || r != q.kk) continue;
            else q.n = c;
            q.opds[o] = {tr ? 3 : 2, static_cast<int64_t>(id), r, c};
          }
        }
      }
      for (size_t o = 0; o < nops; ++o)
        if (q.opds[o].mode == 1) {
          q.opds[o].id = static_cast<int64_t>(made.size());
          made.push_back({q.k, q.gf, q.kind == "dot" ? (o == 0 ? q.m : q.kk) : q.size, q.kind == "dot" ? (o == 0 ? q.kk : q.n) : 1});
        }
    }
    qs.push_back(q);
  }
  for (auto& q : qs) { q.out.resize(n); q.pi.resize(n); q.err.resize(n); }
  CutStream(big ? Pick(std::vector<int>{0, 4, 5}) : static_cast<int>(R(6)));
  yacl::shim::SetBaseSeed(rng());
  std::vector<std::thread> ts;
  for (size_t me = 0; me < n; ++me)
    ts.emplace_back([&, me] {
      yacl::shim::SetThreadParty(static_cast<int64_t>(me));
      size_t at = 0;
      try {
        std::vector<std::unique_ptr<Beaver>> bs;
        if (ttp) {
          BeaverTtp::Options o;
          o.server_host = "127.0.0.1:" + std::to_string(port);
          o.adjust_rank = adjust;
          o.asym_crypto_schema = "SM2";
          o.server_public_key = yacl::Buffer(std::string("PUB:k"));
          bs.push_back(std::make_unique<BeaverTtp>(links[me], o));
        } else {
          bs.push_back(std::make_unique<BeaverTfpUnsafe>(links[me]));
        }
        Descs ds;
        for (; at < qs.size(); ++at) {
          auto& q = qs[at];
          if (q.kind == "spawn") bs.push_back(bs[0]->Spawn());
          else Do(*bs[q.inst], q, ds, me);
        }
      } catch (const std::exception& e) {
        if (at < qs.size()) qs[at].err[me] = std::string("x") + e.what();
        yacl::link::shim::Close(links[me]);
      }
    });
  for (auto& t : ts) t.join();
  J("start").i("n", static_cast<int64_t>(n)).str("kind", ttp ? "ttp" : "tfp");
  for (auto& q : qs) {
    if (q.kind == "spawn") continue;
    Log(q);
    bool bad = false;
    for (auto& x : q.err) bad = bad || !x.empty();
    if (bad) break;  // the parties that failed made no further request
  }
}

// ---- products of secrets, operands cached or not
// a view is a list of steps applied to the base
struct Step { int what; int64_t a, b, c, d; };
static NdArrayRef View(NdArrayRef v, const std::vector<Step>& steps) {
  for (auto& s : steps) {
    if (s.what == 0) v = v.transpose();
    else if (s.what == 1) v = v.slice({s.a, s.b}, {s.c, s.d}, {});
    else if (s.what == 2) v = v.slice({0, 0}, {v.shape()[0], v.shape()[1]}, {s.a, s.b});
    else if (s.what == 3) v = v.reshape({v.shape()[1], v.shape()[0]});
  }
  return v;
}
static std::vector<Step> RSteps(int64_t r, int64_t c) {
  std::vector<Step> v;
  int cnt = static_cast<int>(R(3));
  for (int i = 0; i < cnt; ++i) {
    Step s{static_cast<int>(R(3)), 0, 0, 0, 0};
    if (s.what == 0) std::swap(r, c);
    if (s.what == 1) { s.a = RI(0, r - 1); s.c = RI(s.a + 1, r); s.b = RI(0, c - 1); s.d = RI(s.b + 1, c); r = s.c - s.a; c = s.d - s.b; }
    if (s.what == 2) { s.a = RI(1, 2); s.b = RI(1, 2); r = (r + s.a - 1) / s.a; c = (c + s.b - 1) / s.b; }
    v.push_back(s);
  }
  return v;
}
static void Cached(int64_t round) {
  NewCase();
  bool ttp = Coin();
  int k = Pick(std::vector<int>{32, 64, 128});
  auto field = FieldOf(k);
  auto proto = P("SEMI2K", static_cast<size_t>(RI(2, 3)));
  size_t n = proto.n;
  int port = 23000 + static_cast<int>(round % 1000);
  auto server = ttp ? Serve(port) : nullptr;
  CutStream(static_cast<int>(R(6)));
  auto w = MakeWorld(proto, field, [&](RuntimeConfig& c) {
    c.experimental_disable_vectorization = Coin();
    if (!ttp) return;
    c.beaver_type = RuntimeConfig::TrustedThirdParty;
    c.ttp_beaver_config = std::make_shared<spu::TTPBeaverConfig>("127.0.0.1:" + std::to_string(port), static_cast<int32_t>(R(n)), "SM2", "PUB:k", "http");
  });
  struct Base { int64_t r, c; std::vector<u128> v; };
  std::vector<Base> bases;
  auto fresh = [&] { Base b{RI(1, 4), RI(1, 4), {}}; b.v.resize(static_cast<size_t>(b.r * b.c)); for (auto& x : b.v) x = Val(k); return b; };
  for (int i = 0; i < 3; ++i) bases.push_back(fresh());
  auto initial = bases;
  struct Act { std::string kind; size_t x, y, ctx; std::vector<Step> vx, vy; bool on; Base nb; std::vector<u128> xs, ys; int64_t m, n, k; std::vector<std::vector<u128>> z; std::vector<std::string> err; };
  std::vector<Act> acts;
  auto plain = [&](const Base& b) {
    NdArrayRef a(spu::makeType<spu::RingTy>(field), {b.r, b.c});
    for (size_t i = 0; i < b.v.size(); ++i) memcpy(a.data<u8>() + i * static_cast<size_t>(k / 8), &b.v[i], static_cast<size_t>(k / 8));
    return a;
  };
  std::vector<std::pair<size_t, std::vector<Step>>> used;  // views seen before come back often
  std::vector<bool> on(3, false);
  int len = static_cast<int>(RI(8, 16));
  for (int tries = 0; static_cast<int>(acts.size()) < len && tries < 400; ++tries) {
    Act a{};
    a.ctx = Coin(20);
    int what = static_cast<int>(R(12));
    if (what < 2) { a.kind = "cache"; a.x = R(3); a.on = Coin(75); on[a.x] = a.on; acts.push_back(a); continue; }
    if (what == 2) {  // the tensor goes away; its cache goes first
      a.kind = "renew"; a.x = R(3); a.nb = fresh(); bases[a.x] = a.nb;
      a.on = on[a.x];
      on[a.x] = false;
      used.erase(std::remove_if(used.begin(), used.end(), [&](auto& u) { return u.first == a.x; }), used.end());
      acts.push_back(a);
      continue;
    }
    auto view = [&](size_t& which, std::vector<Step>& st) {
      if (!used.empty() && Coin(60)) {
        auto& u = Pick(used);
        which = u.first; st = u.second;
        if (Coin(30)) st.push_back({0, 0, 0, 0, 0});
      } else { which = R(3); st = RSteps(bases[which].r, bases[which].c); }
      return View(plain(bases[which]), st);
    };
    auto x = view(a.x, a.vx);
    auto y = view(a.y, a.vy);
    if (what < 5) { a.kind = "square"; }
    else if (x.shape() == y.shape() && Coin(70)) a.kind = "mul";
    else if (x.shape()[1] == y.shape()[0]) a.kind = "mmul";
    else { continue; }
    a.xs = ToWords(x); a.ys = ToWords(y);
    a.m = x.shape()[0]; a.k = x.shape()[1]; a.n = y.shape()[1];
    used.emplace_back(a.x, a.vx);
    if (a.kind != "square") used.emplace_back(a.y, a.vy);
    acts.push_back(a);
  }
  for (auto& a : acts) { a.z.resize(n); a.err.resize(n); }
  w->Run([&](size_t me, SPUContext* ctx) {
    auto child = ctx->fork();
    auto secret = [&](const Base& b) { return spu::mpc::p2s(ctx, Pub(ctx, b.v, {b.r, b.c})); };
    std::vector<Value> vs;
    for (auto& b : initial) vs.push_back(secret(b));
    for (auto& a : acts) {
      auto* c = a.ctx ? child.get() : ctx;
      try {
        if (a.kind == "cache") { spu::dynDispatch(c, "beaver_cache", vs[a.x], a.on); continue; }
        if (a.kind == "renew") {
          if (a.on) spu::dynDispatch(c, "beaver_cache", vs[a.x], false);
          vs[a.x] = Value();
          vs[a.x] = secret(a.nb);
          continue;
        }
        Value x(View(vs[a.x].data(), a.vx), spu::DT_INVALID), y(View(vs[a.y].data(), a.vy), spu::DT_INVALID);
        Value z = a.kind == "square" ? spu::dynDispatch(c, "square_a", x) : a.kind == "mul" ? spu::dynDispatch(c, "mul_aa", x, y) : spu::dynDispatch(c, "mmul_aa", x, y);
        a.z[me] = ToWords(spu::dynDispatch(c, "a2p", z).data());
      } catch (const std::exception& e) { a.err[me] = std::string("x") + e.what(); throw; }
    }
  });
  J("start").i("n", static_cast<int64_t>(n)).str("kind", ttp ? "ttp" : "tfp");
  for (auto& a : acts) {
    bool ok = true;
    for (auto& x : a.err) ok = ok && x.empty();
    if (ok && (a.kind == "cache" || a.kind == "renew")) continue;
    J e("arith");
    e.str("kind", a.kind).b("ok", ok).i("es", k / 8).i("m", a.m).i("n", a.n).i("k", a.k);
    e.raw("x", WList(a.xs, static_cast<size_t>(k / 8))).raw("y", WList(a.ys, static_cast<size_t>(k / 8)));
    e.list("z", a.z, [&](const std::vector<u128>& v) { return WList(v, static_cast<size_t>(k / 8)); });
    if (!ok) { std::string why; for (auto& x : a.err) if (!x.empty()) why = x; e.str("err", why.substr(0, 150)); }
    if (!ok) break;
  }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = argc > 3 ? atoll(argv[3]) : 4;
  int64_t big = argc > 4 ? atoll(argv[4]) : 0, first = argc > 5 ? atoll(argv[5]) : 0;
  for (int64_t i = 0; i < 25 * scale; ++i) History(i % 2 == 0, false, i);
  for (int64_t i = 0; i < 8 * scale; ++i) Cached(i);
  for (int64_t i = 0; i < big; ++i) History(true, true, first + i);
  Close();
}
