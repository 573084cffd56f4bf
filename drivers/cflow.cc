// Control flow on public and secret predicates, nested (C19).
#include "mpc.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hlo/control_flow.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using VV = std::vector<Value>;

struct Node {  // a random program; every one maps a list of vectors to a list of vectors of the same shapes
  enum Kind { kAdd, kMix, kIf, kCase, kWhile } kind = kAdd;
  std::vector<int64_t> cst;
  bool secret = false;
  char form = 'A';
  std::vector<int64_t> pred;
  int64_t index = 0;
  int64_t lo = 0, hi = 0, step = 1;
  bool bad = false;
  std::vector<std::unique_ptr<Node>> kids;
};
using NodeP = std::unique_ptr<Node>;
struct Ctx {
  SPUContext* c;
  spu::DataType dt;
  std::vector<std::string>* log;
  int64_t n;
};
static NodeP Gen(int depth, int64_t n, bool in_secret, bool case_ok, const std::vector<bool>& big) {
  auto p = std::make_unique<Node>();
  int k = depth <= 0 ? static_cast<int>(R(2)) : static_cast<int>(R(5));
  p->kind = static_cast<Node::Kind>(k);
  p->cst = {RI(-9, 9), RI(-9, 9)};
  p->secret = Coin();
  p->form = "AB"[R(2)];
  switch (p->kind) {
    case Node::kIf:
      for (int64_t i = 0; i < n; ++i) p->pred.push_back(static_cast<int64_t>(R(2)));
      for (int i = 0; i < 2; ++i) p->kids.push_back(Gen(depth - 1, n, in_secret, case_ok, big));
      break;
    case Node::kCase: {
      int64_t b = RI(1, 4);
      p->index = Coin(30) ? Pick(std::vector<int64_t>{-1, -2, -2147483647LL - 1, 2147483647, b, b + 1}) : RI(0, b - 1);
      if (p->secret) p->index = std::clamp<int64_t>(p->index, -(1 << 20), 1 << 20);
      for (int64_t i = 0; i < b; ++i) p->kids.push_back(Gen(depth - 1, n, in_secret, case_ok, big));
      break;
    }
    case Node::kWhile:
      p->lo = RI(0, 3); p->hi = RI(0, 5); p->step = RI(1, 2);
      p->bad = Coin(6);
      p->kids.push_back(Gen(depth - 1, n, in_secret, case_ok, big));
      break;
    default: break;
  }
  return p;
}
static std::vector<int64_t> Look(Ctx& x, const Value& v) {
  auto o = v.isPublic() ? v : v.isPrivate() ? m::v2p(x.c, v) : m::s2p(x.c, v);
  std::vector<int64_t> r;
  size_t es = spu::SizeOf(x.c->getField());
  for (auto w : ToWords(o.data())) {
    if (es < 16) { int sh = static_cast<int>(128 - es * 8); r.push_back(static_cast<int64_t>(static_cast<i128>(w << sh) >> sh)); }
    else r.push_back(static_cast<int64_t>(static_cast<i128>(w)));
  }
  for (auto& y : r) if (y > 2000000000 || y < -2000000000) y = 2000000000;
  return r;
}
static std::string List(const std::vector<int64_t>& v) { std::string s = "["; for (auto i : v) { if (s.size() > 1) s += ','; s += std::to_string(i); } return s + "]"; }
static std::string Lists(Ctx& x, absl::Span<const Value> vs) {
  std::string s = "[";
  for (auto& v : vs) { if (s.size() > 1) s += ','; s += List(Look(x, v)); }
  return s + "]";
}
static Value Num(Ctx& x, const std::vector<int64_t>& v, const Shape& sh, spu::DataType dt, bool secret, char form) {
  std::vector<u128> w;
  for (auto i : v) { u128 t = static_cast<u128>(static_cast<i128>(i)); if (spu::SizeOf(x.c->getField()) < 16) t &= (u128(1) << (8 * spu::SizeOf(x.c->getField()))) - 1; w.push_back(t); }
  auto y = Pub(x.c, w, sh);
  if (secret) { y = m::p2s(x.c, y); if (form == 'B') y = hal::_prefer_b(x.c, y); }
  return y.setDtype(dt, true);
}
static void Log(Ctx& x, const std::string& s) { x.log->push_back(s); }

static VV Run(Ctx& x, const Node& p, const VV& in) {
  switch (p.kind) {
    case Node::kAdd: {
      VV r;
      for (size_t i = 0; i < in.size(); ++i) r.push_back(hal::add(x.c, in[i], Num(x, std::vector<int64_t>(static_cast<size_t>(x.n), p.cst[i % 2]), in[i].shape(), x.dt, false, 'A')));
      Log(x, "\"op\":\"add\",\"cst\":" + List(p.cst));
      return r;
    }
    case Node::kMix: {
      Log(x, "\"op\":\"mix\"");
      return {hal::sub(x.c, in[1], in[0]), in[0]};
    }
    case Node::kIf: {
      Log(x, std::string("\"op\":\"if\",\"sec\":") + (p.secret ? "true" : "false") + ",\"pred\":" + List(p.secret ? p.pred : std::vector<int64_t>{p.pred[0]}));
      auto pred = p.secret ? Num(x, p.pred, in[0].shape(), spu::DT_I1, true, p.form) : Num(x, {p.pred[0]}, {}, spu::DT_I1, false, 'A');
      auto branch = [&](int64_t i) {
        return [&, i] {
          Log(x, "\"op\":\"enter\",\"i\":" + std::to_string(i));
          auto r = Run(x, *p.kids[static_cast<size_t>(i)], in);
          Log(x, "\"op\":\"leave\",\"i\":" + std::to_string(i) + ",\"out\":" + Lists(x, r));
          return r;
        };
      };
      auto r = hlo::IfElse(x.c, pred, branch(1), branch(0));
      Log(x, "\"op\":\"end\",\"out\":" + Lists(x, r));
      return r;
    }
    case Node::kCase: {
      Log(x, std::string("\"op\":\"case\",\"sec\":") + (p.secret ? "true" : "false") + ",\"idx\":" + std::to_string(p.index) + ",\"n\":" + std::to_string(p.kids.size()));
      auto idx = Num(x, {p.index}, {}, spu::DT_I32, p.secret, p.form);
      std::vector<hlo::BranchFcnT> bs;
      for (size_t i = 0; i < p.kids.size(); ++i)
        bs.emplace_back([&, i] {
          Log(x, "\"op\":\"enter\",\"i\":" + std::to_string(i));
          auto r = Run(x, *p.kids[i], in);
          Log(x, "\"op\":\"leave\",\"i\":" + std::to_string(i) + ",\"out\":" + Lists(x, r));
          return r;
        });
      auto r = hlo::Case(x.c, idx, bs);
      Log(x, "\"op\":\"end\",\"out\":" + Lists(x, r));
      return r;
    }
    case Node::kWhile: {
      VV a = in;
      a.push_back(Num(x, {p.lo}, {}, spu::DT_I32, false, 'A'));
      Log(x, "\"op\":\"while\",\"bad\":" + std::string(p.bad ? "true" : "false") + ",\"hi\":" + std::to_string(p.hi) + ",\"step\":" + std::to_string(p.step) + ",\"in\":" + Lists(x, a));
      VV r;
      try {
        r = hlo::While(
            x.c, a,
            [&](absl::Span<const Value> v) {
              auto c = hal::less(x.c, v[2], Num(x, {p.hi}, {}, spu::DT_I32, p.bad, 'A'));
              Log(x, "\"op\":\"cond\",\"in\":" + Lists(x, v) + ",\"res\":" + std::to_string(Look(x, c)[0]));
              return c;
            },
            [&](absl::Span<const Value> v) {
              Log(x, "\"op\":\"body\",\"in\":" + Lists(x, v));
              auto q = Run(x, *p.kids[0], {v[0], v[1]});
              q.push_back(hal::add(x.c, v[2], Num(x, {p.step}, {}, spu::DT_I32, false, 'A')));
              Log(x, "\"op\":\"leave\",\"i\":0,\"out\":" + Lists(x, q));
              return q;
            });
      } catch (const std::exception& e) {
        if (!p.bad || std::string(e.what()).find("peer stopped") != std::string::npos) throw;
        Log(x, "\"op\":\"refused\"");
        return in;
      }
      Log(x, "\"op\":\"end\",\"out\":" + Lists(x, r));
      return {r[0], r[1]};
    }
  }
  return in;
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = argc > 3 ? std::atoll(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  reseed_each = true;
  for (char ch : only) rng.seed(rng() + static_cast<u64>(ch));
  for (int64_t s = 0; s < scale; ++s)
    for (auto& p : Protos()) {
      if (p.kind < 0 || (!only.empty() && only != p.name + std::to_string(p.n))) continue;
      for (int k : {32, 64, 128}) {
        if (k == 128 && std::string(p.name) == "SWIFT") continue;
        auto w = MakeWorld(p, FieldOf(k));
        for (int i = 0; i < 4; ++i) {
          int64_t n = Coin(80) ? RI(1, 3) : 0;
          if (n == 0) n = 1;
          auto prog = Gen(3, n, false, true, {});
          auto dt = Pick(std::vector<spu::DataType>{spu::DT_I32, spu::DT_I16, spu::DT_F32});
          std::vector<std::vector<int64_t>> ins(2);
          for (auto& v : ins) for (int64_t j = 0; j < n; ++j) v.push_back(RI(-20, 20));
          bool sec = Coin(70);
          std::vector<std::vector<std::string>> logs(w->n());
          bool ok = w->Run([&](size_t r, SPUContext* c) {
            Ctx x{c, dt, &logs[r], n};
            VV in;
            for (auto& v : ins) in.push_back(Num(x, v, {n}, dt, sec, 'A'));
            Log(x, "\"op\":\"start\",\"in\":" + Lists(x, in));
            auto out = Run(x, *prog, in);
            Log(x, "\"op\":\"stop\",\"out\":" + Lists(x, out));
          });
          NewCase();
          bool same = true;
          for (auto& l : logs) same = same && l == logs[0];
          for (auto& l : logs[0]) { std::string t = "{\"c\":" + std::to_string(case_no) + "," + l + "}\n"; fwrite(t.data(), 1, t.size(), out_file); }
          std::string err;
          for (auto& e : w->err) if (!e.empty() && e.find("peer stopped") == std::string::npos) err = e;
          J("result").b("ok", ok).b("same", same).str("p", p.name).i("k", k).str("err", err.substr(0, 200));
          if (!ok) { fprintf(stderr, "%s %d: %s\n", p.name, k, err.substr(0, 300).c_str()); w = MakeWorld(p, FieldOf(k)); }
        }
      }
    }
  Close();
}
