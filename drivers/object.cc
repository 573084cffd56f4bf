// Histories of calls on dynamic objects and contexts.
#include "mpc.h"
#include "libspu/core/object.h"
using namespace drv;
using spu::Kernel; using spu::KernelEvalContext; using spu::Object; using spu::State;
static int next_k = 1;
static thread_local int ran = 0;
static thread_local std::vector<std::string> got;
struct Ker : Kernel {
  int id = next_k++;
  std::string sig;  // types of the parameters to read back
  void evaluate(KernelEvalContext* c) const override {
    ran = id; got.clear();
    for (size_t i = 0; i < c->numParams(); ++i) {
      switch (cur[i]) {
        case 'u': got.push_back("u" + std::to_string(c->getParam<size_t>(i))); break;
        case 'i': got.push_back("i" + std::to_string(c->getParam<int64_t>(i))); break;
        case 'b': got.push_back(c->getParam<bool>(i) ? "b1" : "b0"); break;
        case 's': { std::string s = "s"; for (auto d : c->getParam<Shape>(i)) s += std::to_string(d) + ","; got.push_back(s); break; }
        case 'w': { auto v = c->getParam<unsigned __int128>(i); got.push_back("w" + std::to_string(static_cast<u64>(v >> 64)) + "." + std::to_string(static_cast<u64>(v))); break; }
        case 'z': { std::string s = "z"; for (auto d : c->getParam<Sizes>(i)) s += std::to_string(d) + ","; got.push_back(s); break; }
      }
    }
    c->pushOutput(static_cast<int64_t>(id));
  }
  static thread_local std::string cur;
};
thread_local std::string Ker::cur;
struct KerX : Ker { static const char* kBindName() { return "x"; } };
struct KerY : Ker { static const char* kBindName() { return "y"; } };
struct KerZ : Ker { static const char* kBindName() { return "y2"; } };
struct St : State {
  int64_t v; bool low, forks;
  St(int64_t v, bool l, bool f) : v(v), low(l), forks(f) {}
  bool hasLowCostFork() const override { return low; }
};
#define STATE(N) struct St##N : St { using St::St; static const char* kBindName() { return #N; } \
  std::unique_ptr<State> fork() override { if (!forks) return State::fork(); return std::make_unique<St##N>(v, low, forks); } };
STATE(A) STATE(B) STATE(C)
static const std::vector<std::string> kNames = {"x", "y", "y2", "add_aa", "add_a", "", "mul", "mul_aa_with_a_long_name"};
static std::unique_ptr<State> MkState(const std::string& t, int64_t v, bool l, bool f) {
  if (t == "A") return std::make_unique<StA>(v, l, f);
  if (t == "B") return std::make_unique<StB>(v, l, f);
  return std::make_unique<StC>(v, l, f);
}
static std::string KJ(const std::vector<std::pair<std::string, int>>& ks) {
  std::string s = "[";
  for (auto& k : ks) s += (s.size() > 1 ? "," : "") + std::string("{\"n\":") + J::esc(k.first) + ",\"k\":" + std::to_string(k.second) + "}";
  return s + "]";
}
template <class F> static bool Threw(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template <class S> static void Use(Object* o, int oi, const char* t) {
  int64_t d = RI(1, 9), v = 0; bool null = false;
  bool th = Threw([&] { S* s = o->getState<S>(); if (!s) { null = true; return; } v = s->v; s->v += d; });
  J("use").i("o", oi).str("t", t).b("threw", th).b("null", null).i("v", v).i("d", d);
}
int main(int argc, char** argv) {
  Open(argc, argv);
  int n = argc > 3 ? atoi(argv[3]) : 200;
  for (int it = 0; it < n; ++it) {
    NewCase();
    // every second history drives the object of a context, so that dispatching is covered too
    spu::RuntimeConfig conf; conf.protocol = spu::ProtocolKind::REF2K; conf.field = spu::FieldType::FM64;
    spu::SPUContext sctx(conf, nullptr);
    std::vector<std::unique_ptr<Object>> own; std::vector<Object*> objs;
    bool withctx = it % 2 == 0;
    if (withctx) { objs.push_back(sctx.prot()); J("new").i("o", 1).str("want", "root").str("wantp", "").str("id", sctx.id()).str("pid", sctx.pid()); }
    int roots = 0, steps = static_cast<int>(RI(5, 60));
    for (int s = 0; s < steps; ++s) {
      if (objs.empty() || (Coin(3) && roots < 3)) {
        std::string id = "r" + std::to_string(++roots) + "x", pid = Coin() ? "" : "p";
        own.push_back(pid.empty() && Coin() ? std::make_unique<Object>(id) : std::make_unique<Object>(id, pid));
        objs.push_back(own.back().get());
        J("new").i("o", static_cast<int64_t>(objs.size())).str("want", id).str("wantp", pid).str("id", objs.back()->id()).str("pid", objs.back()->pid());
        continue;
      }
      int oi = static_cast<int>(R(objs.size())); if (Coin(40)) oi = static_cast<int>(objs.size()) - 1;
      Object* o = objs[oi]; ++oi;
      auto name = Pick(kNames);
      switch (R(12)) {
        case 0: case 1: {
          auto k = std::make_unique<Ker>(); int id = k->id;
          bool th = Threw([&] { o->regKernel(name, std::move(k)); });
          J("reg").i("o", oi).raw("ks", KJ({{name, id}})).b("threw", th);
          break;
        }
        case 2: {
          int base = next_k;
          if (Coin()) {
            int m = static_cast<int>(R(3)); bool th; std::vector<std::pair<std::string, int>> ks;
            if (m == 0) { th = Threw([&] { o->regKernel<KerX>(); }); ks = {{"x", base}}; }
            else if (m == 1) { th = Threw([&] { o->regKernel<KerX>(name); }); ks = {{name, base}}; }
            else { th = Threw([&] { o->regKernel<KerZ>(); }); ks = {{"y2", base}}; }
            J("reg").i("o", oi).raw("ks", KJ(ks)).b("threw", th);
          } else if (!o->hasKernel("x") && !o->hasKernel("y") && !o->hasKernel("y2")) {
            bool th = Threw([&] { o->regKernel<KerX, KerY, KerZ>(); });
            J("reg").i("o", oi).raw("ks", KJ({{"x", base}, {"y", base + 1}, {"y2", base + 2}})).b("threw", th);
          }
          break;
        }
        case 3: { int id = 0; bool th = Threw([&] { id = dynamic_cast<Ker*>(o->getKernel(name))->id; }); J("get").i("o", oi).str("n", name).b("threw", th).i("k", id); break; }
        case 4: J("has").i("o", oi).str("n", name).b("r", o->hasKernel(name)); break;
        case 5: J("names").i("o", oi).strs("ns", o->getKernelNames()); break;
        case 6: {
          auto t = Pick(std::vector<std::string>{"A", "B", "C"}); auto as = Coin(85) ? t : Pick(std::vector<std::string>{"A", "B", "C", "other"});
          bool low = Coin(80), forks = Coin(93); int64_t v = RI(0, 1000);
          bool th;
          if (as == t && Coin()) th = Threw([&] { if (t == "A") o->addState<StA>(v, low, forks); else if (t == "B") o->addState<StB>(v, low, forks); else o->addState<StC>(v, low, forks); });
          else th = Threw([&] { o->addState(as, MkState(t, v, low, forks)); });
          J("add").i("o", oi).str("n", as).str("t", t).i("v", v).b("low", low).b("forks", forks).b("threw", th);
          break;
        }
        case 7: case 8: { int k = static_cast<int>(R(3)); if (k == 0) Use<StA>(o, oi, "A"); else if (k == 1) Use<StB>(o, oi, "B"); else Use<StC>(o, oi, "C"); break; }
        case 9: J("low").i("o", oi).b("r", o->hasLowCostFork()); break;
        case 10: {
          if (objs.size() > 12) break;
          std::unique_ptr<Object> f; bool th = Threw([&] { f = o->fork(); });
          if (!th) { own.push_back(std::move(f)); objs.push_back(own.back().get()); }
          J("fork").i("o", oi).b("threw", th).i("new", static_cast<int64_t>(objs.size())).str("id", th ? "" : objs.back()->id()).str("pid", th ? "" : objs.back()->pid());
          break;
        }
        case 11: {
          if (!withctx) break;
          std::vector<std::string> args; int64_t k = 0; bool th = false; got.clear();
          size_t u = R(1000); int64_t i = RI(-1000, 1000); bool b = Coin(); Shape sh = RShape(); unsigned __int128 w = R128(); Sizes z{RI(0, 9), RI(0, 9)};
          std::string su = "u" + std::to_string(u), si = "i" + std::to_string(i), sb = b ? "b1" : "b0", ss = "s", sz = "z";
          for (auto d : sh) ss += std::to_string(d) + ",";
          for (auto d : z) sz += std::to_string(d) + ",";
          std::string sw = "w" + std::to_string(static_cast<u64>(w >> 64)) + "." + std::to_string(static_cast<u64>(w));
          switch (R(4)) {
            case 0: Ker::cur = "u"; args = {su}; th = Threw([&] { k = spu::dynDispatch<int64_t>(&sctx, name, u); }); break;
            case 1: Ker::cur = "ibs"; args = {si, sb, ss}; th = Threw([&] { k = spu::dynDispatch<int64_t>(&sctx, name, i, b, sh); }); break;
            case 2: Ker::cur = "sui"; args = {ss, su, si}; th = Threw([&] { k = spu::dynDispatch<int64_t>(&sctx, name, sh, u, i); }); break;
            default: Ker::cur = "wzbu"; args = {sw, sz, sb, su}; th = Threw([&] { k = spu::dynDispatch<int64_t>(&sctx, name, w, z, b, u); });
          }
          J("dispatch").i("o", 1).str("n", name).b("threw", th).i("k", k).strs("args", args).strs("got", got);
          break;
        }
      }
    }
  }
  // contexts of real protocols
  for (auto& p : Protos()) {
    if (p.kind < 0) continue;  // its state refuses to be forked
    auto w = MakeWorld(p, p.kind == spu::ProtocolKind::SWIFT || Coin() ? spu::FM64 : spu::FM128, [](spu::RuntimeConfig& c) { c.fxp_fraction_bits = RI(1, 30); c.sigmoid_mode = spu::RuntimeConfig::SIGMOID_MM1; c.max_concurrency = 3; c.public_random_seed = rng(); });
    std::vector<std::vector<std::string>> ev(w->n());
    NewCase();
    std::vector<std::unique_ptr<spu::SPUContext>> keep[3];
    for (auto& k : keep) k.resize(w->n());
    std::vector<std::string> lines(w->n());
    bool ok = w->Run([&](size_t r, spu::SPUContext* c) {
      auto* cur = c;
      for (int d = 0; d < 3; ++d) {
        auto f = (d == 1 ? c : cur)->fork(); auto* src = d == 1 ? c : cur;
        J j("ctxfork"); j.live = false;
        j.i("r", static_cast<int64_t>(r)).str("id0", src->id()).str("id", f->id()).str("pid", f->pid()).str("cfg0", src->config().SerializeAsString()).str("cfg", f->config().SerializeAsString())
            .strs("names0", src->prot()->getKernelNames()).strs("names", f->prot()->getKernelNames()).str("link0", src->lctx()->Id()).str("link", f->lctx()->Id());
        lines[r] += j.s + "}\n";
        keep[d][r] = std::move(f); cur = keep[d][r].get();
      }
    });
    if (!ok) { J("fork-failed").str("proto", p.name).strs("err", w->err); }
    for (auto& s : lines) fwrite(s.data(), 1, s.size(), out_file);
  }
  Close();
}
