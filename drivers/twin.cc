// One operation after another on three copies of a world of parties: A and B hold different
// secrets, C holds the secrets of A and is delayed and parallelised differently (C05).
#include <chrono>

#include "catalog.h"

struct Msg { int dir; size_t peer, bytes; };
struct Trace { std::vector<std::map<std::string, std::vector<Msg>>> by; std::unique_ptr<std::mutex[]> mu; std::vector<size_t> n; };  // by party and link

struct Twin : Cat {
  std::unique_ptr<World> w[3];
  bool dead = false, big = false, exact = true;  // exact: rounding of truncations is the same in both schedules
  Twin(const Proto& p_, int k_, const std::function<void(RuntimeConfig&)>& tweak) {
    p = p_; k = k_;
    yacl::shim::SetBaseSeed(rng());
    auto id = "t" + std::to_string(++world_no);
    for (auto& x : w) x = MakeWorldL(p, FieldOf(k), yacl::link::shim::MakeWorld(id, p.n), tweak);
    NewCase();
  }
  bool Has(const char* kn) override { return w[0]->ctx[0]->hasKernel(kn); }
  void Do(const char* f, const std::vector<In>& in, const Fn& fn, bool twin = true) override {
    if (dead) return;
    Trace tr[3];
    std::vector<VV> out[3], op[3];
    bool ok[3];
    size_t und[3];
    std::string err;
    u64 salt = rng();
    for (int x = 0; x < 3; ++x) {
      auto& W = *w[x];
      std::vector<VV> arg(W.n());
      tr[x].by.resize(W.n()); tr[x].mu.reset(new std::mutex[W.n()]); tr[x].n.assign(W.n(), 0);
      out[x].resize(W.n()); op[x].resize(W.n());
      ok[x] = W.Run([&](size_t r, SPUContext* c) {
        for (auto& i : in) {
          auto v = Pub(c, x == 1 ? i.b : i.a, i.sh);
          if (i.kind == 'V') v = m::p2v(c, v, i.owner);
          if (i.kind == 'S' || i.kind == 'B') v = m::p2s(c, v);
          if (i.kind == 'B') v = hal::_prefer_b(c, v);
          if (i.kind == 'B' && i.width > 0) v = hal::_and(c, v, hal::_constant(c, (u128(1) << i.width) - 1, i.sh));  // a narrow sharing
          arg[r].push_back(v.setDtype(i.dt, true));
        }
      });
      if (x == 2) {
        static const std::vector<yacl::shim::ParMode> ms = {yacl::shim::ParMode::kThreads, yacl::shim::ParMode::kThreads, yacl::shim::ParMode::kChunkedShuffled, yacl::shim::ParMode::kChunkedReverse};
        if (big) yacl::shim::SetParMode(yacl::shim::ParMode::kThreads, static_cast<int64_t>(RI(60, 200)), salt);
        else yacl::shim::SetParMode(Pick(ms), static_cast<int64_t>(RI(1, 6)), salt);
      }
      yacl::link::shim::SetTraceHook([&tr, x, salt](bool send, const std::string& ctx, size_t me, size_t peer, size_t bytes) {
        auto& t = tr[x];
        size_t nth;
        {
          std::lock_guard<std::mutex> l(t.mu[me]);
          t.by[me][ctx].push_back({send ? 0 : 1, peer, bytes});
          nth = ++t.n[me];
        }
        if (x == 2) {
          u64 h = (salt + nth * 0x9E3779B97F4A7C15ULL + me * 77777) * 0xD1342543DE82EF95ULL;
          if ((h >> 40) % 6 == 0 && nth < 400) std::this_thread::sleep_for(std::chrono::microseconds((h >> 20) % 300));
        }
      });
      if (ok[x]) ok[x] = W.Run([&](size_t r, SPUContext* c) { out[x][r] = fn(c, arg[r]); });
      yacl::link::shim::SetTraceHook(nullptr);
      und[x] = yacl::link::shim::Undelivered(W.links[0]);
      yacl::shim::SetParMode(yacl::shim::ParMode::kSequential, 1, 0);
      for (auto& e : W.err) if (!e.empty() && e.find("peer stopped") == std::string::npos) err = e;
      if (ok[x] && x != 1) ok[x] = W.Run([&](size_t r, SPUContext* c) {
        for (auto& v : out[x][r]) op[x][r].push_back(v.isPublic() ? v : v.isPrivate() ? m::v2p(c, v) : m::s2p(c, v));
      });
    }
    J e("run");
    e.str("f", f).str("proto", p.name).i("k", k).b("twin", twin).b("exact", exact);
    e.raw("ok", std::string("[") + (ok[0] ? "true," : "false,") + (ok[1] ? "true," : "false,") + (ok[2] ? "true]" : "false]"));
    e.raw("und", "[" + std::to_string(und[0]) + "," + std::to_string(und[1]) + "," + std::to_string(und[2]) + "]");
    if (!ok[0] || !ok[1] || !ok[2]) { e.str("err", err.substr(0, 300)); dead = true; fprintf(stderr, "%s %s %d: %s\n", f, p.name, k, err.substr(0, 200).c_str()); return; }
    auto each = [&](const std::function<std::string(int, size_t)>& g, const std::vector<int>& ws) {
      return "[" + [&] { std::string s; for (int x : ws) { if (x) s += ','; s += '['; for (size_t r = 0; r < p.n; ++r) { if (r) s += ','; s += g(x, r); } s += ']'; } return s; }() + "]";
    };
    e.raw("s", each([&](int x, size_t r) {
      std::string s = "[";
      for (auto& [l, qs] : tr[x].by[r]) {
        s += (s.size() > 1 ? ",[" : "[") + J::esc(l);
        for (auto& q : qs) s += ",[" + std::to_string(q.dir) + "," + std::to_string(q.peer + 1) + "," + std::to_string(q.bytes) + "]";
        s += "]";
      }
      return s + "]"; }, {0, 1, 2}));
    e.raw("ty", each([&](int x, size_t r) {
      std::string s = "[";
      for (auto& v : out[x][r]) { if (s.size() > 1) s += ','; s += J::esc(v.storage_type().toString() + " " + fmt::format("{}", fmt::join(v.shape(), "x")) + " " + std::to_string(static_cast<int>(v.dtype()))); }
      return s + "]"; }, {0, 1, 2}));
    e.raw("open", each([&](int x, size_t r) {
      std::string s = "[";
      for (auto& v : op[x][r]) { if (s.size() > 1) s += ','; s += big ? J::esc(std::to_string(std::hash<std::string>{}(Elems(v.data())))) : Elems(v.data()); }
      return s + "]"; }, {0, 2}));
  }
};

int main(int argc, char** argv) {
  Open(argc, argv);
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  yacl::link::shim::SetRecvTimeoutMs(20000);
  for (int s = 0; s < scale; ++s)
    for (auto& p : Protos())
      for (int k : {32, 64, 128}) {
        std::string nm = p.name;
        if (p.kind < 0 || (!only.empty() && only != nm)) continue;
        if (k == 128 && nm == "SWIFT") continue;
        SetCat(p, k);
        bool err = Coin(), par = Coin(30);
        auto mk = [&] { return std::make_unique<Twin>(p, k, [&](RuntimeConfig& c) {
          c.trunc_allow_msb_error = err; c.experimental_enable_intra_op_par = par; c.sort_method = static_cast<RuntimeConfig::SortMethod>(0); c.quick_sort_threshold = 3; }); };
        auto t = mk();
        static const std::vector<Shape> shs = {{}, {1}, {3}, {2, 2}, {5}, {3, 1}, {2, 1, 2}};
        t->exact = !par;
        int ops = nm == "SEMI2K" || nm == "ABY3" || nm == "SECURENN" ? 55 : 25;
        for (int i = 0; i < ops; ++i) {
          auto sh = Pick(shs);
          if (Coin(55) || nm == "SWIFT") RingOp(*t, sh); else TypedOp(*t, Shape{RI(1, 3)});
          if (t->dead) { t = mk(); t->exact = !par; }
        }
        // long arrays, cut in a few pieces that really run at the same time
        t->big = true;
        int bigs = nm == "ABY3" ? 30 : nm == "SEMI2K" ? 12 : nm == "SWIFT" ? 1 : 5;
        for (int i = 0; i < bigs && !t->dead; ++i) RingOp(*t, Shape{nm == "SWIFT" ? 100 : RI(300, 900)});
      }
  Close();
}
