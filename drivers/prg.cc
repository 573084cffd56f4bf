// Histories of draws from the shared random streams, and whole programs with every use of a
// stream logged by the generator itself (C04).
#include "catalog.h"

#include "libspu/mpc/utils/permute.h"

using spu::mpc::PrgState;
using Ctrl = PrgState::GenPrssCtrl;

// ---- the log of the generator -----------------------------------------------------------------
struct Log {
  std::mutex mu;
  std::map<std::pair<u128, u64>, size_t> ids;                        // stream = (seed, iv)
  std::vector<std::map<size_t, std::vector<std::pair<u64, u64>>>> by;  // party -> stream -> (first block, blocks)
  void Reset(size_t n) { by.assign(n, {}); seq.assign(n, {}); }
  std::vector<std::vector<size_t>> seq;
  void Start(size_t n) {
    ids.clear(); Reset(n);
    yacl::shim::SetPrgHook([this](const yacl::shim::PrgCall& c, uint8_t*) {
      if (c.party < 0 || static_cast<size_t>(c.party) >= by.size()) return;
      std::lock_guard<std::mutex> l(mu);
      auto id = ids.emplace(std::make_pair(c.seed, c.iv), ids.size() + 1).first->second;
      by[c.party][id].push_back({c.count, (c.nbytes + 15) / 16});
      seq[c.party].push_back(id);
    });
  }
  // Draws that follow one another without a gap count as one, unless there are others among them.
  static std::vector<std::pair<u64, u64>> Merge(const std::vector<std::pair<u64, u64>>& v) {
    std::vector<std::pair<u64, u64>> r;
    u64 end = 0;
    for (auto& c : v) {
      if (c.second == 0) continue;
      if (c.first < end) return v;
      if (!r.empty() && c.first == end) r.back().second += c.second; else r.push_back(c);
      end = c.first + c.second;
    }
    return r;
  }
  // ids depend on the order in which the threads come: fine, they are only names
  std::string Str() {
    std::string s = "[";
    for (auto& b : by) {
      if (s.size() > 1) s += ',';
      s += '[';
      bool first = true;
      for (auto& [id, cs0] : b) {
        auto cs = Merge(cs0);
        s += (first ? "[" : ",[") + std::to_string(id) + ",["; first = false;
        for (size_t i = 0; i < cs.size(); ++i) s += (i ? ",[" : "[") + std::to_string(cs[i].first) + "," + std::to_string(cs[i].second) + "]";
        s += "]]";
      }
      s += ']';
    }
    Reset(by.size());
    return s + "]";
  }
};
static Log lg;
static std::string Ints(const std::vector<size_t>& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }
template <class F> std::string Per(size_t n, const F& f) { std::string s = "["; for (size_t r = 0; r < n; ++r) { if (r) s += ','; s += f(r); } return s + "]"; }
static std::string B(const std::string& raw) { return Bytes(raw.data(), raw.size()); }
static std::string Raw(const NdArrayRef& a) { std::string s; for (int64_t i = 0; i < Numel(a); ++i) s.append(reinterpret_cast<const char*>(ElemPtr(a, i)), a.elsize()); return s; }
static std::string Raw(const spu::Index& v) { std::string s; for (auto x : v) s += static_cast<char>(x); return s; }

static int handle;  // of contexts, within a case

// Draws once from every stream of a state, in a known order, and so names the streams.
static void Probe(const char* op, size_t n, int h, const std::function<bool(const std::function<void(size_t, PrgState*)>&)>& each) {
  std::string before = lg.Str();
  std::vector<std::string> pub(n), priv(n), a(n), b(n);
  bool ok = each([&](size_t r, PrgState* p) {
    u128 x[2];
    p->fillPubl(absl::MakeSpan(x, 1)); pub[r].assign(reinterpret_cast<char*>(x), 16);
    p->fillPriv(absl::MakeSpan(x, 1)); priv[r].assign(reinterpret_cast<char*>(x), 16);
    p->fillPrssPair(x, x + 1, 1, Ctrl::Both); a[r].assign(reinterpret_cast<char*>(x), 16); b[r].assign(reinterpret_cast<char*>(x + 1), 16);
  });
  auto seq = lg.seq;
  J e(op);
  e.i("h", h).i("n", static_cast<int64_t>(n)).b("ok", ok).raw("before", before).raw("seq", Per(n, [&](size_t r) { return Ints(seq[r]); })).raw("log", lg.Str());
  e.raw("pub", Per(n, [&](size_t r) { return B(pub[r]); })).raw("priv", Per(n, [&](size_t r) { return B(priv[r]); }));
  e.raw("r0", Per(n, [&](size_t r) { return B(a[r]); })).raw("r1", Per(n, [&](size_t r) { return B(b[r]); }));
}

// ---- histories of the streams themselves --------------------------------------------------------
static void Histories(size_t n, int ops) {
  NewCase();
  handle = 0;
  yacl::shim::SetBaseSeed(rng());
  lg.Start(n);
  World w;
  w.proto = {"-", 0, n};
  w.links = yacl::link::shim::MakeWorld("h" + std::to_string(++world_no), n, nullptr);
  std::vector<std::vector<std::unique_ptr<PrgState>>> st;  // handle -> party
  auto each = [&](int h) { return [&, h](const std::function<void(size_t, PrgState*)>& f) { return w.Each([&](size_t r) { f(r, st[h][r].get()); }); }; };
  st.emplace_back(n);
  w.Each([&](size_t r) { st[0][r] = std::make_unique<PrgState>(w.links[r]); });
  Probe("ctx", n, 0, each(0));
  for (int i = 0; i < ops; ++i) {
    int h = static_cast<int>(R(st.size()));
    auto field = FieldOf(Pick(std::vector<int>{32, 64, 128}));
    static const std::vector<Shape> shs = {{}, {0}, {1}, {3}, {5, 1}, {2, 3}, {17}, {4, 4}, {1, 33}};
    auto sh = Pick(shs);
    size_t nb = Pick(std::vector<size_t>{0, 1, 3, 15, 16, 17, 31, 32, 33, 100});
    size_t np = Pick(std::vector<size_t>{0, 1, 2, 3, 5, 9, 20});
    int kind = static_cast<int>(R(13));
    if (kind >= 11 && st.size() >= 7) kind = 0;
    if (kind >= 11) {
      st.emplace_back(n);
      w.Each([&](size_t r) { auto s = st[h][r]->fork(); st.back()[r].reset(dynamic_cast<PrgState*>(s.release())); });
      Probe("ctx", n, ++handle, each(handle));
      continue;
    }
    static const char* ks[] = {"pub", "priv", "prss", "first", "second", "pubn", "privn", "prssn", "permp", "perms", "half"};
    std::vector<std::string> a(n), b(n);
    size_t q = R(n), q1 = (q + n - 1) % n;
    bool ok = w.Each([&](size_t r) {
      auto* p = st[h][r].get();
      switch (kind) {
        case 0: a[r] = Raw(p->genPubl(field, sh)); break;
        case 1: a[r] = Raw(p->genPriv(field, sh)); break;
        case 2: { auto [x, y] = p->genPrssPair(field, sh, Ctrl::Both); a[r] = Raw(x); b[r] = Raw(y); break; }
        case 3: { auto [x, y] = p->genPrssPair(field, sh, Ctrl::First); a[r] = Raw(x); auto [z, t] = p->genPrssPair(field, sh, Ctrl::Second); b[r] = Raw(t); break; }
        case 4: { auto [x, y] = p->genPrssPair(field, sh, Ctrl::Second); b[r] = Raw(y); auto [z, t] = p->genPrssPair(field, sh, Ctrl::First); a[r] = Raw(z); break; }
        case 5: { std::vector<u8> v(nb); p->fillPubl(absl::MakeSpan(v)); a[r].assign(v.begin(), v.end()); break; }
        case 6: { std::vector<u8> v(nb); p->fillPriv(absl::MakeSpan(v)); a[r].assign(v.begin(), v.end()); break; }
        case 7: { std::vector<u8> x(nb + 1), y(nb + 1); p->fillPrssPair(x.data(), y.data(), nb, Ctrl::Both); a[r].assign(x.begin(), x.end() - 1); b[r].assign(y.begin(), y.end() - 1); break; }
        case 8: a[r] = Raw(p->genPrivPerm(np)); break;
        case 9: { auto [x, y] = p->genPrssPermPair(np); a[r] = Raw(x); b[r] = Raw(y); break; }
        case 10: {  // one stream only: its owner, and the neighbour who shares it
          std::vector<u8> x(nb + 1), y(nb + 1);
          if (r == q) { p->fillPrssPair(x.data(), static_cast<u8*>(nullptr), nb, Ctrl::First); a[r].assign(x.begin(), x.end() - 1); }
          if (r == q1) { p->fillPrssPair(static_cast<u8*>(nullptr), y.data(), nb, Ctrl::Second); b[r].assign(y.begin(), y.end() - 1); }
          break;
        }
      }
    });
    J e("draw");
    bool perm = kind == 8 || kind == 9, bytes = (kind >= 5 && kind <= 7) || kind == 10;
    e.i("h", h).i("n", static_cast<int64_t>(n)).b("ok", ok).str("kind", ks[kind]).i("q", static_cast<int64_t>(q + 1));
    e.i("size", static_cast<int64_t>(perm ? np : bytes ? nb : static_cast<size_t>(sh.numel()) * spu::SizeOf(field)));
    e.raw("a", Per(n, [&](size_t r) { return B(a[r]); })).raw("b", Per(n, [&](size_t r) { return B(b[r]); })).raw("log", lg.Str());
  }
}

// ---- programs ---------------------------------------------------------------------------------
struct Prog : Cat {
  std::unique_ptr<World> w;
  std::vector<std::vector<std::unique_ptr<SPUContext>>> kids;  // handle - 1 -> party
  bool dead = false;
  Prog(const Proto& p_, int k_, const std::function<void(RuntimeConfig&)>& tweak) {
    p = p_; k = k_;
    NewCase();
    handle = 0;
    yacl::shim::SetBaseSeed(rng());
    lg.Start(p.n);
    w = MakeWorld(p, FieldOf(k), tweak);
    Probe("ctx", p.n, 0, Each(0));
  }
  SPUContext* C(int h, size_t r) { return h == 0 ? w->ctx[r] : kids[h - 1][r].get(); }
  std::function<bool(const std::function<void(size_t, PrgState*)>&)> Each(int h) {
    return [this, h](const std::function<void(size_t, PrgState*)>& f) { return w->Each([&](size_t r) { f(r, C(h, r)->getState<PrgState>()); }); };
  }
  bool Has(const char* kn) override { return w->ctx[0]->hasKernel(kn); }
  void Fork() {
    if (dead || kids.size() >= 4) return;
    int h = static_cast<int>(R(kids.size() + 1));
    kids.emplace_back(p.n);
    w->Each([&](size_t r) { kids.back()[r] = C(h, r)->fork(); });
    Probe("ctx", p.n, ++handle, Each(handle));
  }
  void Check(int h) { if (!dead) Probe("probe", p.n, h, Each(h)); }
  void Do(const char* f, const std::vector<In>& in, const Fn& fn, bool) override {
    if (dead) return;
    int h = static_cast<int>(R(kids.size() + 1));
    bool ok = w->Run([&](size_t r, SPUContext*) {
      auto* c = C(h, r);
      VV arg;
      for (auto& i : in) {
        auto v = Pub(c, i.a, i.sh);
        if (i.kind == 'V') v = m::p2v(c, v, i.owner);
        if (i.kind == 'S' || i.kind == 'B') v = m::p2s(c, v);
        if (i.kind == 'B') v = hal::_prefer_b(c, v);
        arg.push_back(v.setDtype(i.dt, true));
      }
      fn(c, arg);
    });
    std::string err;
    for (auto& e : w->err) if (!e.empty() && e.find("peer stopped") == std::string::npos) err = e;
    J e("step");
    e.i("h", h).i("n", static_cast<int64_t>(p.n)).b("ok", ok).str("f", f).str("proto", p.name).i("k", k).raw("log", lg.Str());
    if (!ok) { e.str("err", err.substr(0, 300)); dead = true; fprintf(stderr, "%s %s %d: %s\n", f, p.name, k, err.substr(0, 200).c_str()); }
  }
};

int main(int argc, char** argv) {
  Open(argc, argv);
  reseed_each = true;
  int scale = argc > 3 ? atoi(argv[3]) : 1;
  std::string only = argc > 4 ? argv[4] : "";
  yacl::link::shim::SetRecvTimeoutMs(20000);
  if (only == "STREAMS") {
    for (int i = 0; i < 10 * scale; ++i) for (size_t n = 2; n <= 5; ++n) Histories(n, 40);
    Close();
    return 0;
  }
  for (int s = 0; s < scale; ++s)
    for (auto& p : Protos())
      for (int k : {32, 64, 128}) {
        std::string nm = p.name;
        if (p.kind < 0 || nm == "REF2K" || (!only.empty() && only != nm) || (k == 128 && nm == "SWIFT")) continue;
        SetCat(p, k);
        bool err = Coin();
        auto mk = [&] { return std::make_unique<Prog>(p, k, [&](RuntimeConfig& c) {
          c.trunc_allow_msb_error = err; c.sort_method = static_cast<RuntimeConfig::SortMethod>(0); c.quick_sort_threshold = 3; }); };
        auto t = mk();
        static const std::vector<Shape> shs = {{}, {1}, {3}, {2, 2}, {5}, {3, 1}, {2, 1, 2}};
        for (int i = 0; i < 45; ++i) {
          auto sh = Pick(shs);
          if (Coin(55) || nm == "SWIFT") RingOp(*t, sh); else TypedOp(*t, Shape{RI(1, 3)});
          if (t->dead) t = mk();
          if (Coin(8)) t->Fork();
          if (Coin(15)) t->Check(static_cast<int>(R(t->kids.size() + 1)));
        }
        for (size_t h = 0; h <= t->kids.size(); ++h) t->Check(static_cast<int>(h));
      }
  Close();
}
