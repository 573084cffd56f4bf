// What a single party sees of secrets (C03).
// Each operation runs on many lanes at once, one secret per lane.
//  span: the secrets are random; the party's whole view of a lane (input pieces, its own random
//        draws, incoming messages, output piece) is a row of bits.  For a secret bit the driver looks for
//        a set of lanes over which every bit of the view cancels, while of the secrets exactly that bit
//        does not: it exists if and only if no sum of things the party holds tells the bit.
//  bias: all lanes hold the same secret; how often each bit of the view (and of sums, differences and
//        exclusive-ors of two parts of it) is set, for two different secrets.
// args: out seed scale proto k [op, or i/n: every n-th]
#include <mutex>

#include "catalog.h"

using Bits = std::vector<uint64_t>;
struct Block { std::string what; std::vector<u8> b; };
using View = std::vector<Block>;  // of one party

static std::mutex mu;
static std::vector<View> prgs;             // per party
static bool recording = false;
static std::vector<std::vector<std::vector<std::vector<u8>>>> inbox;  // [dst][src] -> payloads

struct SOp {
  const char* f;
  const char* kinds;              // per input: S arithmetic, B boolean, P public, V private of party 0,
                                  // b the sign of the secret, M a shared permutation of two elements
  std::function<VV(SPUContext*, const VV&)> fn;
  const char* dom;                // per input: w whole ring, b one bit
  int owner = -1;                 // the party that is meant to know the secrets
};

static NdArrayRef Raw(const std::vector<u128>& v) {
  auto f = FieldOf(K);
  NdArrayRef a(spu::makeType<spu::RingTy>(f), Shape{static_cast<int64_t>(v.size())});
  size_t es = spu::SizeOf(f);
  for (size_t i = 0; i < v.size(); ++i) memcpy(a.data<u8>() + i * es, &v[i], es);
  return a;
}
static std::vector<u8> Flatten(const NdArrayRef& a) {
  std::vector<u8> r;
  for (int64_t i = 0, n = Numel(a); i < n; ++i) { auto p = ElemPtr(a, i); r.insert(r.end(), p, p + a.elsize()); }
  return r;
}

// One run on the given secrets; the views of all parties.
static bool Exec(World& w, const SOp& op, const std::vector<std::vector<u128>>& secrets, std::vector<View>& views, std::vector<std::string>* err = nullptr) {
  size_t n = w.n(), ni = secrets.size();
  std::vector<std::vector<Value>> in(n);
  auto conf = MakeConf(w.proto, w.field);
  auto io = spu::mpc::Factory::CreateIO(conf, n);
  for (size_t i = 0; i < ni; ++i) {
    char kd = op.kinds[i];
    auto sh = io->toShares(Raw(secrets[i]), kd == 'P' || kd == 'V' ? spu::VIS_PUBLIC : spu::VIS_SECRET);
    for (size_t r = 0; r < n; ++r) in[r].push_back(Value(sh[r], spu::DT_INVALID));
  }
  // changes of form before the operation are not part of what is observed, their results are
  if (!w.Run([&](size_t r, SPUContext* c) {
        for (size_t i = 0; i < ni; ++i) {
          if (op.kinds[i] == 'B') in[r][i] = hal::_prefer_b(c, hal::_prefer_a(c, in[r][i]));
          if (op.kinds[i] == 'b') in[r][i] = hal::_msb(c, in[r][i]);
          if (op.kinds[i] == 'V') in[r][i] = m::p2v(c, in[r][i], 0);
        }
      })) { if (err) *err = w.err; return false; }
  views.assign(n, {});
  inbox.assign(n, std::vector<std::vector<std::vector<u8>>>(n));
  prgs.assign(n, {});
  std::vector<VV> out(n);
  recording = true;
  bool ok = w.Run([&](size_t r, SPUContext* c) { out[r] = op.fn(c, in[r]); });
  recording = false;
  if (!ok) { if (err) *err = w.err; return false; }
  for (size_t r = 0; r < n; ++r) {
    for (size_t i = 0; i < ni; ++i)
      if (op.kinds[i] != 'P' && op.kinds[i] != 'V') views[r].push_back({"in", Flatten(in[r][i].data())});
    for (size_t s = 0; s < n; ++s) for (auto& b : inbox[r][s]) views[r].push_back({"msg", b});
    for (auto& o : out[r]) if (o.isSecret()) views[r].push_back({"out", Flatten(o.data())});
    for (auto& b : prgs[r]) views[r].push_back(b);
  }
  return true;
}

// the bits of a block that belong to each lane
using Cols = std::vector<Bits>;  // per column, a bit per lane
static void AddCols(Cols& cols, const std::vector<u8>& b, size_t L, size_t es, size_t& skipped, u64 pick = 0) {
  size_t W = (L + 63) / 64;
  if (b.empty()) return;
  // of a large block, a window of its columns
  auto plane = [&](size_t bits, auto at) {
    size_t from = bits > 1024 ? pick % (bits - 512) : 0, to = bits > 1024 ? from + 512 : bits;
    for (size_t t = from; t < to; ++t) {
      Bits c(W, 0);
      for (size_t j = 0; j < L; ++j) { auto p = at(j, t); c[j / 64] |= static_cast<u64>((b[p.first] >> p.second) & 1) << (j % 64); }
      cols.push_back(std::move(c));
    }
  };
  if (b.size() % L == 0) {
    size_t q = b.size() / L;
    plane(q * 8, [&](size_t j, size_t t) { return std::make_pair(j * q + t / 8, t % 8); });
    std::vector<size_t> ws;
    for (size_t w : {es, size_t(1), size_t(2), size_t(4)}) if (w < q && q % w == 0 && (w == es || q <= 4 || es == 1)) if (std::find(ws.begin(), ws.end(), w) == ws.end()) ws.push_back(w);
    for (size_t w : ws) plane(q * 8, [&](size_t j, size_t t) { size_t pl = t / (8 * w), o = t % (8 * w); return std::make_pair((pl * L + j) * w + o / 8, o % 8); });
  } else if (b.size() * 8 % L == 0 && b.size() < L) {
    size_t q = b.size() * 8 / L;
    plane(q, [&](size_t j, size_t t) { size_t x = j * q + t; return std::make_pair(x / 8, x % 8); });
    if (q > 1) plane(q, [&](size_t j, size_t t) { size_t x = t * L + j; return std::make_pair(x / 8, x % 8); });
  } else ++skipped;
}
// the input pieces, then as many of the other blocks as fit, in random order
static const size_t kCap = 512;
static void AddView(Cols& cols, const View& v, size_t L, size_t es, size_t& skipped, u64 order) {
  std::vector<size_t> idx;
  for (size_t i = 0; i < v.size(); ++i) if (v[i].what == "in") AddCols(cols, v[i].b, L, es, skipped); else idx.push_back(i);
  std::mt19937_64 g(order);
  std::shuffle(idx.begin(), idx.end(), g);
  // mostly the blocks with a word or less per lane first
  if (g() % 4 != 0) std::stable_partition(idx.begin(), idx.end(), [&](size_t i) { return v[i].b.size() <= L * es; });
  for (size_t i : idx) {
    Cols c;
    AddCols(c, v[i].b, L, es, skipped, g());
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    if (c.size() > 768) { std::shuffle(c.begin(), c.end(), g); c.resize(768); }
    if (cols.size() + c.size() > kCap + 768) continue;
    cols.insert(cols.end(), c.begin(), c.end());
  }
}

// words of a view by plane, for the counts
static std::vector<std::vector<u128>> Planes(const View& v, size_t L, size_t es) {
  std::vector<std::vector<u128>> r;
  for (auto& b : v) {
    if (b.b.empty() || b.b.size() % L != 0) continue;
    size_t q = b.b.size() / L, w = q % es == 0 ? es : q;
    if (w > 16) w = 1;
    size_t m = q / w;
    for (int lay = 0; lay < (m > 1 ? 2 : 1); ++lay)
      for (size_t t = 0; t < m; ++t) {
        std::vector<u128> pl(L, 0);
        for (size_t j = 0; j < L; ++j) memcpy(&pl[j], b.b.data() + (lay == 0 ? (t * L + j) * w : j * q + t * w), w);
        r.push_back(std::move(pl));
      }
  }
  return r;
}

// a value whose two top bits agree (the sign is taken from the second bit in SECURENN, see C01's findings)
static u128 Small(u128 x) {
  u128 top = (x >> (K - 1)) & 1, b = u128(1) << (K - 2);
  return top ? x | b : x & ~b;
}

// Certificates of ignorance.  Columns 0..nv-1 are the view, the rest targets (functions of the secrets).
static void Certify(World& w, const SOp& op, size_t r, const Cols& cols, size_t nv, size_t L, size_t nbits, size_t skip, const char* mode) {
    size_t W = (L + 63) / 64, ns = cols.size() - nv;
    // Row-reduce the columns, one equation per column over the unknown set of lanes; right-hand sides are the secret bits.
    std::vector<Bits> eq = cols;
    std::vector<Bits> rhs(cols.size(), Bits((ns + 63) / 64, 0));
    for (size_t s = 0; s < ns; ++s) rhs[nv + s][s / 64] |= u64(1) << (s % 64);
    std::vector<int64_t> pivot(cols.size(), -1);
    std::vector<Bits> bad;  // contradictions: combinations of secret bits that the view determines
    std::vector<size_t> rows;  // reduced equations
    for (size_t c = 0; c < eq.size(); ++c) {
      for (size_t q : rows) if ((eq[c][static_cast<size_t>(pivot[q]) / 64] >> (pivot[q] % 64)) & 1) {
        for (size_t x = 0; x < W; ++x) eq[c][x] ^= eq[q][x];
        for (size_t x = 0; x < rhs[c].size(); ++x) rhs[c][x] ^= rhs[q][x];
      }
      int64_t pv = -1;
      for (size_t x = 0; x < W && pv < 0; ++x) if (eq[c][x]) pv = static_cast<int64_t>(x * 64) + __builtin_ctzll(eq[c][x]);
      if (pv < 0) {
        for (auto x : rhs[c]) if (x) { bad.push_back(rhs[c]); break; }
        continue;
      }
      pivot[c] = pv;
      for (size_t q : rows) if ((eq[q][static_cast<size_t>(pv) / 64] >> (pv % 64)) & 1) {
        for (size_t x = 0; x < W; ++x) eq[q][x] ^= eq[c][x];
        for (size_t x = 0; x < rhs[q].size(); ++x) rhs[q][x] ^= rhs[c][x];
      }
      rows.push_back(c);
    }
    for (size_t k = 0; k < nbits; ++k) {
      size_t s = R(ns);
      bool exposed = false;
      for (auto& b : bad) if ((b[s / 64] >> (s % 64)) & 1) exposed = true;
      if (!bad.empty() && !exposed && k == 0) {  // pick a bit that is exposed
        for (auto& b : bad) for (size_t t = 0; t < ns; ++t) if ((b[t / 64] >> (t % 64)) & 1) { s = t; exposed = true; }
      }
      std::vector<size_t> lanes;
      if (!exposed) for (size_t q : rows) if ((rhs[q][s / 64] >> (s % 64)) & 1) lanes.push_back(static_cast<size_t>(pivot[q]));
      // only the lanes of the certificate are written down
      J e("span");
      e.str("f", op.f).str("proto", w.proto.name).i("k", K).i("party", static_cast<int64_t>(r)).b("ok", true).str("err", "");
      auto pack = [&](size_t from, size_t to, size_t lane) {
        std::string o = "[";
        for (size_t c = from; c < to; c += 30) {
          u64 v = 0;
          for (size_t t = c; t < std::min(to, c + 30); ++t) v |= ((cols[t][lane / 64] >> (lane % 64)) & 1) << (t - c);
          if (c > from) o += ',';
          o += std::to_string(v);
        }
        return o + "]";
      };
      e.list("rows", lanes, [&](size_t j) { return pack(0, nv, j); }).list("secret", lanes, [&](size_t j) { return pack(nv, nv + ns, j); });
      e.i("bit", static_cast<int64_t>(s)).str("mode", mode).i("width", static_cast<int64_t>(nv)).i("lanes", static_cast<int64_t>(L)).i("skipped", static_cast<int64_t>(skip));
    }
}

static void Span(World& w, const SOp& op, size_t nbits) {
  size_t es = w.bytes(), ni = strlen(op.kinds);
  auto mk = [&](size_t L) {
    std::vector<std::vector<u128>> s(ni, std::vector<u128>(L));
    for (size_t i = 0; i < ni; ++i) {
      for (auto& x : s[i]) x = op.dom[i] == 'b' ? R(2) : (R128() & Mask(K));
      if (op.kinds[i] == 'P') for (auto& x : s[i]) x = op.dom[i] == 'b' ? R(2) : Val(K);
      if (op.kinds[i] == 'b') for (auto& x : s[i]) x = Small(x);
    }
    return s;
  };
  std::vector<View> views;
  size_t L = kCap + 768 + (ni + 1) * static_cast<size_t>(K) + 160, skipped = 0;
  L = (L + 127) / 128 * 128;
  auto sec = mk(L);
  std::vector<std::string> err;
  if (!Exec(w, op, sec, views, &err)) {
      std::string e;
      for (auto& x : err) if (!x.empty()) e = x;
      J("span").str("f", op.f).str("proto", w.proto.name).i("k", K).i("party", 0).b("ok", false).str("err", e.substr(0, 200)).raw("rows", "[]").raw("secret", "[]").i("bit", 0).i("width", 0).i("skipped", 0);
      return;
  }
  for (size_t r = 0; r < w.n(); ++r) {
    if (static_cast<int>(r) == op.owner) continue;
    Cols cols;
    size_t skip = 0;
    AddView(cols, views[r], L, es, skip, rng());
    // what everyone knows is part of the view
    for (size_t i = 0; i < ni; ++i) if (op.kinds[i] == 'P') AddCols(cols, Flatten(Raw(sec[i])), L, es, skip);
    std::sort(cols.begin(), cols.end());
    cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
    size_t nv = cols.size();
    std::vector<std::pair<size_t, size_t>> which;  // input, bit
    for (size_t i = 0; i < ni; ++i) {
      if (op.kinds[i] == 'P') continue;
      if (op.kinds[i] == 'V' && r == 0) continue;
      int nb = op.kinds[i] == 'b' ? 0 : op.dom[i] == 'b' ? 1 : K;
      for (int t = 0; t < nb; ++t) {
        Bits c((L + 63) / 64, 0);
        for (size_t j = 0; j < L; ++j) c[j / 64] |= static_cast<u64>((sec[i][j] >> t) & 1) << (j % 64);
        cols.push_back(c);
        which.emplace_back(i, static_cast<size_t>(t));
      }
      if (op.kinds[i] == 'b') {
        Bits c((L + 63) / 64, 0);
        for (size_t j = 0; j < L; ++j) c[j / 64] |= static_cast<u64>((sec[i][j] >> (K - 1)) & 1) << (j % 64);
        cols.push_back(c);
        which.emplace_back(i, static_cast<size_t>(K - 1));
      }
    }
    if (which.empty()) continue;
    Certify(w, op, r, cols, nv, L, nv > 700 ? 1 : nbits, skip, "wide");
  }
}

// Many short runs instead of one long one: a lane is a run, so that what happens to single elements (the
// last ones of a row, say) shows.  The party may also multiply bits it holds at one place of the operands.
static void Runs(World& w, const SOp& op) {
  size_t es = w.bytes(), ni = strlen(op.kinds), np = w.n();
  bool perm = strchr(op.kinds, 'M') != nullptr;
  size_t n = perm ? 2 : Pick(std::vector<size_t>{1, 2, 3, 5, 9}), N = 512;
  int t = op.dom[0] == 'b' || R(2) == 0 ? 0 : static_cast<int>(R(static_cast<u64>(K)));
  size_t at = R(2) ? n - 1 : R(n);  // the element
  bool bitwise = strpbrk(op.kinds, "b") != nullptr;
  if (bitwise || perm) t = 0;
  std::vector<std::vector<std::vector<u128>>> sec(N, std::vector<std::vector<u128>>(ni, std::vector<u128>(n)));
  auto conf = MakeConf(w.proto, w.field);
  auto io = spu::mpc::Factory::CreateIO(conf, np);
  std::vector<u128> pub(n);
  for (auto& x : pub) x = Val(K);
  std::vector<std::vector<VV>> in(N, std::vector<VV>(np)), out(N, std::vector<VV>(np));
  for (size_t q = 0; q < N; ++q)
    for (size_t i = 0; i < ni; ++i) {
      char kd = op.kinds[i];
      for (size_t e = 0; e < n; ++e) {
        auto& x = sec[q][i][e];
        x = op.dom[i] == 'b' ? R(2) : (R128() & Mask(K));
        if (kd == 'P') x = op.dom[i] == 'b' ? (e & 1) : pub[e];
        if (kd == 'b') x = Small(x);
      }
    }
  std::vector<std::vector<NdArrayRef>> sh(ni);
  for (size_t i = 0; i < ni; ++i) {
    if (op.kinds[i] == 'M') continue;
    std::vector<u128> all;
    for (auto& q : sec) all.insert(all.end(), q[i].begin(), q[i].end());
    sh[i] = io->toShares(Raw(all), op.kinds[i] == 'P' || op.kinds[i] == 'V' ? spu::VIS_PUBLIC : spu::VIS_SECRET);
  }
  if (!w.Run([&](size_t r, SPUContext* c) {
        for (size_t i = 0; i < ni; ++i) {
          if (op.kinds[i] == 'M') {
            for (size_t q = 0; q < N; ++q) in[q][r].push_back(m::rand_perm_s(c, Shape{2}).value());
            continue;
          }
          Value x(sh[i][r], spu::DT_INVALID);
          if (op.kinds[i] == 'B') x = hal::_prefer_b(c, hal::_prefer_a(c, x));
          if (op.kinds[i] == 'b') x = hal::_msb(c, x);
          if (op.kinds[i] == 'V') x = m::p2v(c, x, 0);
          for (size_t q = 0; q < N; ++q) {
            auto from = static_cast<int64_t>(q * n), to = static_cast<int64_t>(q * n + n);
            in[q][r].push_back(Value(x.data().slice({from}, {to}, {1}).clone(), x.dtype()));
          }
        }
      })) return;
  // a permutation of two elements is one bit, the exclusive-or of the parties' own
  for (size_t i = 0; i < ni; ++i)
    if (op.kinds[i] == 'M')
      for (size_t q = 0; q < N; ++q) {
        u128 b = 0;
        for (size_t r = 0; r < np; ++r) b ^= Flatten(in[q][r][i].data())[0] & 1;
        sec[q][i].assign(2, b);
      }
  inbox.assign(np, std::vector<std::vector<std::vector<u8>>>(np));
  prgs.assign(np, {});
  // where each run starts: [party][run] -> sizes of what it sent to each, and of its draws
  std::vector<std::vector<std::vector<size_t>>> mark(np, std::vector<std::vector<size_t>>(N + 1, std::vector<size_t>(np + 1)));
  recording = true;
  bool ok = w.Run([&](size_t r, SPUContext* c) {
    for (size_t q = 0; q <= N; ++q) {
      for (size_t d = 0; d < np; ++d) mark[r][q][d] = inbox[d][r].size();
      mark[r][q][np] = prgs[r].size();
      if (q < N) out[q][r] = op.fn(c, in[q][r]);
    }
  });
  recording = false;
  if (!ok) return;
  for (size_t r = 0; r < np; ++r) {
    if (static_cast<int>(r) == op.owner || (r == 0 && op.kinds[0] == 'V')) continue;
    // the view of each run; runs of the commonest form only
    std::vector<View> v(N);
    std::map<std::string, std::vector<size_t>> forms;
    for (size_t q = 0; q < N; ++q) {
      for (size_t i = 0; i < ni; ++i) if (op.kinds[i] != 'P' && op.kinds[i] != 'V') v[q].push_back({"in", Flatten(in[q][r][i].data())});
      for (size_t s = 0; s < np; ++s) for (size_t j = mark[s][q][r]; j < mark[s][q + 1][r]; ++j) v[q].push_back({"msg", inbox[r][s][j]});
      for (auto& o : out[q][r]) if (o.isSecret()) v[q].push_back({"out", Flatten(o.data())});
      for (size_t j = mark[r][q][np]; j < mark[r][q + 1][np]; ++j) v[q].push_back(prgs[r][j]);
      std::string f;
      for (auto& b : v[q]) f += b.what + std::to_string(b.b.size()) + ",";
      forms[f].push_back(q);
    }
    std::vector<size_t> runs;
    for (auto& f : forms) if (f.second.size() > runs.size()) runs = f.second;
    size_t L = runs.size(), W = (L + 63) / 64;
    auto col = [&](auto bit) { Bits c(W, 0); for (size_t j = 0; j < L; ++j) if (bit(runs[j])) c[j / 64] |= u64(1) << (j % 64); return c; };
    auto vbit = [&](size_t b, size_t x) { return col([&](size_t q) { return (v[q][b].b[x / 8] >> (x % 8)) & 1; }); };
    auto tand = [&](const Bits& a, const Bits& b) { Bits c(W); for (size_t x = 0; x < W; ++x) c[x] = a[x] & b[x]; return c; };
    // what the party holds of the chosen place: pieces of the operands, words received
    Bits ones = col([](size_t) { return 1; });
    Cols own = {ones}, place;
    auto indep = [&](const Bits& c) {
      Cols m = own;
      m.push_back(c);
      size_t rank = 0;
      for (size_t x = 0; x < L && rank < m.size(); ++x) {
        size_t p = rank;
        while (p < m.size() && !((m[p][x / 64] >> (x % 64)) & 1)) ++p;
        if (p == m.size()) continue;
        std::swap(m[p], m[rank]);
        for (size_t y = 0; y < m.size(); ++y) if (y != rank && ((m[y][x / 64] >> (x % 64)) & 1)) for (size_t z = 0; z < W; ++z) m[y][z] ^= m[rank][z];
        ++rank;
      }
      return rank == m.size();
    };
    auto& v0 = v[runs[0]];
    for (size_t b = 0; b < v0.size(); ++b) {
      size_t per = v0[b].b.size() / n;  // bytes per element
      if (v0[b].b.size() % n != 0 || per == 0 || v0[b].what == "prg" || v0[b].what == "out") continue;
      for (size_t p = 0; p * es < per; ++p) {
        size_t word = std::min(es, per), x = (at * per + p * word) * 8 + static_cast<size_t>(t);
        if (x / 8 >= v0[b].b.size() || static_cast<size_t>(t) >= word * 8) continue;
        auto c = vbit(b, x);
        auto hold = [&](const Bits& c) { if (v0[b].what == "in") { if (own.size() < (perm ? 8 : 5) && indep(c)) own.push_back(c); } else if (place.size() < 6) place.push_back(c); };
        hold(c);
        if (perm) hold(vbit(b, ((1 - at) * per + p * word) * 8 + static_cast<size_t>(t)));
      }
    }
    Cols cols, targets;
    for (size_t a = 1; a < own.size(); ++a) for (size_t b = 1; b < a; ++b) cols.push_back(tand(own[a], own[b]));
    for (auto& a : place) for (size_t b = 1; b < own.size(); ++b) cols.push_back(tand(a, own[b]));
    for (auto& a : own) cols.push_back(a);
    for (auto& a : place) cols.push_back(a);
    for (size_t i = 0; i < ni; ++i) {
      if (op.kinds[i] == 'P' || (op.kinds[i] == 'V' && r == 0)) continue;
      size_t tb = op.kinds[i] == 'b' ? static_cast<size_t>(K - 1) : op.dom[i] == 'b' || op.kinds[i] == 'M' ? 0 : static_cast<size_t>(t);
      auto c = col([&](size_t q) { return (sec[q][i][at] >> tb) & 1; });
      for (auto& g : own) targets.push_back(tand(c, g));
    }
    if (targets.empty()) continue;
    // then random words of the view, as many bits as the runs allow for
    size_t room = L < 140 + cols.size() + targets.size() ? 0 : L - 110 - cols.size() - targets.size();
    std::vector<std::pair<size_t, size_t>> words;
    for (size_t b = 0; b < v0.size(); ++b) for (size_t x = 0; x < v0[b].b.size(); x += es) words.emplace_back(b, x);
    std::shuffle(words.begin(), words.end(), rng);
    if (R(2)) for (auto [b, x] : words) if (room > 0 && static_cast<size_t>(t) < (v0[b].b.size() - x) * 8) { cols.push_back(vbit(b, x * 8 + static_cast<size_t>(t))); --room; }
    for (auto [b, x] : words) {
      size_t bits = std::min(es, v0[b].b.size() - x) * 8;
      if (room < bits) continue;
      for (size_t y = 0; y < bits; ++y) cols.push_back(vbit(b, x * 8 + y));
      room -= bits;
    }
    std::sort(cols.begin(), cols.end());
    cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
    size_t nv = cols.size();
    if (L < nv + targets.size() + 64) continue;
    cols.insert(cols.end(), targets.begin(), targets.end());
    Certify(w, op, r, cols, nv, L, 1, 0, "runs");
  }
}

static void Bias(World& w, const SOp& op, bool mix_pairs = true) {
  size_t es = w.bytes(), ni = strlen(op.kinds), L = 1024;
  std::vector<std::vector<u128>> a(ni), b(ni);
  for (size_t i = 0; i < ni; ++i) {
    bool bit = op.dom[i] == 'b';
    u128 x = bit ? 0 : Pick(std::vector<u128>{0, 0, 1, Val(K), R128()}) & Mask(K);
    u128 y = bit ? 1 : Pick(std::vector<u128>{~u128(0), u128(1) << (K - 1), Val(K), R128(), R128()}) & Mask(K);
    if (op.kinds[i] == 'P') y = x = bit ? R(2) : Val(K);
    if (op.kinds[i] == 'b') x = Small(x), y = Small(y);
    a[i].assign(L, x); b[i].assign(L, y);
  }
  std::vector<View> va, vb;
  // some protocols deal the roles out anew each time: compare runs in which they fell alike
  auto form = [](const std::vector<View>& v) { std::string f; for (auto& p : v) { f += "|"; for (auto& q : p) f += q.what + std::to_string(q.b.size()) + ","; } return f; };
  if (!Exec(w, op, a, va)) return;
  bool same = false;
  for (int t = 0; t < 9 && !same; ++t) { if (!Exec(w, op, b, vb)) return; same = form(va) == form(vb); }
  for (size_t r = 0; r < w.n(); ++r) {
    if (static_cast<int>(r) == op.owner) continue;
    if (r == 0 && op.kinds[0] == 'V') continue;
    auto pa = Planes(va[r], L, es), pb = Planes(vb[r], L, es);
    if (pa.size() == pb.size() && pa.size() > 100) {
      std::vector<size_t> ix(pa.size());
      for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
      std::shuffle(ix.begin(), ix.end(), rng);
      std::vector<std::vector<u128>> qa, qb;
      for (size_t i = 0; i < 100; ++i) { qa.push_back(pa[ix[i]]); qb.push_back(pb[ix[i]]); }
      pa = qa; pb = qb;
    }
    auto count = [&](const std::vector<u128>& v) {
      std::vector<int64_t> c(static_cast<size_t>(K), 0);
      for (auto x : v) for (int t = 0; t < K; ++t) c[static_cast<size_t>(t)] += static_cast<int64_t>((x >> t) & 1);
      return c;
    };
    J e("bias");
    e.str("f", op.f).str("proto", w.proto.name).i("k", K).i("party", static_cast<int64_t>(r)).i("lanes", static_cast<int64_t>(L));
    e.b("same", same);
    size_t np = std::min(pa.size(), pb.size());
    auto ints = [](const std::vector<int64_t>& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; };
    std::string one = "[", two = "[";
    for (size_t i = 0; i < np; ++i) { if (i) one += ','; one += "[" + ints(count(pa[i])) + "," + ints(count(pb[i])) + "]"; }
    // pairs
    std::vector<std::pair<size_t, size_t>> pairs;
    if (mix_pairs) for (size_t i = 0; i < np; ++i) for (size_t j = 0; j < i; ++j) pairs.emplace_back(i, j);
    if (pairs.size() > 60) { std::shuffle(pairs.begin(), pairs.end(), rng); pairs.resize(60); }
    for (auto [i, j] : pairs)
      for (int f = 0; f < 3; ++f) {
        auto mix = [&](const std::vector<std::vector<u128>>& p) {
          std::vector<u128> v(L);
          for (size_t t = 0; t < L; ++t) { u128 x = p[i][t], y = p[j][t]; v[t] = (f == 0 ? x + y : f == 1 ? x - y : x ^ y) & Mask(K); }
          return count(v);
        };
        auto ca = mix(pa), cb = mix(pb);
        size_t worst = 0;
        for (size_t t = 0; t < ca.size(); ++t) if (std::llabs(ca[t] - cb[t]) > std::llabs(ca[worst] - cb[worst])) worst = t;
        if (two.size() > 1) two += ',';
        two += "[" + std::to_string(ca[worst]) + "," + std::to_string(cb[worst]) + "]";
      }
    e.raw("one", one + "]").raw("two", two + "]");
  }
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int64_t scale = atoll(argv[3]);
  std::string spec = argv[4];
  int k = atoi(argv[5]);
  std::string pn = spec.substr(0, spec.size() - 1);
  size_t np = static_cast<size_t>(spec.back() - '0');
  for (char ch : spec) rng.seed(rng() ^ (static_cast<u64>(ch) << 7) ^ static_cast<u64>(k));
  auto p = P(pn, np);
  SetCat(p, k);
  reseed_each = true;
  yacl::shim::SetPrgHook([&](const yacl::shim::PrgCall& c, uint8_t* out) {
    if (!recording || c.party < 0 || static_cast<size_t>(c.party) >= NP) return;
    // party 0 plays the dealer of SEMI2K and SECURENN: it holds everyone's seeds by design
    if (c.party == 0 && (pn == "SEMI2K" || pn == "SECURENN")) return;
    std::lock_guard<std::mutex> l(mu);
    prgs[static_cast<size_t>(c.party)].push_back({"prg", std::vector<u8>(out, out + c.nbytes)});
  });
  std::vector<SOp> ops = {
    {"mul", "SS", [](SPUContext* c, const VV& x) { return One(hal::_mul(c, x[0], x[1])); }, "ww"},
    {"mul_pub", "SP", [](SPUContext* c, const VV& x) { return One(hal::_mul(c, x[0], x[1])); }, "ww"},
    {"square", "S", [](SPUContext* c, const VV& x) { return One(hal::_square(c, x[0])); }, "w"},
    {"add", "SS", [](SPUContext* c, const VV& x) { return One(hal::_add(c, x[0], x[1])); }, "ww"},
    {"and", "BB", [](SPUContext* c, const VV& x) { return One(hal::_and(c, x[0], x[1])); }, "ww"},
    {"and_narrow", "bb", [](SPUContext* c, const VV& x) { return One(hal::_and(c, x[0], x[1])); }, "ww"},
    {"xor_mixed", "SB", [](SPUContext* c, const VV& x) { return One(hal::_xor(c, x[0], x[1])); }, "ww"},
    {"or", "BB", [](SPUContext* c, const VV& x) { return One(hal::_or(c, x[0], x[1])); }, "ww"},
    {"msb", "S", [](SPUContext* c, const VV& x) { return One(hal::_msb(c, x[0])); }, "w"},
    {"a2b", "S", [](SPUContext* c, const VV& x) { return One(hal::_prefer_b(c, x[0])); }, "w"},
    {"b2a", "B", [](SPUContext* c, const VV& x) { return One(hal::_prefer_a(c, x[0])); }, "w"},
    {"b2a_bit", "b", [](SPUContext* c, const VV& x) { return One(hal::_prefer_a(c, x[0])); }, "w"},
    {"mul_bit", "bS", [](SPUContext* c, const VV& x) { return One(hal::_mul(c, x[0], x[1])); }, "ww"},
    {"mux", "bSS", [](SPUContext* c, const VV& x) { return One(hal::_mux(c, x[0], x[1], x[2])); }, "www"},
    {"mux_pub", "SPS", [](SPUContext* c, const VV& x) { return One(hal::_mux(c, x[0], x[1], x[2])); }, "bww"},
    {"less", "SS", [](SPUContext* c, const VV& x) { return One(hal::_less(c, x[0], x[1])); }, "ww"},
    {"equal", "SS", [](SPUContext* c, const VV& x) { return One(hal::_equal(c, x[0], x[1])); }, "ww"},
    {"equal_pub", "SP", [](SPUContext* c, const VV& x) { return One(hal::_equal(c, x[0], x[1])); }, "ww"},
    {"equal_bool", "BB", [](SPUContext* c, const VV& x) { return One(hal::_equal(c, x[0], x[1])); }, "ww"},
    {"trunc", "S", [](SPUContext* c, const VV& x) { return One(hal::_trunc(c, x[0], 7, SignType::Unknown)); }, "w"},
    {"trunc_pos", "S", [](SPUContext* c, const VV& x) { return One(hal::_trunc(c, x[0], 5, SignType::Positive)); }, "w"},
    {"arshift", "S", [](SPUContext* c, const VV& x) { return One(hal::_arshift(c, x[0], {3})); }, "w"},
    {"rshift", "B", [](SPUContext* c, const VV& x) { return One(hal::_rshift(c, x[0], {3})); }, "w"},
    {"bitrev", "B", [](SPUContext* c, const VV& x) { return One(hal::_bitrev(c, x[0], 1, 6)); }, "w"},
    {"popcount", "S", [](SPUContext* c, const VV& x) { return One(hal::_popcount(c, x[0], static_cast<size_t>(K))); }, "w"},
    {"mmul", "SS", [](SPUContext* c, const VV& x) {
       int64_t n = x[0].numel();
       auto a = Value(x[0].data().reshape({n, 1}), x[0].dtype());
       auto b = Value(x[1].data().slice({0}, {1}, {1}).reshape({1, 1}), x[1].dtype());
       return One(hal::_mmul(c, a, b)); }, "wc"},
    {"reveal_to", "S", [](SPUContext* c, const VV& x) { return One(m::s2v(c, x[0], 1)); }, "w", 1},
    {"reveal_to_b", "B", [](SPUContext* c, const VV& x) { return One(m::s2v(c, x[0], 1)); }, "w", 1},
    {"seal", "V", [](SPUContext* c, const VV& x) { return One(m::v2s(c, x[0])); }, "w"},
    {"mul_private", "SV", [](SPUContext* c, const VV& x) { return One(hal::_mul(c, x[0], x[1])); }, "ww"},
    {"perm", "SM", [](SPUContext* c, const VV& x) { return One(m::perm_ss(c, x[0], x[1]).value()); }, "ww"},
    {"inv_perm", "SM", [](SPUContext* c, const VV& x) { return One(m::inv_perm_ss(c, x[0], x[1]).value()); }, "ww"},
  };
  auto w = MakeWorld(p, FieldOf(k), nullptr, [&](const yacl::link::shim::Msg& m, std::string& payload) {
    if (!recording) return;
    inbox[m.dst][m.src].emplace_back(payload.begin(), payload.end());
  });
  for (int64_t s = 0; s < scale; ++s)
    for (auto& op : ops) {
      // the operations may be spread over several processes: "i/n"
      size_t no = static_cast<size_t>(&op - ops.data());
      std::string only = argc > 6 ? argv[6] : "";
      if (only.size() == 3 && only[1] == '/') { if (no % static_cast<size_t>(only[2] - '0') != static_cast<size_t>(only[0] - '0')) continue; }
      else if (!only.empty() && only != op.f) continue;
      NewCase();
      if (strchr(op.kinds, 'M')) { if (w->ctx[0]->hasKernel("rand_perm_m")) for (int q = 0; q < 4; ++q) Runs(*w, op); continue; }
      if (op.dom[strlen(op.dom) - 1] == 'c') { auto o2 = op; o2.dom = "ww"; o2.kinds = "SS"; Bias(*w, o2, false); continue; }
      Span(*w, op, k == 32 ? 3 : 2);
      for (int q = 0; q < 2; ++q) Bias(*w, op);
      std::string f = op.f;
      if (f != "equal_bool" && f != "popcount") Runs(*w, op);
    }
  Close();
}
