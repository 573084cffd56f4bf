// Group-by aggregations, the block cipher and its tags (C24).
#include "mpc.h"

#include "libspu/kernel/hal/group_by_agg.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/soprf.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/semi2k/lowmc.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/utils/lowmc.h"
#include "libspu/mpc/utils/lowmc_utils.h"
#include "libspu/mpc/utils/ring_ops.h"

using namespace drv;
namespace m = spu::mpc;
namespace hal = spu::kernel::hal;
using VV = std::vector<Value>;
using Words_ = std::vector<u128>;

static u128 Mask(int k) { return k >= 128 ? ~u128(0) : (u128(1) << k) - 1; }
static Value Put(SPUContext* c, const Words_& v, const Shape& sh, char vis, size_t owner, spu::DataType dt) {
  auto x = Pub(c, v, sh);
  if (vis == 'V') x = m::p2v(c, x, owner);
  if (vis == 'S' || vis == 'B') x = m::p2s(c, x);
  if (vis == 'B') x = hal::_prefer_b(c, x);
  return x.setDtype(dt, true);
}
static Words_ Open(SPUContext* c, const Value& v) {
  auto o = v.isPublic() ? v : v.isPrivate() ? m::v2p(c, v) : m::s2p(c, v);
  return ToWords(o.data());
}
static std::string Err(World& w) {
  std::string err;
  for (auto& x : w.err) if (!x.empty() && x.find("peer stopped") == std::string::npos) err = x;
  return err.substr(0, 160);
}
static std::string Cols(const std::vector<Words_>& v, size_t n) {
  std::string s = "[";
  for (auto& x : v) { if (s.size() > 1) s += ','; s += WList(x, n); }
  return s + "]";
}

static void GroupBy(World& w, int k, int f) {
  NewCase();
  size_t B = w.bytes();
  int64_t n = Coin(10) ? 1 : Coin(20) ? RI(12, 20) : RI(2, 8);
  size_t nk = 1 + R(3), np = 1 + R(3);  // columns of one visibility and owner, at least one payload
  char pvis = "PVSS"[R(4)];
  size_t pown = R(w.n());
  bool avg = k > 32 && Coin(40), drop = avg && Coin();
  bool priv = Coin(70);
  size_t owner = R(w.n());
  std::vector<Words_> keys, pays;
  std::vector<spu::DataType> kd, pd;
  std::string pv;
  int64_t span = Coin(15) ? 0 : Coin() ? 2 : 6;
  bool wide = Coin(20);
  for (size_t j = 0; j < nk; ++j) {
    Words_ v;
    u128 off = wide ? Val(k) >> 1 : 0;
    for (int64_t i = 0; i < n; ++i) v.push_back((static_cast<u128>(static_cast<i128>(RI(-span, span))) + off) & Mask(k));
    keys.push_back(v);
    kd.push_back(k == 32 ? spu::DT_I32 : Coin(20) ? spu::DT_F32 : k == 64 || Coin() ? spu::DT_I64 : spu::DT_I32);
  }
  for (size_t j = 0; j < np; ++j) {
    bool fx = avg ? Coin(75) : Coin();
    Words_ v;
    int bits = fx ? f + 10 : 10;
    for (int64_t i = 0; i < n; ++i)
      v.push_back(avg ? static_cast<u128>(static_cast<i128>(static_cast<int64_t>(rng() >> (64 - bits)) - (int64_t(1) << (bits - 1)))) & Mask(k) : Val(k));
    pays.push_back(v);
    pd.push_back(fx ? (Coin(70) ? spu::DT_F32 : spu::DT_F64) : k == 32 ? spu::DT_I32 : Coin() ? spu::DT_I32 : spu::DT_I64);
    pv += pvis == 'S' ? "SB"[R(2)] : pvis;
  }
  std::vector<std::vector<Words_>> got(w.n());
  std::vector<std::string> forms(w.n());
  bool ok = w.Run([&](size_t r, SPUContext* c) {
    VV ks, ps;
    for (size_t j = 0; j < nk; ++j) ks.push_back(Put(c, keys[j], {n}, priv ? 'V' : 'P', owner, kd[j]));
    for (size_t j = 0; j < np; ++j) ps.push_back(Put(c, pays[j], {n}, pv[j], pown, pd[j]));
    auto y = avg ? hal::private_groupby_avg_1d(c, ks, ps, drop) : hal::private_groupby_sum_1d(c, ks, ps);
    for (auto& v : y) { got[r].push_back(Open(c, v)); forms[r] += std::to_string(static_cast<int>(v.dtype())) + ","; }
  });
  bool same = true;
  for (auto& g : got) same = same && g == got[0];
  auto res = ok ? got[0] : std::vector<Words_>{};
  std::vector<Words_> ok_(res.begin(), res.begin() + std::min(nk, res.size())), op_(res.begin() + std::min(nk, res.size()), res.end());
  auto isf = [](spu::DataType d) { return d == spu::DT_F32 || d == spu::DT_F64; };
  J e("gb");
  e.str("p", w.proto.name).i("k", k).i("f", f).b("avg", avg).b("drop", drop).str("pv", (priv ? "V" : "P") + (":" + pv)).b("ok", ok).str("err", Err(w)).b("same", same);
  e.raw("keys", Cols(keys, B)).raw("pays", Cols(pays, B)).raw("okeys", Cols(ok_, B)).raw("opays", Cols(op_, B));
  e.list("fxp", pd, [&](spu::DataType d) { return std::string(isf(d) ? "true" : "false"); });
}

static std::string Mats(const std::vector<NdArrayRef>& v) { std::string s = "["; for (auto& a : v) { if (s.size() > 1) s += ','; s += Elems(a); } return s + "]"; }
static FieldType FOf(int k) { return FieldOf(k); }

// the material of a cipher, then encryptions with it
static void Material(const m::LowMC& c, int k, int64_t d) {
  J e("cipher");
  e.i("k", k).i("d", d).i("rounds", c.rounds()).i("boxes", c.number_of_boxes()).i("blk", c.data_block_size());
  e.raw("L", Mats(c.Lmat())).raw("C", Mats(c.RoundConstants())).raw("K", Mats(c.Kmat()));
}
static Words_ Blocks(size_t n, int k) { Words_ v; for (size_t i = 0; i < n; ++i) v.push_back(Coin(15) ? u128(R(3)) : Coin(15) ? Mask(k) : R128() & Mask(k)); return v; }
static void Fill(NdArrayRef& a, const Words_& v) { for (size_t i = 0; i < v.size(); ++i) memcpy(const_cast<u8*>(ElemPtr(a, static_cast<int64_t>(i))), &v[i], a.elsize()); }

static void Plain(int k) {
  NewCase();
  int64_t d = k == 32 ? (Coin() ? 20 : 30) : Pick(std::vector<int64_t>{20, 30, 40});
  bool dec = Coin(70);
  u128 seed = R128(), key = Coin(10) ? 0 : R128();
  m::LowMC c(FOf(k), seed, d, 128, dec), c2(FOf(k), seed, d, 128, dec);
  Material(c, k, d);
  bool again = Mats(c.Lmat()) == Mats(c2.Lmat()) && Mats(c.RoundConstants()) == Mats(c2.RoundConstants()) && Mats(c.Kmat()) == Mats(c2.Kmat());
  c.set_key(key);
  c2.set_key(key);
  Shape sh = Coin() ? Shape{RI(1, 3)} : Shape{RI(1, 2), RI(1, 2)};
  auto a = RLayout(spu::makeType<spu::RingTy>(FOf(k)), sh, k);
  auto x = Blocks(static_cast<size_t>(Numel(a)), k);
  Fill(a, x);
  auto y = c.encrypt(a);
  std::vector<Words_> back;
  if (dec) back = {ToWords(c.decrypt(y)), ToWords(c2.decrypt(a))};
  bool kept = ToWords(a) == x;
  J e("enc");
  e.str("how", "plain").b("ok", true).b("same", again && kept && y.shape() == sh).word("key", &key, 16).raw("x", WList(x, k / 8)).raw("y", WList(ToWords(y), k / 8));
  e.raw("back", Cols(back, k / 8));
}
static void Shared(World& w, int k) {
  NewCase();
  u128 seed = R128(), key = 0;
  Words_ part;
  for (size_t r = 0; r < w.n(); ++r) { part.push_back(R128()); key ^= part.back(); }
  Shape sh = Coin() ? Shape{RI(1, 3)} : Shape{RI(1, 2), RI(1, 2)};
  auto x = Blocks(static_cast<size_t>(sh.numel()), k);
  m::LowMC c(FOf(k), seed, m::get_data_complexity(sh.numel()));
  std::vector<Words_> got(w.n());
  bool ok = w.Run([&](size_t r, SPUContext* ctx) {
    auto v = m::p2s(ctx, Pub(ctx, x, sh));
    v = hal::_prefer_b(ctx, v);
    spu::KernelEvalContext kc(ctx);
    auto y = m::semi2k::LowMcB().encrypt(&kc, v.data(), part[r], seed);
    got[r] = ToWords(m::s2p(ctx, Value(y, spu::DT_INVALID)).data());
  });
  bool same = true;
  for (auto& g : got) same = same && g == got[0];
  Material(c, k, m::get_data_complexity(sh.numel()));
  J e("enc");
  e.str("how", "shared").str("err", Err(w)).b("ok", ok).b("same", same).word("key", &key, 16).raw("x", WList(x, k / 8)).raw("y", WList(ok ? got[0] : Words_{}, k / 8)).raw("back", "[]");
}
static void Tags(World& w, int k) {
  NewCase();
  bool many = Coin(60);
  size_t cols = many ? 1 + R(k == 32 ? 5 : k == 64 ? 4 : 3) : 1;
  Shape sh = Coin(8) ? Shape{} : Coin(60) ? Shape{RI(2, 9)} : Coin(30) ? Shape{1} : Shape{RI(1, 3), RI(1, 4)};
  size_t n = static_cast<size_t>(sh.numel());
  std::vector<Words_> in;
  std::string vis;
  std::vector<size_t> ow;
  bool near = Coin();  // rows that differ in one column or one bit
  for (size_t j = 0; j < cols; ++j) {
    Words_ base = {Val(k), Val(k)}, v;
    if (near) base[1] = base[0] ^ (u128(1) << R(static_cast<u64>(k)));
    for (size_t i = 0; i < n; ++i) v.push_back(Coin(10) ? Val(k) : base[R(2)]);
    in.push_back(v);
    vis += "PVSB"[R(4)];
    ow.push_back(R(w.n()));
  }
  auto dt = k == 32 || Coin() ? spu::DT_I32 : spu::DT_I64;
  std::vector<Words_> got(w.n());
  bool form = true;
  bool ok = w.Run([&](size_t r, SPUContext* c) {
    VV xs;
    for (size_t j = 0; j < cols; ++j) xs.push_back(Put(c, in[j], sh, vis[j], ow[j], dt));
    auto y = many ? hal::soprf(c, xs) : hal::soprf(c, xs[0]);
    if (y.shape() != sh || y.dtype() != dt || !y.isSecret()) form = false;
    got[r] = ToWords(m::s2p(c, y).data());
  });
  bool same = true;
  for (auto& g : got) same = same && g == got[0];
  J e("tags");
  e.str("p", w.proto.name).i("k", k).str("vis", vis).b("many", many).b("ok", ok).str("err", Err(w)).b("same", same && form).raw("in", Cols(in, k / 8)).raw("out", WList(ok ? got[0] : Words_{}, 16));
}

int main(int argc, char** argv) {
  Open(argc, argv);
  int n = atoi(argv[3]);
  std::string what = argv[4];
  for (char ch : what) rng.discard(static_cast<unsigned>(ch));
  if (what == "PLAIN") {
    for (int k : {32, 64, 128}) for (int i = 0; i < n; ++i) Plain(k);
    Close();
    return 0;
  }
  std::string name = what.substr(0, what.size() - 1);
  auto p = P(name, static_cast<size_t>(what.back() - '0'));
  for (int k : {64, 32, 128}) {
    if (k == 128 && name == "SWIFT") continue;
    auto w = MakeWorld(p, FieldOf(k));
    int f = static_cast<int>(w->ctx[0]->getFxpBits());
    auto fresh = [&] { for (auto& e : w->err) if (!e.empty()) { w = MakeWorld(p, FieldOf(k)); break; } };
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < 3; ++j) { GroupBy(*w, k, f); fresh(); }
      if (name == "SEMI2K") { if (i % 2 == 0) { Shared(*w, k); fresh(); } Tags(*w, k); fresh(); }
    }
  }
  Close();
}
