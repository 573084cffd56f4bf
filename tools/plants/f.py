COMM = '''#include "mpc.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
'''
ARR = """
using namespace drv;
static NdArrayRef Arr(const spu::Type& t, const std::vector<u128>& v) {
  NdArrayRef a(t, Shape{static_cast<int64_t>(v.size())});
  for (size_t i = 0; i < v.size(); ++i) memcpy(a.data<uint8_t>() + i * a.elsize(), &v[i], static_cast<size_t>(a.elsize()));
  return a;
}
"""
SEEDS = [
dict(id="c06-reduce-gfmp", property="C06",
  edits=[("src/libspu/mpc/common/communicator.cc", """                     makeCompactStrides(in.shape()), kOffset);
      if (op == ReduceOp::ADD) {
        if (in.eltype().isa<GfmpTy>()) {
          gfmp_add_mod_(res, arr);
        } else {
          ring_add_(res, arr);
        }
""", """                     makeCompactStrides(in.shape()), kOffset);
      if (op == ReduceOp::ADD) {
        ring_add_(res, arr);
""")],
  needs="a sum over prime-field elements that reaches the modulus, to one root", breaks="the root gets a number that is not the sum in the field",
  group="mpc", pre=COMM, demo=ARR + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (size_t n : {2, 3}) {
    auto w = MakeWorld(P("SEMI2K", n), FieldType::FM64);
    bool ok = w->Run([&](size_t r, SPUContext* c) {
      auto* comm = c->getState<spu::mpc::Communicator>();
      const u128 p = (u128(1) << 61) - 1;
      auto x = Arr(spu::makeType<spu::GfmpTy>(FieldType::FM64), {p - 1 - r, p - 5, 7, p / 2 + r});
      auto y = comm->reduce(spu::mpc::ReduceOp::ADD, x, 0, "t");
      if (r != 0) return;
      u128 s[4] = {0, 0, 0, 0};
      for (size_t q = 0; q < n; ++q) { u128 v[4] = {p - 1 - q, p - 5, 7, p / 2 + q}; for (int i = 0; i < 4; ++i) s[i] = (s[i] + v[i]) % p; }
      for (int i = 0; i < 4; ++i) { uint64_t g; memcpy(&g, y.data<uint8_t>() + 8 * i, 8); CHECK(g == s[i]); }
    });
    CHECK(ok);
  }
  return 0;
}"""),
dict(id="c06-reduce-alias", property="C06",
  edits=[("src/libspu/mpc/common/communicator.cc", """  auto res = in.clone();
  if (getRank() == root) {""", """  auto res = array;
  if (getRank() == root) {""")],
  needs="an operand that is laid out compactly and is used again by the root after the reduction", breaks="the root's operand is overwritten with the result",
  group="mpc", pre=COMM, demo=ARR + """
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 3), FieldType::FM32);
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    auto* comm = c->getState<spu::mpc::Communicator>();
    auto x = Arr(spu::makeType<spu::RingTy>(FieldType::FM32), {r + 1, 10 * (r + 1), 100});
    for (size_t root = 0; root < 3; ++root) {
      auto y = comm->reduce(spu::mpc::ReduceOp::ADD, x, root, "t");
      auto g = ToWords(x);
      CHECK(g[0] == r + 1 && g[1] == 10 * (r + 1) && g[2] == 100);
      if (r == root) { auto h = ToWords(y); CHECK(h[0] == 6 && h[1] == 60 && h[2] == 300); }
    }
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c03-aby3-and-mask", property="C03",
  edits=[("src/libspu/mpc/aby3/boolean.cc", """        prg_state->fillPrssPair(r0.data(), r1.data(), r0.size(),
                                PrgState::GenPrssCtrl::Both);

        // z1 = (x1 & y1)""", """        prg_state->fillPrssPair(r0.data(), r1.data(),
                                r0.size() / sizeof(out_el_t) * sizeof(out_el_t),
                                PrgState::GenPrssCtrl::Both);

        // z1 = (x1 & y1)""")],
  needs="a number of elements that is no multiple of the element width, and a look at the messages of the last ones", breaks="the last elements of the cross terms are sent without a mask: the receiver learns bits of both operands",
  group="mpc", pre=COMM, demo="""
using namespace drv;
static std::mutex mu;
static std::map<size_t, std::string> sent;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("ABY3", 3), FieldType::FM32, nullptr, [&](const yacl::link::shim::Msg& m, std::string& p) { std::lock_guard<std::mutex> l(mu); sent[m.src] = p; });
  for (int64_t n = 1; n < 10; ++n) {
    std::vector<int> masked(static_cast<size_t>(n), 0);
    for (int rep = 0; rep < 5; ++rep) {
      std::vector<u128> x(static_cast<size_t>(n)), y(static_cast<size_t>(n));
      for (auto& v : x) v = R(1u << 30) + (1u << 30);
      for (auto& v : y) v = R(1u << 30) + (1u << 30);
      std::vector<NdArrayRef> a(3), b(3);
      CHECK(w->Run([&](size_t r, SPUContext* c) {
        auto p = spu::mpc::a2b(c, spu::mpc::p2a(c, Pub(c, x, {n})));
        auto q = spu::mpc::a2b(c, spu::mpc::p2a(c, Pub(c, y, {n})));
        a[r] = p.data().clone(); b[r] = q.data().clone();
        auto z = spu::mpc::and_bb(c, p, q);
        if (c->lctx()->Rank() == 0) CHECK(true);
      }));
      for (size_t r = 0; r < 3; ++r) {
        CHECK(sent[r].size() == static_cast<size_t>(n) * 4);
        for (int64_t i = 0; i < n; ++i) {
          uint32_t l[2], q[2], z;
          memcpy(l, a[r].data<uint8_t>() + 8 * i, 8); memcpy(q, b[r].data<uint8_t>() + 8 * i, 8); memcpy(&z, sent[r].data() + 4 * i, 4);
          if (z != ((l[0] & q[0]) ^ (l[0] & q[1]) ^ (l[1] & q[0]))) masked[static_cast<size_t>(i)]++;
        }
      }
    }
    for (auto m : masked) CHECK(m > 0);
  }
  return 0;
}"""),
dict(id="c03-aby3-perm-mask", property="C03",
  edits=[("src/libspu/mpc/aby3/permute.cc", """          delta[idx] = tmp[_pv_next[idx]] - a1[idx];
        });
        comm->sendAsync<el_t>(2, delta, "delta");""", """          delta[idx] = tmp[_pv_next[idx]];
        });
        comm->sendAsync<el_t>(2, delta, "delta");"""),
         ("src/libspu/mpc/aby3/permute.cc", "          gama[idx] = _in[_pv_next[idx]][0] + a1[idx];", "          gama[idx] = _in[_pv_next[idx]][0];")],
  needs="two sites that cancel out in the result; only the values one party receives change", breaks="party 1 receives a piece it already holds, permuted by the permutation it must not know",
  group="mpc", pre=COMM, demo="""
using namespace drv;
static std::mutex mu;
static std::vector<std::string> got;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("ABY3", 3), FieldType::FM64, nullptr, [&](const yacl::link::shim::Msg& m, std::string& p) { std::lock_guard<std::mutex> l(mu); if (m.src == 2 && m.dst == 1) got.push_back(p); });
  const int64_t n = 6;
  std::vector<u128> x(n);
  for (auto& v : x) v = R(1000);
  CHECK(w->Run([&](size_t r, SPUContext* c) {
    auto a = spu::mpc::p2a(c, Pub(c, x, {n}));
    auto p = spu::mpc::rand_perm_s(c, Shape{n}).value();
    { std::lock_guard<std::mutex> l(mu); if (r == 2) got.clear(); }
    auto z = spu::mpc::perm_ss(c, a, p).value();
    if (r != 1) return;
    // what party 1 holds of the operand, as multisets
    for (int s = 0; s < 2; ++s) {
      std::multiset<uint64_t> mine;
      for (int64_t i = 0; i < n; ++i) { uint64_t v; memcpy(&v, a.data().data<uint8_t>() + 16 * i + 8 * s, 8); mine.insert(v); }
      for (auto& m : got) {
        std::multiset<uint64_t> in;
        for (size_t i = 0; i + 8 <= m.size(); i += 8) { uint64_t v; memcpy(&v, m.data() + i, 8); in.insert(v); }
        CHECK(in != mine);
      }
    }
  }));
  return 0;
}"""),
dict(id="c03-semi2k-a2v-all", property="C03",
  edits=[("src/libspu/mpc/semi2k/arithmetic.cc", """    std::vector<std::vector<ring2k_t>> shares =
        comm->gather<ring2k_t>(share, rank, "a2v");  // comm => 1, k
    if (comm->getRank() == rank) {
      SPU_ENFORCE(shares.size() == comm->getWorldSize());
      NdArrayRef out(out_ty, in.shape());
      NdArrayView<ring2k_t> _out(out);
      pforeach(0, numel, [&](int64_t idx) {
        ring2k_t s = 0;
        for (auto& share : shares) {
          s += share[idx];
        }
        _out[idx] = s;
      });
""", """    auto sum = comm->allReduce<ring2k_t, std::plus>(share, "a2v");
    if (comm->getRank() == rank) {
      NdArrayRef out(out_ty, in.shape());
      NdArrayView<ring2k_t> _out(out);
      pforeach(0, numel, [&](int64_t idx) { _out[idx] = sum[idx]; });
""")],
  needs="a secret revealed to one party only, and a look at what the others receive", breaks="every party receives all the pieces of a value meant for one of them",
  group="mpc", pre=COMM, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  static std::atomic<int> other{0};
  static std::atomic<bool> on{false};
  auto w = MakeWorld(P("SEMI2K", 3), FieldType::FM64, nullptr, [&](const yacl::link::shim::Msg& m, std::string& p) { if (on && m.dst != 1 && p.size() >= 8) ++other; });
  CHECK(w->Run([&](size_t r, SPUContext* c) {
    auto s = spu::mpc::p2a(c, Pub(c, {5, 6, 7}, {3}));
    on = true;
    auto v = spu::mpc::a2v(c, s, 1);
    if (r == 1) { auto g = ToWords(v.data()); CHECK(g[0] == 5 && g[1] == 6 && g[2] == 7); }
  }));
  CHECK(other == 0);
  return 0;
}"""),
]
