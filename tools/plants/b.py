RUN = '#include "mpc.h"\n'
SEEDS = [
dict(id="c01-aby3-lshift-bits", property="C01",
  edits=[("src/libspu/mpc/aby3/boolean.cc", "in_ty->nbits() + *std::max_element(bits.begin(), bits.end()),", "in_ty->nbits() + (bits.size() > 4 ? bits.back() : *std::max_element(bits.begin(), bits.end())),")],
  needs="a boolean ABY3 sharing narrower than the ring shifted left by one amount per element, more than four elements, the largest amount not last", breaks="high bits of some elements are lost",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("ABY3", 3), FieldType::FM64);
  std::vector<u128> x{1, 1, 1, 1, 1};
  bool ok = w->Run([&](size_t, SPUContext* c) {
    using namespace spu::mpc;
    auto b = p2b(c, Pub(c, x, {5}));
    auto r = ToWords(b2p(c, lshift_b(c, b, {9, 40, 3, 33, 2})).data());
    CHECK(r[0] == 1 << 9); CHECK(r[1] == u128(1) << 40); CHECK(r[2] == 8); CHECK(r[3] == u128(1) << 33); CHECK(r[4] == 4);
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c01-semi2k-trunc-range", property="C01",
  edits=[("src/libspu/mpc/semi2k/arithmetic.cc", "          x += U(1) << (k - 2);", "          x += U(1) << (k - 3);"),
         ("src/libspu/mpc/semi2k/arithmetic.cc", "        y -= (U(1) << (k - 2 - bits));", "        y -= (U(1) << (k - 3)) >> bits;")],
  needs="truncating a negative number below -2^(k-3), an eighth of the ring", breaks="the result of the truncation is off by 2^(k-1-bits)",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 3), FieldType::FM64);
  std::vector<u128> x;
  for (int i = 0; i < 64; ++i) x.push_back(static_cast<uint64_t>((i % 2 ? 1 : -1) * ((int64_t(1) << 62) - (int64_t(i + 1) << 50))));
  bool ok = w->Run([&](size_t, SPUContext* c) {
    using namespace spu::mpc;
    auto r = ToWords(a2p(c, trunc_a(c, p2a(c, Pub(c, x, {64})), 18, spu::SignType::Unknown)).data());
    for (size_t i = 0; i < 64; ++i) {
      auto d = static_cast<int64_t>(static_cast<uint64_t>(r[i])) - (static_cast<int64_t>(static_cast<uint64_t>(x[i])) >> 18);
      CHECK(d >= -1 && d <= 1);
    }
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c02-semi2k-lshift-nbits", property="C02",
  edits=[("src/libspu/mpc/semi2k/boolean.cc", """  size_t out_nbits = in.eltype().as<BShare>()->nbits() +
                     *std::max_element(shift.begin(), shift.end());
  out_nbits = std::clamp(out_nbits, static_cast<size_t>(0), SizeOf(field) * 8);

  return makeBShare(ring_lshift""", """  size_t out_nbits = in.eltype().as<BShare>()->nbits() +
                     *std::min_element(shift.begin(), shift.end());
  out_nbits = std::clamp(out_nbits, static_cast<size_t>(0), SizeOf(field) * 8);

  return makeBShare(ring_lshift""")],
  needs="a left shift of a narrow boolean SEMI2K sharing by different amounts per element", breaks="the number of significant bits of the result is understated, so a later conversion or conjunction drops bits",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64);
  std::vector<u128> x{1, 1, 1};
  bool ok = w->Run([&](size_t, SPUContext* c) {
    using namespace spu::mpc;
    auto b = lshift_b(c, p2b(c, Pub(c, x, {3})), {2, 30, 17});
    CHECK(b.storage_type().as<spu::BShare>()->nbits() >= 31);
    auto r = ToWords(a2p(c, b2a(c, b)).data());
    CHECK(r[0] == 4); CHECK(r[1] == 1 << 30); CHECK(r[2] == 1 << 17);
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c05-aby3-ot-shared", property="C05",
  edits=[("src/libspu/mpc/aby3/conversion.cc", """        // reuse r's memory for m
        pforeach(0, numel, [&](int64_t idx) {
          const auto x = _in[idx];
          auto xx = x[0] ^ x[1];
""", """        // reuse r's memory for m
        bshr_el_t xx = 0;
        pforeach(0, numel, [&](int64_t idx) {
          const auto x = _in[idx];
          xx = x[0] ^ x[1];
""")],
  needs="a loop that really runs in parallel, with a particular interleaving of two iterations", breaks="a conversion of bits to arithmetic shares depends on the schedule of the threads",
  group="mpc", pre=RUN, demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("ABY3", 3), FieldType::FM64);
  yacl::shim::SetParMode(yacl::shim::ParMode::kThreads, 40, 1);
  for (int rep = 0; rep < 30; ++rep) {
    std::vector<u128> x(2000);
    for (auto& v : x) v = R(2);
    bool ok = w->Run([&](size_t, SPUContext* c) {
      using namespace spu::mpc;
      auto r = ToWords(a2p(c, b2a(c, p2b(c, Pub(c, x, {2000})))).data());
      for (size_t i = 0; i < 2000; ++i) CHECK(r[i] == x[i]);
    });
    CHECK(ok);
  }
  return 0;
}"""),
]
