PRE = '''#include <cstring>
#include "mpc.h"
#include "brpc/shim.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
'''
TTP = """
using namespace drv;
using namespace spu::mpc::semi2k;
using Bufs = std::vector<std::vector<yacl::Buffer>>;
// runs f with one remote-dealer client per party
static bool Ttp(size_t n, size_t adjust, const std::function<void(size_t, Beaver&)>& f) {
  beaver::ttp_server::ServerOptions so;
  so.port = 24123;
  so.asym_crypto_schema = "sm2";
  so.server_private_key = yacl::Buffer(std::string("PRI:k"));
  auto server = beaver::ttp_server::RunServer(so);
  auto links = yacl::link::shim::MakeWorld("d", n);
  std::vector<std::thread> ts;
  std::vector<int> bad(n, 0);
  for (size_t me = 0; me < n; ++me)
    ts.emplace_back([&, me] {
      yacl::shim::SetThreadParty(static_cast<int64_t>(me));
      try {
        BeaverTtp::Options o;
        o.server_host = "127.0.0.1:24123";
        o.asym_crypto_schema = "sm2";
        o.server_public_key = yacl::Buffer(std::string("PUB:k"));
        o.adjust_rank = adjust;
        BeaverTtp b(links[me], o);
        f(me, b);
      } catch (const std::exception& e) { bad[me] = 1; yacl::link::shim::Close(links[me]); }
    });
  for (auto& t : ts) t.join();
  for (int b : bad) if (b) return false;
  return true;
}
template <class T> static T At(const yacl::Buffer& b, size_t i) { T v; memcpy(&v, b.data<uint8_t>() + i * sizeof(T), sizeof(T)); return v; }
"""
KER = """
using namespace drv;
static NdArrayRef Sl(const NdArrayRef& a, spu::Index s, spu::Index e, spu::Strides st) { return a.slice(s, e, st); }
"""
SEEDS = [
dict(id="c11-cache-strides", property="C11",
  edits=[("src/libspu/mpc/semi2k/beaver/beaver_cache.cc", """  std::memcpy(key_prefix.data() + pos, x.strides().data(), strides_size);
""", """  std::memcpy(key_prefix.data() + pos, x.shape().data(), strides_size);
""")],
  needs="two cached views of one tensor that start at the same element, have the same shape and different strides, with a later product that uses the first of them again",
  breaks="the opened difference of one view is used for the other, so the product is wrong",
  group="mpc", pre=PRE, demo=KER + """
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64);
  std::vector<u128> v(16);
  for (size_t i = 0; i < 16; ++i) v[i] = 3 * i + 1;
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    auto x = spu::mpc::p2s(c, Pub(c, v, {4, 4}));
    auto y = spu::mpc::p2s(c, Pub(c, {5, 6, 7, 8}, {2, 2}));
    spu::dynDispatch(c, "beaver_cache", x, true);
    Value a(Sl(x.data(), {0, 0}, {2, 2}, {1, 1}), spu::DT_INVALID), b(Sl(x.data(), {0, 0}, {4, 4}, {2, 2}), spu::DT_INVALID);
    auto run = [&](const Value& s, size_t step) {
      auto z = ToWords(spu::dynDispatch(c, "a2p", spu::dynDispatch(c, "mul_aa", s, y)).data());
      for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) CHECK(z[2 * i + j] == v[4 * i * step + j * step] * (5 + 2 * i + j));
    };
    run(a, 1); run(b, 2); run(a, 1); run(b, 2);
    spu::dynDispatch(c, "beaver_cache", x, false);
  });
  CHECK(ok);
  return 0;
}"""),
dict(id="c11-block-counter", property="C11",
  edits=[("src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc", """      if (rank < world_size - 1) {
        t = prgReplayArray""", """      if (rank < world_size - 1 || world_size == 2) {
        t = prgReplayArray""")],
  needs="a request to the remote dealer that is longer than one 32 MB block, with two parties", breaks="from the second block on the dealer adjusts with the randomness of the first, so the tuples are wrong there",
  group="mpc", pre=PRE, demo=TTP + """
int main(int argc, char** argv) {
  Open(argc, argv);
  const int64_t size = (int64_t(32) << 20) / 16 + 500;
  Bufs out(2);
  CHECK(Ttp(2, 0, [&](size_t me, Beaver& b) {
    auto p = b.Square(FieldType::FM128, size);
    out[me].push_back(std::move(p.first)); out[me].push_back(std::move(p.second));
  }));
  for (int64_t i : {int64_t(0), int64_t(77), size - 501, size - 500, size - 499, size - 1}) {
    u128 a = At<u128>(out[0][0], i) + At<u128>(out[1][0], i), b = At<u128>(out[0][1], i) + At<u128>(out[1][1], i);
    CHECK(a * a == b);
  }
  return 0;
}"""),
dict(id="c11-split-header", property="C11",
  edits=[("src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc", """    std::memcpy(flags_.data() + flags_pos_, data, cp_size);
    flags_pos_ += cp_size;
    if (flags_pos_ == flags_.size()) {
      flags_pos_ = 0;
      int64_t chunk_size = 0;
      std::memcpy(&chunk_size, &flags_[1], sizeof(int64_t));
""", """    std::memcpy(flags_.data() + flags_pos_, data, cp_size);
    flags_pos_ += cp_size;
    if (flags_pos_ == flags_.size()) {
      flags_pos_ = 0;
      uint8_t chunk_size = 0;
      std::memcpy(&chunk_size, &flags_[1], sizeof(chunk_size));
      if (cp_size == flags_.size()) {
        int64_t whole = 0;
        std::memcpy(&whole, &flags_[1], sizeof(int64_t));
        chunk_remain_size_ = whole;
      } else {
        chunk_remain_size_ = chunk_size;
      }
"""), ("src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc", """      chunk_remain_size_ = chunk_size;
      if (flags_[0] == 0) {""", """      if (flags_[0] == 0) {""")],
  needs="a reply whose block header arrives in two pieces and whose block is 256 bytes or longer", breaks="the block's length is misread and the request fails or the data is shifted",
  group="mpc", pre=PRE, demo=TTP + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (size_t piece : {9, 64, 5, 3, 1}) {
    brpc::shim::SetPieces([piece](size_t left) -> size_t { return std::min(left, piece); });
    const int64_t size = 100;
    Bufs out(3);
    CHECK(Ttp(3, 1, [&](size_t me, Beaver& b) {
      auto p = b.Mul(FieldType::FM64, size);
      out[me].push_back(std::move(std::get<0>(p))); out[me].push_back(std::move(std::get<1>(p))); out[me].push_back(std::move(std::get<2>(p)));
    }));
    for (int64_t i = 0; i < size; ++i) {
      uint64_t s[3] = {0, 0, 0};
      for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) s[q] += At<uint64_t>(out[p][q], i);
      CHECK(s[0] * s[1] == s[2]);
    }
  }
  return 0;
}"""),
dict(id="c11-perm-counter", property="C11",
  edits=[("src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc", """  counter_ = yacl::DeserializeVars<PrgCounter>(new_counter_buf);
""", """  if (perm_rank == 0 || lctx_->WorldSize() == 2) {
    counter_ = yacl::DeserializeVars<PrgCounter>(new_counter_buf);
  }
""")],
  needs="three or more parties, a permutation pair owned by another party than the first, and any later request", breaks="the parties that know no permutation go on with another counter than the dealer, so every later tuple is wrong",
  group="mpc", pre=PRE, demo=TTP + """
int main(int argc, char** argv) {
  Open(argc, argv);
  for (size_t n : {2, 3}) for (size_t rank = 0; rank < n; ++rank) {
    auto links = yacl::link::shim::MakeWorld("e" + std::to_string(n) + std::to_string(rank), n);
    Bufs out(n);
    std::vector<std::thread> ts;
    for (size_t me = 0; me < n; ++me)
      ts.emplace_back([&, me] {
        yacl::shim::SetThreadParty(static_cast<int64_t>(me));
        BeaverTfpUnsafe b(links[me]);
        b.PermPair(FieldType::FM64, 9, rank);
        auto p = b.Square(FieldType::FM64, 5);
        out[me].push_back(std::move(p.first)); out[me].push_back(std::move(p.second));
      });
    for (auto& t : ts) t.join();
    for (int64_t i = 0; i < 5; ++i) {
      uint64_t a = 0, b = 0;
      for (auto& o : out) { a += At<uint64_t>(o[0], i); b += At<uint64_t>(o[1], i); }
      CHECK(a * a == b);
    }
  }
  return 0;
}"""),
]
