RUN = '''#include "mpc.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/polymorphic.h"
'''
SORT = """
using namespace drv;
namespace hal = spu::kernel::hal;
// sorts rows of the given keys (name of the visibility per key) and the row number, opens the row numbers
static std::vector<u128> Rows(World& w, std::vector<std::vector<u128>> keys, const char* vis, bool desc) {
  std::vector<u128> r;
  bool ok = w.Run([&](size_t me, SPUContext* c) {
    std::vector<Value> in;
    int64_t n = static_cast<int64_t>(keys[0].size());
    std::vector<u128> id;
    for (int64_t i = 0; i < n; ++i) id.push_back(i);
    for (size_t j = 0; j <= keys.size(); ++j) {
      auto p = Pub(c, j < keys.size() ? keys[j] : id, {n});
      p = j < keys.size() && vis[j] == 'V' ? spu::mpc::p2v(c, p, 1) : spu::mpc::p2s(c, p);
      in.push_back(p.setDtype(spu::DT_I64, true));
    }
    auto out = hal::simple_sort1d(c, in, desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending, static_cast<int64_t>(keys.size()), -1, false);
    auto x = ToWords(spu::mpc::s2p(c, out.back()).data());
    if (me == 0) r = x;
  });
  CHECK(ok);
  return r;
}
static void Try(World& w, std::vector<std::vector<u128>> keys, const char* vis, bool desc) {
  auto r = Rows(w, keys, vis, desc);
  CHECK(r.size() == keys[0].size());
  for (size_t i = 0; i + 1 < r.size(); ++i) {
    CHECK(r[i] < r.size() && r[i + 1] < r.size());
    for (auto& k : keys) {
      auto a = k[static_cast<size_t>(r[i])], b = k[static_cast<size_t>(r[i + 1])];
      if (a == b) continue;
      CHECK(desc ? a > b : a < b);
      break;
    }
  }
}
"""
SEEDS = [
dict(id="c13-rank-bits", property="C13",
  edits=[("src/libspu/kernel/hal/permute.cc", "cur_key.isSecret() ? valid_bits : Log2Floor(cur_key.numel()) + 2;", "cur_key.isSecret() ? valid_bits : Log2Floor(cur_key.numel()) + 1;")],
  needs="a radix sort by a private key followed by a secret one, with enough distinct private keys that a rank fills all its bits", breaks="the largest ranks are taken for negative: the rows come out in the wrong order",
  group="all", pre=RUN, demo=SORT + """
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64, [](RuntimeConfig& c) { c.sort_method = RuntimeConfig::SORT_RADIX; });
  for (bool d : {false, true}) {
    Try(*w, {{5, 3, 9, 1, 7}, {1, 1, 2, 2, 3}}, "VS", d);
    Try(*w, {{5, 3, 9, 1, 7, 11, 4}, {1, 1, 2, 2, 3, 4, 4}}, "VS", d);
  }
  return 0;
}"""),
dict(id="c13-third-key", property="C13",
  edits=[("src/libspu/kernel/hal/permute.cc", """      pre_equal = hal::bitwise_and(
          ctx, pre_equal, hal::equal(ctx, values[idx - 2], values[idx - 1]));
      auto current = scalar_cmp(ctx, values[idx], values[idx + 1]);""", """      pre_equal = hal::equal(ctx, values[idx - 2], values[idx - 1]);
      auto current = scalar_cmp(ctx, values[idx], values[idx + 1]);""")],
  needs="three sort keys under quick sort or the sorting network, and rows that differ in the first key but tie in the second", breaks="the third key decides between rows that the first key orders",
  group="all", pre=RUN, demo=SORT + """
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64, [](RuntimeConfig& c) { c.sort_method = RuntimeConfig::SORT_NETWORK; });
  for (bool d : {false, true}) {
    Try(*w, {{2, 1, 2, 1, 3, 1, 2}, {4, 4, 5, 4, 4, 5, 4}, {1, 9, 2, 8, 0, 3, 7}}, "SSS", d);
    Try(*w, {{2, 1, 3}, {4, 4, 4}, {1, 9, 5}}, "SSS", d);
  }
  return 0;
}"""),
dict(id="c13-merge-tail", property="C13",
  edits=[("src/libspu/kernel/hal/permute.cc", """      pass_vec.emplace_back(lo, hi);
      continue;
    }

    left = lo + 1;
    right = hi;

    auto offset = left;""", """      if (hi > lo + 1) pass_vec.emplace_back(lo, hi);
      continue;
    }

    left = lo + 1;
    right = hi;

    auto offset = left;""")],
  needs="a quick sort that splits off a part of exactly two rows", breaks="parts of two rows are not merged: neighbouring rows stay swapped",
  group="all", pre=RUN, demo=SORT + """
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64, [](RuntimeConfig& c) { c.sort_method = RuntimeConfig::SORT_QUICK; c.quick_sort_threshold = 3; });
  for (int i = 0; i < 12; ++i) Try(*w, {{5, 3, 9, 1, 7, 2, 8, 6, 4, 0, 11, 10}}, "S", i % 2 == 1);
  return 0;
}"""),
dict(id="c09-wide-cast", property="C09",
  edits=[("src/libspu/core/encoding.cc", "            _dst[idx] = static_cast<T>(src_value * kScale);", "            _dst[idx] = static_cast<T>(static_cast<int64_t>(src_value * kScale));")],
  needs="the 128-bit ring and a number whose fixed-point image does not fit 64 bits", breaks="large numbers are not encoded as themselves",
  group="mpc", demo="""
#include "libspu/core/encoding.h"
#include "libspu/core/ndarray_ref.h"
int main() {
  using namespace spu;
  for (double d : {1.0, -3.5, 1e6, 1e12, -2e13, 1e20, -1e28}) {
    std::vector<double> v{d}, back{0};
    auto r = encodeToRing(PtBufferView(v), FieldType::FM128, 26);
    PtBufferView out(static_cast<void*>(back.data()), PT_F64, Shape{1}, Strides{1});
    decodeFromRing(r, DT_F64, 26, &out);
    CHECK(back[0] == d);
  }
  return 0;
}"""),
dict(id="c10-set-twice", property="C10",
  edits=[("src/libspu/device/io.cc", """  unsynced_[name] = {convertToNdArray(bv), vtype,
                     static_cast<int>(sctx_->lctx()->Rank())};
""", """  unsynced_.insert({name, {convertToNdArray(bv), vtype,
                           static_cast<int>(sctx_->lctx()->Rank())}});
""")],
  needs="a host that sets the same name twice before it synchronises", breaks="the older value is kept",
  group="all", pre=RUN, demo="""
#include "libspu/device/io.h"
#include "libspu/kernel/hal/public_helper.h"
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("SEMI2K", 2), FieldType::FM64);
  std::vector<int64_t> got(2, 0);
  bool ok = w->Run([&](size_t r, SPUContext* c) {
    spu::device::ColocatedIo io(c);
    std::vector<int64_t> a{11}, b{22};
    if (r == 0) { io.hostSetVar("x", spu::PtBufferView(a), spu::VIS_PUBLIC); io.hostSetVar("x", spu::PtBufferView(b), spu::VIS_PUBLIC); }
    io.sync();
    got[r] = spu::kernel::hal::dump_public_as<int64_t>(c, io.deviceGetVar("x")).front();
  });
  CHECK(ok);
  CHECK(got[0] == 22); CHECK(got[1] == 22);
  return 0;
}"""),
dict(id="c10-bit-piece", property="C10",
  edits=[("src/libspu/mpc/aby3/io.cc", "    _s1[idx][1] = r2 & 0x1;", "    _s1[idx][1] = (in.get<bool>(idx) ^ r0[idx] ^ r1[idx] ^ (r1[idx] >> 1)) & 0x1;")],
  needs="ABY3 truth values whose pieces are used by an operation before they are combined", breaks="two parties hold different copies of the same piece: combining still works, computing does not",
  group="all", pre=RUN, demo="""
#include "libspu/device/io.h"
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto conf = MakeConf(P("ABY3", 3), FieldType::FM64);
  spu::device::IoClient io(3, conf);
  std::vector<u8> v(64, 1);
  auto s = io.makeShares(spu::PtBufferView(static_cast<const void*>(v.data()), spu::PT_I1, Shape{64}, spu::Strides{1}), spu::VIS_SECRET, -1);
  for (int p = 0; p < 3; ++p)
    for (int i = 0; i < 64; ++i) CHECK(ElemPtr(s[p].data(), i)[1] == ElemPtr(s[(p + 1) % 3].data(), i)[0]);
  return 0;
}"""),
]
