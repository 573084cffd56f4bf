SEEDS = [
dict(id="c15-log-zero", property="C15",
  edits=[("src/libspu/core/cexpr.cc", "return std::ceil((std::log2(operand_->eval(params))));", "const Value v = operand_->eval(params);\n    Value n = 0;\n    while (n < 62 && (static_cast<Value>(1) << (n + 1)) <= v) {\n      ++n;\n    }\n    return n + ((v & (v + 1)) != 0 && (v & (v - 1)) != 0 ? 1 : 0);")],
  needs="the logarithm of a number of the form 2^k - 1 with k > 1, for example log(7)", breaks="log(x) is one too small for x = 2^k - 1",
  group="core", demo='''
#include <cmath>
#include "libspu/core/cexpr.h"
int main(int, char**) {
  auto n = spu::ce::Variable("n", "");
  for (uint64_t v = 2; v < 70; ++v) CHECK(spu::ce::Log(n)->eval({{"n", v}}) == static_cast<spu::ce::Value>(std::ceil(std::log2(double(v)))));
}'''),
dict(id="c16-fork-id", property="C16",
  edits=[("src/libspu/core/object.cc", 'fmt::format("{}-{}", id_, child_counter_++)', 'fmt::format("{}-{}", pid_.empty() ? id_ : pid_, child_counter_++)')],
  needs="forking an object that is itself a fork", breaks="objects forked from different forks share their id",
  group="core", demo='''
#include <set>
#include "libspu/core/object.h"
int main(int, char**) {
  spu::Object root("root");
  std::set<std::string> ids{"root"};
  auto a = root.fork(), b = root.fork();
  CHECK(ids.insert(a->id()).second); CHECK(ids.insert(b->id()).second);
  for (int i = 0; i < 3; ++i) { CHECK(ids.insert(a->fork()->id()).second); CHECK(ids.insert(b->fork()->id()).second); }
}'''),
dict(id="c07-slice-step", property="C07",
  edits=[("src/libspu/core/ndarray_ref.cc", "    if (linear_strides * compact_strides[idx] != stripped_strides[idx]) {", "    if (idx > 0 &&\n        linear_strides * compact_strides[idx] != stripped_strides[idx]) {")],
  needs="a view of two or more non-trivial axes whose outermost stride is not the compact multiple, e.g. a window of columns", breaks="element access of such a view computes a linear address",
  group="core", demo='''
#include "libspu/core/ndarray_ref.h"
int main(int, char**) {
  spu::NdArrayRef a(spu::makeType<spu::RingTy>(spu::FieldType::FM64), {4, 6});
  for (int64_t i = 0; i < 24; ++i) a.data<int64_t>()[i] = i;
  auto w = a.slice({1, 2}, {4, 5}, {}).clone();
  for (int64_t i = 0; i < 3; ++i) for (int64_t j = 0; j < 3; ++j) CHECK(w.data<int64_t>()[i * 3 + j] == (i + 1) * 6 + j + 2);
  spu::NdArrayView<int64_t> v(a.slice({1, 2}, {4, 5}, {}));
  spu::NdArrayRef s = a.slice({1, 2}, {4, 5}, {});
  spu::NdArrayView<int64_t> sv(s);
  for (int64_t i = 0; i < 3; ++i) for (int64_t j = 0; j < 3; ++j) CHECK(sv[i * 3 + j] == (i + 1) * 6 + j + 2);
}'''),
dict(id="c08-chunk-boundary", property="C08",
  edits=[("src/libspu/core/value.cc", "size_t chunk_size = std::min(max_chunk_size, size - i * max_chunk_size);", "size_t chunk_size =\n          i + 1 < num_chunks ? max_chunk_size : size % max_chunk_size;")],
  needs="a tensor whose byte size is an exact multiple of the chunk size", breaks="the last chunk of such a tensor is written without content",
  group="core", demo='''
#include "libspu/core/value.h"
#include "libspu/mpc/common/pv2k.h"
int main(int, char**) {
  spu::Type::fromString("Ring<FM64>");
  spu::NdArrayRef a(spu::makeType<spu::mpc::Pub2kTy>(spu::FieldType::FM64), {4});
  for (int64_t i = 0; i < 4; ++i) a.data<int64_t>()[i] = 7 + i;
  spu::Value v(a, spu::DT_I64);
  for (size_t m : {3, 8, 16, 31, 32, 33}) {
    auto p = v.toProto(m);
    std::string all;
    for (auto& c : p.chunks) all += c.content();
    CHECK(all.size() == 32 && memcmp(all.data(), a.data(), 32) == 0);
  }
}'''),
dict(id="c17-tile-carry", property="C17",
  edits=[("src/libspu/mpc/utils/tiling_util.h", """        end_indices[dim] = end_indices[dim] % data.shape()[dim] + 1;
        if (end_indices[dim] != 1) {""", """        end_indices[dim] = start_indices[dim] + 1;
        if (dim > 0 && start_indices[dim - 1] == 0) {""")],
  needs="experimental_enable_intra_op_par and a tensor with two or more axes outside the sliced one, the outermost longer than two", breaks="slices are taken in the wrong order or twice",
  group="mpc", pre='#include "mpc.h"\n', demo="""
using namespace drv;
int main(int argc, char** argv) {
  Open(argc, argv);
  auto w = MakeWorld(P("ABY3", 3), FieldType::FM32, [](RuntimeConfig& c) { c.experimental_enable_intra_op_par = true; });
  Shape sh{3, 2, 50001};
  std::vector<u128> x(300006);
  for (size_t i = 0; i < x.size(); ++i) x[i] = (i / 50001) % 3 == 1 ? 1u << 31 : 5;
  bool ok = w->Run([&](size_t, SPUContext* c) {
    using namespace spu::mpc;
    auto r = ToWords(b2p(c, msb_a2b(c, p2a(c, Pub(c, x, sh)))).data());
    for (size_t i = 0; i < x.size(); ++i) CHECK(static_cast<uint32_t>(r[i]) == static_cast<uint32_t>(x[i] >> 31));
  });
  CHECK(ok);
  return 0;
}"""),
]
