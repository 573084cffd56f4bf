// parallel_for / parallel_reduce. Which chunks run, in which order and on which
// thread is a *schedule*; the harness selects it through yacl::shim::ParMode.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <utility>
#include <vector>
namespace yacl {
namespace shim {
enum class ParMode { kSequential, kChunkedReverse, kChunkedShuffled, kThreads };
void SetParMode(ParMode m, int64_t chunk, uint64_t seed);
void RunPar(int64_t begin, int64_t end, int64_t grain,
            const std::function<void(int64_t, int64_t)>& f);
std::vector<std::pair<int64_t, int64_t>> Chunks(int64_t begin, int64_t end);
}  // namespace shim
int get_num_threads();
void set_num_threads(int n);
template <class F>
void parallel_for(int64_t begin, int64_t end, int64_t grain, F&& f) {
  shim::RunPar(begin, end, grain, f);
}
template <class F>
void parallel_for(int64_t begin, int64_t end, F&& f) {
  shim::RunPar(begin, end, 1, f);
}
template <class R, class F, class SF>
R parallel_reduce(int64_t begin, int64_t end, int64_t grain, const F& f, const SF& sf) {
  auto cs = shim::Chunks(begin, end);
  std::vector<R> part(cs.size());
  shim::RunPar(0, static_cast<int64_t>(cs.size()), 1, [&](int64_t b, int64_t e) {
    for (int64_t i = b; i < e; ++i) part[i] = f(cs[i].first, cs[i].second);
  });
  R r = part.at(0);
  for (size_t i = 1; i < part.size(); ++i) r = sf(r, part[i]);
  return r;
}
}  // namespace yacl
