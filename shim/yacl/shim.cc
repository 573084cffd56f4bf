#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <random>
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/tools/prg.h"
#include "yacl/link/link.h"
#include "yacl/shim.h"
#include "yacl/utils/parallel.h"
#include <openssl/sha.h>
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/crypto/pke/sm2_enc.h"

namespace yacl {
namespace {
uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Par { shim::ParMode mode = shim::ParMode::kSequential; int64_t chunk = 1; uint64_t seed = 0; std::atomic<uint64_t> calls{0}; } g_par;
std::atomic<int> g_threads{4};
std::atomic<uint64_t> g_base_seed{1};
std::atomic<uint64_t> g_seed_ctr{0};
thread_local int64_t t_party = -1;
thread_local uint64_t t_seed_ctr = 0;
shim::PrgHook g_prg_hook;
shim::SeedHook g_seed_hook;
std::atomic<int> g_recv_timeout{60000};
}  // namespace

int get_num_threads() { return g_threads; }
void set_num_threads(int n) { g_threads = n; }

namespace shim {
void SetParMode(ParMode m, int64_t chunk, uint64_t seed) { g_par.mode = m; g_par.chunk = std::max<int64_t>(chunk, 1); g_par.seed = seed; }
std::vector<std::pair<int64_t, int64_t>> Chunks(int64_t b, int64_t e) {
  std::vector<std::pair<int64_t, int64_t>> r;
  if (g_par.mode == ParMode::kSequential) { r.emplace_back(b, e); return r; }
  for (int64_t i = b; i < e; i += g_par.chunk) r.emplace_back(i, std::min(e, i + g_par.chunk));
  if (r.empty()) r.emplace_back(b, e);
  return r;
}
void RunPar(int64_t b, int64_t e, int64_t, const std::function<void(int64_t, int64_t)>& f) {
  if (b >= e) return;
  auto cs = Chunks(b, e);
  switch (g_par.mode) {
    case ParMode::kSequential: break;
    case ParMode::kChunkedReverse: std::reverse(cs.begin(), cs.end()); break;
    case ParMode::kChunkedShuffled: {
      std::mt19937_64 g(mix(g_par.seed + g_par.calls++)); std::shuffle(cs.begin(), cs.end(), g); break;
    }
    case ParMode::kThreads: {
      if (cs.size() == 1) break;
      std::vector<std::thread> ts; std::atomic<size_t> next{0}; std::exception_ptr ex; std::mutex mu;
      auto party = t_party;
      for (size_t t = 0; t < std::min<size_t>(4, cs.size()); ++t) ts.emplace_back([&] {
        t_party = party;
        for (size_t i; (i = next++) < cs.size();) { try { f(cs[i].first, cs[i].second); } catch (...) { std::lock_guard<std::mutex> l(mu); ex = std::current_exception(); } }
      });
      for (auto& t : ts) t.join();
      if (ex) std::rethrow_exception(ex);
      return;
    }
  }
  for (auto& c : cs) f(c.first, c.second);
}
void SetBaseSeed(uint64_t s) { g_base_seed = s; g_seed_ctr = 0; }
void SetThreadParty(int64_t p) { t_party = p; t_seed_ctr = 0; }
int64_t ThreadParty() { return t_party; }
void SetPrgHook(PrgHook h) { g_prg_hook = std::move(h); }
void SetSeedHook(SeedHook h) { g_seed_hook = std::move(h); }
}  // namespace shim

namespace crypto {
uint128_t SecureRandSeed() {
  uint64_t lane = t_party >= 0 ? static_cast<uint64_t>(t_party) + 1 : 0;
  uint64_t c = t_party >= 0 ? t_seed_ctr++ : g_seed_ctr++;
  uint64_t k = mix(g_base_seed + mix(lane * 0x10001 + 7) + mix(c ^ 0x5555aaaa5555aaaaULL));
  uint128_t r = MakeUint128(mix(k ^ lane), mix(k + 0x1234567 + c));
  if (g_seed_hook) g_seed_hook(t_party, r);
  return r;
}
uint64_t FillPRandBytes(uint128_t seed, uint64_t iv, uint64_t count, void* p, size_t n) {
  auto* o = static_cast<uint8_t*>(p);
  uint64_t nb = (n + 15) / 16;
  auto [hi, lo] = DecomposeUInt128(seed);
  for (uint64_t i = 0; i < nb; ++i) {
    uint64_t c = count + i;
    uint64_t a = mix(lo ^ mix(hi + mix(c) + mix(iv ^ 0xabcdef)));
    uint64_t w[2] = {a, mix(a ^ hi ^ (c * 0x2545F4914F6CDD1DULL))};
    std::memcpy(o + i * 16, w, std::min<size_t>(16, n - i * 16));
  }
  if (g_prg_hook) g_prg_hook(shim::PrgCall{t_party, seed, iv, count, n}, o);
  return count + nb;
}
uint128_t SymmetricCrypto::Encrypt(uint128_t in) const {
  auto [kh, kl] = DecomposeUInt128(key_ ^ (iv_ * 3));
  auto [ih, il] = DecomposeUInt128(in);
  uint64_t a = mix(kl ^ mix(kh + mix(il ^ mix(ih + 99)))), b = mix(a ^ kh ^ mix(ih ^ kl));
  return MakeUint128(b, a);
}
std::vector<uint8_t> ShimSha256(const std::string& s) {
  std::vector<uint8_t> r(32); SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), r.data()); return r;
}
std::vector<uint8_t> Sm2Encryptor::Encrypt(ByteContainerView d) {
  std::vector<uint8_t> m(reinterpret_cast<const uint8_t*>(d.data()), reinterpret_cast<const uint8_t*>(d.data()) + d.size());
  auto pad = ShimSha256("pad" + id_);
  for (size_t i = 0; i < m.size(); ++i) m[i] ^= pad[i % 32];
  auto tag = ShimSha256("tag" + id_ + std::string(m.begin(), m.end()));
  m.insert(m.end(), tag.begin(), tag.end());
  return m;
}
std::vector<uint8_t> Sm2Decryptor::Decrypt(ByteContainerView d) {
  std::vector<uint8_t> m(reinterpret_cast<const uint8_t*>(d.data()), reinterpret_cast<const uint8_t*>(d.data()) + d.size());
  YACL_ENFORCE(m.size() >= 32);
  std::vector<uint8_t> t(m.end() - 32, m.end()); m.resize(m.size() - 32);
  YACL_ENFORCE(t == ShimSha256("tag" + id_ + std::string(m.begin(), m.end())));
  auto pad = ShimSha256("pad" + id_);
  for (size_t i = 0; i < m.size(); ++i) m[i] ^= pad[i % 32];
  return m;
}
}  // namespace crypto

namespace link {
static shim::TraceHook g_trace;
class World {
 public:
  size_t n = 0;
  shim::SendHook hook;
  std::mutex mu;
  std::condition_variable cv;
  std::map<std::tuple<std::string, size_t, size_t>, std::deque<std::string>> q;
  std::set<size_t> closed;
  size_t pending = 0;
};
Context::Context(std::shared_ptr<World> w, std::string id, std::vector<size_t> ranks, size_t rank)
    : world_(std::move(w)), id_(std::move(id)), ranks_(std::move(ranks)), rank_(rank), stats_(std::make_shared<Statistics>()) {}
void Context::SendAsync(size_t dst, ByteContainerView v, std::string_view tag) {
  YACL_ENFORCE(dst < ranks_.size() && dst != rank_, "bad destination");
  std::string s(reinterpret_cast<const char*>(v.data()), v.size());
  stats_->sent_bytes += s.size(); stats_->sent_actions++;
  if (g_trace) g_trace(true, id_, ranks_[rank_], ranks_[dst], s.size());
  std::lock_guard<std::mutex> l(world_->mu);
  if (world_->hook) world_->hook(shim::Msg{id_, ranks_[rank_], ranks_[dst], std::string(tag)}, s);
  world_->q[{id_, ranks_[rank_], ranks_[dst]}].push_back(std::move(s));
  world_->pending++;
  world_->cv.notify_all();
}
Buffer Context::Recv(size_t src, std::string_view) {
  YACL_ENFORCE(src < ranks_.size() && src != rank_, "bad source");
  std::unique_lock<std::mutex> l(world_->mu);
  auto& d = world_->q[{id_, ranks_[src], ranks_[rank_]}];
  bool ok = world_->cv.wait_for(l, std::chrono::milliseconds(g_recv_timeout.load()),
                                [&] { return !d.empty() || world_->closed.count(ranks_[src]) > 0; });
  if (!ok) throw IoError("link: receive timed out");
  if (d.empty()) throw IoError("link: peer stopped");
  std::string s = std::move(d.front());
  d.pop_front();
  world_->pending--;
  stats_->recv_bytes += s.size(); stats_->recv_actions++;
  l.unlock();
  if (g_trace) g_trace(false, id_, ranks_[rank_], ranks_[src], s.size());
  return Buffer(s.data(), s.size());
}
std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  std::string nid = id_ + "-" + (id.empty() ? std::to_string(child_++) : id);
  return std::make_unique<Context>(world_, nid, ranks_, rank_);
}
std::unique_ptr<Context> Context::SubWorld(std::string_view id, const std::vector<std::string>& ids) {
  std::vector<size_t> rs; size_t me = 0; bool found = false;
  for (auto& p : ids) { size_t g = std::stoul(p); if (g == ranks_[rank_]) { me = rs.size(); found = true; } rs.push_back(g); }
  YACL_ENFORCE(found);
  return std::make_unique<Context>(world_, id_ + "/" + std::string(id), rs, me);
}
std::vector<Buffer> AllGather(const std::shared_ptr<Context>& c, ByteContainerView in, std::string_view tag) {
  size_t n = c->WorldSize(), r = c->Rank();
  std::vector<Buffer> out(n);
  for (size_t i = 1; i < n; ++i) c->SendAsync((r + i) % n, in, tag);
  out[r] = Buffer(in.data(), in.size());
  for (size_t i = 1; i < n; ++i) out[(r + n - i) % n] = c->Recv((r + n - i) % n, tag);
  return out;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  size_t n = c->WorldSize(), r = c->Rank();
  std::vector<Buffer> out;
  if (r == root) {
    out.resize(n);
    out[r] = Buffer(in.data(), in.size());
    for (size_t i = 0; i < n; ++i) if (i != r) out[i] = c->Recv(i, tag);
  } else {
    c->SendAsync(root, in, tag);
  }
  return out;
}
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag) {
  size_t n = c->WorldSize(), r = c->Rank();
  if (r != root) return c->Recv(root, tag);
  for (size_t i = 0; i < n; ++i) if (i != r) c->SendAsync(i, in, tag);
  return Buffer(in.data(), in.size());
}
void Barrier(const std::shared_ptr<Context>& c, std::string_view tag) { AllGather(c, ByteContainerView("b"), tag); }
namespace shim {
std::vector<std::shared_ptr<Context>> MakeWorld(const std::string& id, size_t n, SendHook hook) {
  auto w = std::make_shared<World>(); w->n = n; w->hook = std::move(hook);
  std::vector<size_t> rs(n); for (size_t i = 0; i < n; ++i) rs[i] = i;
  std::vector<std::shared_ptr<Context>> v;
  for (size_t i = 0; i < n; ++i) v.push_back(std::make_shared<Context>(w, id, rs, i));
  return v;
}
void Close(const std::shared_ptr<Context>& c) {
  std::lock_guard<std::mutex> l(c->world()->mu);
  c->world()->closed.insert(c->GlobalRanks()[c->Rank()]);
  c->world()->cv.notify_all();
}
size_t Undelivered(const std::shared_ptr<Context>& c) { std::lock_guard<std::mutex> l(c->world()->mu); return c->world()->pending; }
void SetTraceHook(TraceHook h) { g_trace = std::move(h); }
void SetRecvTimeoutMs(int ms) { g_recv_timeout = ms; }
}  // namespace shim
}  // namespace link
}  // namespace yacl
