// In-memory link with the ordering contract of yacl::link::Context: one FIFO
// per (context id, source, destination).
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/link/trace.h"
#include "yacl/utils/scope_guard.h"
namespace yacl::link {
struct Statistics {
  std::atomic<size_t> sent_bytes{0}, sent_actions{0}, recv_bytes{0}, recv_actions{0};
};
struct SSLOptions {};
struct ContextDesc {
  struct Party { std::string id, host; };
  std::string id; std::vector<Party> parties;
  uint32_t connect_retry_times = 10, connect_retry_interval_ms = 1000;
  uint64_t recv_timeout_ms = 30000;
};
class World;
class Context {
 public:
  Context(std::shared_ptr<World> w, std::string id, std::vector<size_t> ranks, size_t rank);
  const std::string& Id() const { return id_; }
  size_t Rank() const { return rank_; }
  size_t WorldSize() const { return ranks_.size(); }
  size_t NextRank(size_t s = 1) const { return (rank_ + s) % ranks_.size(); }
  size_t PrevRank(size_t s = 1) const { return (rank_ + ranks_.size() - s % ranks_.size()) % ranks_.size(); }
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) { SendAsync(dst, v, tag); }
  Buffer Recv(size_t src, std::string_view tag);
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id, const std::vector<std::string>& party_ids);
  std::string PartyIdByRank(size_t r) const { return std::to_string(ranks_[r]); }
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  const std::vector<size_t>& GlobalRanks() const { return ranks_; }
  const std::shared_ptr<World>& world() const { return world_; }
  uint64_t GetRecvTimeout() const { return 0; }
  void SetRecvTimeout(uint64_t) {}
  void SetThrottleWindowSize(size_t) {}
  void ConnectToMesh() {}
  void WaitLinkTaskFinish() {}

 private:
  std::shared_ptr<World> world_;
  std::string id_;
  std::vector<size_t> ranks_;  // global rank of each local rank
  size_t rank_;
  std::shared_ptr<Statistics> stats_;
  std::atomic<size_t> child_{0};
};
namespace shim {
struct Msg { std::string ctx; size_t src, dst; std::string tag; };
// Called (under the world's lock) for each message before it is queued; may
// change the payload (fault injection).
using SendHook = std::function<void(const Msg&, std::string&)>;
std::vector<std::shared_ptr<Context>> MakeWorld(const std::string& id, size_t n, SendHook hook = nullptr);
// A party that has stopped will not send again: pending receivers from it fail.
void Close(const std::shared_ptr<Context>& c);
// Messages sent and never received.
size_t Undelivered(const std::shared_ptr<Context>& c);
void SetRecvTimeoutMs(int ms);
// Called by the sender before, and by the receiver after, each message, outside any lock; may sleep.
using TraceHook = std::function<void(bool send, const std::string& ctx, size_t me, size_t peer, size_t bytes)>;
void SetTraceHook(TraceHook h);
}  // namespace shim
}  // namespace yacl::link
