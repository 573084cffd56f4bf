#include "brpc/shim.h"
#include <algorithm>
#include <map>
#include <mutex>
#include <stdexcept>
namespace brpc {
uint64_t FLAGS_max_body_size = 0;
int64_t FLAGS_socket_max_unwritten_bytes = 0;
namespace {
std::mutex& mu = *new std::mutex; auto& reg = *new std::map<int, google::protobuf::Service*>; int next_port = 20000;
shim::RpcHook hook; shim::PieceFn pieces;
}
namespace shim { void SetRpcHook(RpcHook h) { hook = std::move(h); } void SetPieces(PieceFn f) { pieces = std::move(f); } }
int Server::Start(int port, const ServerOptions*) { std::lock_guard<std::mutex> l(mu); port_ = port ? port : next_port++; reg[port_] = svc_.get(); return 0; }
Server::~Server() { std::lock_guard<std::mutex> l(mu); reg.erase(port_); }
int Channel::Init(const char* h, const ChannelOptions*) { host_ = h; return 0; }
void Channel::CallMethod(const google::protobuf::MethodDescriptor* m, google::protobuf::RpcController* c, const google::protobuf::Message* rq, google::protobuf::Message* rs, google::protobuf::Closure* done) {
  google::protobuf::Service* s = nullptr;
  { std::lock_guard<std::mutex> l(mu);
    auto p = host_.rfind(':'); int port = p == std::string::npos ? -1 : std::atoi(host_.c_str() + p + 1);
    auto it = reg.find(port); if (it != reg.end()) s = it->second; 
    if (hook) hook(m->name(), *rq); }
  if (!s) { c->SetFailed("no server"); return; }
  struct Nop : google::protobuf::Closure { void Run() override {} } nop;
  // the server sees its own copy, which it may not touch after done
  std::unique_ptr<google::protobuf::Message> copy(rq->New()); copy->CopyFrom(*rq);
  s->CallMethod(m, c, copy.get(), rs, done ? done : &nop);
}
void Controller::ReadProgressiveAttachmentBy(ProgressiveReader* r) {
  butil::Status st;
  if (pa_) {
    size_t pos = 0, n = pa_->data.size();
    while (pos < n) {
      size_t k = n - pos; if (pieces) { std::lock_guard<std::mutex> l(mu); k = std::clamp<size_t>(pieces(n - pos), 1, n - pos); }
      st = r->OnReadOnePart(pa_->data.data() + pos, k);
      if (!st.ok()) break;
      pos += k;
    }
  }
  r->OnEndOfMessage(st);
}
}
