// In-process stand-in for brpc: services are found by port in a registry, and
// a progressive response is delivered to the reader in pieces whose sizes the
// driver chooses (SetPieces), which is the freedom a network has.
#pragma once
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include <google/protobuf/service.h>
#include <google/protobuf/stubs/callback.h>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <atomic>
#define DECLARE_uint64(n) extern uint64_t FLAGS_##n
#define DECLARE_int64(n) extern int64_t FLAGS_##n
namespace butil {
class Status {
 public:
  Status() = default;
  Status(int c, const std::string& m) : c_(c), m_(m) {}
  template <class... A> Status(int c, const char* f, A&&...) : c_(c), m_(f) {}
  static Status OK() { return {}; }
  bool ok() const { return c_ == 0; }
  int error_code() const { return c_; }
  std::string error_str() const { return m_; }
  const char* error_cstr() const { return m_.c_str(); }
 private:
  int c_ = 0; std::string m_;
};
template <class T> using intrusive_ptr = std::shared_ptr<T>;
struct EndPoint {};
struct EndPointStr { const char* c_str() const { return "inproc"; } };
inline EndPointStr endpoint2str(const EndPoint&) { return {}; }
}
namespace brpc {
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
extern uint64_t FLAGS_max_body_size;
extern int64_t FLAGS_socket_max_unwritten_bytes;
struct CertInfo { std::string certificate, private_key; };
struct VerifyOptions { int verify_depth = 0; std::string ca_file_path; };
struct ChannelSSLOptions { CertInfo client_cert; VerifyOptions verify; std::string ciphers, protocols; };
struct ServerSSLOptions { CertInfo default_cert; VerifyOptions verify; };
struct ChannelOptions {
  std::string protocol; int32_t timeout_ms = 0, connect_timeout_ms = 0; int max_retry = 0;
  ChannelSSLOptions* mutable_ssl_options() { return &ssl; }
  ChannelSSLOptions ssl;
};
struct ServerOptions { bool has_builtin_services = true; ServerSSLOptions ssl; ServerSSLOptions* mutable_ssl_options() { return &ssl; } };
class ProgressiveReader {
 public:
  virtual ~ProgressiveReader() = default;
  virtual butil::Status OnReadOnePart(const void* data, size_t length) = 0;
  virtual void OnEndOfMessage(const butil::Status& status) = 0;
};
class ProgressiveAttachment {
 public:
  int Write(const void* d, size_t n) { data.append(static_cast<const char*>(d), n); return 0; }
  butil::EndPoint remote_side() const { return {}; }
  std::string data;
};
struct HttpHeader { void SetHeader(const std::string&, const std::string&) {} };
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override {}
  bool Failed() const override { return failed_; }
  std::string ErrorText() const override { return err_; }
  int ErrorCode() const { return failed_ ? 1 : 0; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override { failed_ = true; err_ = r; }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure*) override {}
  void response_will_be_read_progressively() {}
  HttpHeader& http_request() { return hdr_; }
  butil::EndPoint remote_side() const { return {}; }
  std::shared_ptr<ProgressiveAttachment> CreateProgressiveAttachment() { pa_ = std::make_shared<ProgressiveAttachment>(); return pa_; }
  void ReadProgressiveAttachmentBy(ProgressiveReader* r);
  std::shared_ptr<ProgressiveAttachment> pa_;
 private:
  bool failed_ = false; std::string err_; HttpHeader hdr_;
};
class ClosureGuard {
 public:
  explicit ClosureGuard(google::protobuf::Closure* c) : c_(c) {}
  ~ClosureGuard() { if (c_) c_->Run(); }
 private:
  google::protobuf::Closure* c_;
};
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const char* host, const ChannelOptions* o);
  void CallMethod(const google::protobuf::MethodDescriptor*, google::protobuf::RpcController*, const google::protobuf::Message*, google::protobuf::Message*, google::protobuf::Closure*) override;
 private:
  std::string host_;
};
class Server {
 public:
  ~Server();
  int AddService(google::protobuf::Service* s, ServiceOwnership) { svc_.reset(s); return 0; }
  ServerOptions options() const { return {}; }
  int Start(int port, const ServerOptions*);
  int Stop(int) { return 0; }
  int Join() { return 0; }
  struct Ep { int port; }; 
  Ep listen_address() const { return Ep{port_}; }
  void RunUntilAskedToQuit() {}
 private:
  int port_ = 0; std::unique_ptr<google::protobuf::Service> svc_;
};
namespace shim {
// Called once per RPC, may reorder nothing but may observe or replace the request.
using RpcHook = std::function<void(const std::string& method, const google::protobuf::Message& req)>;
void SetRpcHook(RpcHook);
using PieceFn = std::function<size_t(size_t remaining)>;  // next piece size
void SetPieces(PieceFn);
}
}
