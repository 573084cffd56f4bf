// Worlds of parties running the real protocols over the in-memory link.
#pragma once
#include <exception>
#include <functional>
#include <memory>
#include <thread>

#include "drv.h"
#include "yacl/link/test_util.h"
#include "yacl/shim.h"

#include "libspu/core/context.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/factory.h"
#include "libspu/mpc/spdz2k/protocol.h"

namespace drv {
using spu::FieldType;
using spu::NdArrayRef;
using spu::ProtocolKind;
using spu::RuntimeConfig;
using spu::Shape;
using spu::Sizes;
using spu::SPUContext;
using spu::Value;

struct Proto { const char* name; int kind; size_t n; };
inline const std::vector<Proto>& Protos() {
  static std::vector<Proto> p = {{"REF2K", ProtocolKind::REF2K, 2}, {"SEMI2K", ProtocolKind::SEMI2K, 2}, {"SEMI2K", ProtocolKind::SEMI2K, 3},
                                 {"ABY3", ProtocolKind::ABY3, 3}, {"SECURENN", ProtocolKind::SECURENN, 3}, {"SWIFT", ProtocolKind::SWIFT, 3},
                                 {"SPDZ2K", -1, 2}};
  return p;
}
inline Proto P(const std::string& name, size_t n) {
  for (auto& p : Protos()) if (p.name == name) { auto q = p; q.n = n; return q; }
  abort();
}

// Fresh secret seeds for every run of the parties (a lane of seeds starts over with every thread).
inline bool reseed_each = false;

struct World {
  Proto proto;
  FieldType field = FieldType::FM64;
  std::vector<std::shared_ptr<yacl::link::Context>> links;
  std::vector<std::unique_ptr<SPUContext>> own;
  std::vector<SPUContext*> ctx;
  std::vector<std::string> err;  // per party, of the last run

  size_t n() const { return links.size(); }
  size_t bytes() const { return spu::SizeOf(field); }

  // Runs f(rank) in one thread per party; an exception stops that party.
  bool Each(const std::function<void(size_t)>& f) {
    err.assign(n(), "");
    if (reseed_each) yacl::shim::SetBaseSeed(rng());
    std::vector<std::thread> ts;
    for (size_t r = 0; r < n(); ++r)
      ts.emplace_back([&, r] {
        yacl::shim::SetThreadParty(static_cast<int64_t>(r));
        try { f(r); }
        catch (const std::exception& e) { err[r] = e.what(); if (err[r].empty()) err[r] = "exception"; yacl::link::shim::Close(links[r]); }
      });
    for (auto& t : ts) t.join();
    for (auto& e : err) if (!e.empty()) return false;
    return true;
  }
  bool Run(const std::function<void(size_t, SPUContext*)>& f) { return Each([&](size_t r) { f(r, ctx[r]); }); }
};

inline RuntimeConfig MakeConf(const Proto& p, FieldType field) {
  RuntimeConfig c;
  c.protocol = static_cast<ProtocolKind>(p.kind < 0 ? static_cast<int>(ProtocolKind::SEMI2K) : p.kind);
  c.field = field;
  return c;
}
inline int64_t world_no = 0;
inline std::unique_ptr<World> MakeWorldL(const Proto& p, FieldType field, const std::vector<std::shared_ptr<yacl::link::Context>>& links,
                                         const std::function<void(RuntimeConfig&)>& tweak = nullptr) {
  auto w = std::make_unique<World>();
  w->proto = p; w->field = field; w->links = links;
  w->own.resize(p.n); w->ctx.resize(p.n);
  auto conf = MakeConf(p, field);
  if (tweak) tweak(conf);
  w->Each([&](size_t r) {
    w->own[r] = std::make_unique<SPUContext>(conf, links[r]);
    if (p.kind < 0) spu::mpc::regSpdz2kProtocol(w->own[r].get(), links[r]);
    else spu::mpc::Factory::RegisterProtocol(w->own[r].get(), links[r]);
    w->ctx[r] = w->own[r].get();
  });
  return w;
}
inline std::unique_ptr<World> MakeWorld(const Proto& p, FieldType field, const std::function<void(RuntimeConfig&)>& tweak = nullptr,
                                        yacl::link::shim::SendHook hook = nullptr) {
  return MakeWorldL(p, field, yacl::link::shim::MakeWorld("w" + std::to_string(++world_no), p.n, hook), tweak);
}
inline FieldType FieldOf(int k) { return k == 32 ? FieldType::FM32 : k == 64 ? FieldType::FM64 : FieldType::FM128; }

// a public value from plain words
inline Value Pub(SPUContext* ctx, const std::vector<u128>& v, const Shape& shape, spu::DataType dt = spu::DT_INVALID) {
  auto ty = spu::makeType<spu::mpc::Pub2kTy>(ctx->getField());
  NdArrayRef a(ty, shape);
  size_t es = spu::SizeOf(ctx->getField());
  for (size_t i = 0; i < v.size(); ++i) memcpy(a.data<u8>() + i * es, &v[i], es);
  return Value(a, dt);
}
inline std::vector<u128> Vals(size_t n, int k) { std::vector<u128> v(n); for (auto& x : v) x = Val(k); return v; }
inline std::vector<u128> ToWords(const NdArrayRef& a) {
  std::vector<u128> r;
  for (int64_t i = 0; i < Numel(a); ++i) { u128 v = 0; memcpy(&v, ElemPtr(a, i), std::min<size_t>(16, a.elsize())); r.push_back(v); }
  return r;
}
}  // namespace drv
