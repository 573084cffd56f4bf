// Functionality (not a secure protocol) of a base OT: the sender sends both
// blocks over the link and the receiver keeps the chosen one.
#pragma once
#include <cstring>
#include "absl/types/span.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/context.h"
namespace yacl::crypto {
inline void BaseOtSend(const std::shared_ptr<link::Context>& c, absl::Span<std::array<uint128_t, 2>> b) {
  for (auto& x : b) x = {SecureRandSeed(), SecureRandSeed()};
  c->SendAsync(c->NextRank(), ByteContainerView(b.data(), b.size() * 32), "BASE_OT");
}
inline void BaseOtRecv(const std::shared_ptr<link::Context>& c, const dynamic_bitset<uint128_t>& ch, absl::Span<uint128_t> b) {
  auto m = c->Recv(c->NextRank(), "BASE_OT");
  YACL_ENFORCE(static_cast<size_t>(m.size()) == b.size() * 32 && ch.size() == b.size());
  for (size_t i = 0; i < b.size(); ++i) std::memcpy(&b[i], m.data<uint8_t>() + i * 32 + (ch[i] ? 16 : 0), 16);
}
}
