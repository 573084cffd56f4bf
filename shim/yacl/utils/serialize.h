#pragma once
#include <cstring>
#include <tuple>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == sizeof(uint128_t));
  uint128_t v; std::memcpy(&v, b.data(), sizeof(v)); return v;
}
template <class T> Buffer SerializeVars(const T& v) { return Buffer(&v, sizeof(v)); }
template <class T> T DeserializeVars(ByteContainerView b) {
  YACL_ENFORCE(b.size() == sizeof(T));
  T v; std::memcpy(&v, b.data(), sizeof(v)); return v;
}
}
