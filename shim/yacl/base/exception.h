// Minimal stand-in for yacl/base/exception.h (see /verif/shim/README.md).
#pragma once
#include <cstddef>
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include "absl/strings/ascii.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "spdlog/spdlog.h"
namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  explicit Exception(const char* m) : msg_(m) {}
  template <class... A>
  explicit Exception(const std::string& m, A&&...) : msg_(m) {}
  const char* what() const noexcept override { return msg_.c_str(); }

 private:
  std::string msg_;
};
#define YACL_SHIM_EXC(N)       \
  class N : public Exception { \
   public:                     \
    using Exception::Exception; \
  }
YACL_SHIM_EXC(RuntimeError);
YACL_SHIM_EXC(LogicError);
YACL_SHIM_EXC(IoError);
YACL_SHIM_EXC(EnforceNotMet);
YACL_SHIM_EXC(InvalidFormat);
YACL_SHIM_EXC(NotImplementedError);
YACL_SHIM_EXC(ArgumentError);

template <class T>
T&& CheckNotNull(T&& p) {
  if (p == nullptr) throw RuntimeError("null pointer");
  return std::forward<T>(p);
}
}  // namespace yacl

// Messages are the source text of the arguments: the shim never formats them.
#define YACL_SHIM_MSG(...) (__FILE__ ": " #__VA_ARGS__)
#define YACL_THROW(...) throw ::yacl::RuntimeError(YACL_SHIM_MSG(__VA_ARGS__))
#define YACL_THROW_LOGIC_ERROR(...) \
  throw ::yacl::LogicError(YACL_SHIM_MSG(__VA_ARGS__))
#define YACL_THROW_IO_ERROR(...) \
  throw ::yacl::IoError(YACL_SHIM_MSG(__VA_ARGS__))
#define YACL_THROW_INVALID_FORMAT(...) \
  throw ::yacl::InvalidFormat(YACL_SHIM_MSG(__VA_ARGS__))
#define YACL_THROW_ARGUMENT_ERROR(...) \
  throw ::yacl::ArgumentError(YACL_SHIM_MSG(__VA_ARGS__))
#define YACL_ENFORCE(COND, ...)                                        \
  do {                                                                 \
    if (!(COND)) throw ::yacl::EnforceNotMet(YACL_SHIM_MSG(COND, __VA_ARGS__)); \
  } while (false)
#define YACL_SHIM_CMP(A, OP, B, ...)                                   \
  do {                                                                 \
    if (!((A)OP(B)))                                                   \
      throw ::yacl::EnforceNotMet(YACL_SHIM_MSG(A OP B, __VA_ARGS__)); \
  } while (false)
#define YACL_ENFORCE_EQ(A, B, ...) YACL_SHIM_CMP(A, ==, B, __VA_ARGS__)
#define YACL_ENFORCE_NE(A, B, ...) YACL_SHIM_CMP(A, !=, B, __VA_ARGS__)
#define YACL_ENFORCE_LE(A, B, ...) YACL_SHIM_CMP(A, <=, B, __VA_ARGS__)
#define YACL_ENFORCE_LT(A, B, ...) YACL_SHIM_CMP(A, <, B, __VA_ARGS__)
#define YACL_ENFORCE_GE(A, B, ...) YACL_SHIM_CMP(A, >=, B, __VA_ARGS__)
#define YACL_ENFORCE_GT(A, B, ...) YACL_SHIM_CMP(A, >, B, __VA_ARGS__)
