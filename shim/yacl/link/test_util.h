#pragma once
#include <string>
#include "yacl/link/link.h"
namespace yacl::link::test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) { return shim::MakeWorld(id, n); }
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return shim::MakeWorld("w", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(const std::string& id, size_t n) { return shim::MakeWorld(id, n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return shim::MakeWorld("w", n); }
}
