#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
Buffer Broadcast(const std::shared_ptr<Context>& c, ByteContainerView in, size_t root, std::string_view tag);
}
