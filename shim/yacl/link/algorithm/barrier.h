#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
void Barrier(const std::shared_ptr<Context>& c, std::string_view tag);
}
