#pragma once
#include <string>
#include <utility>
#include "yacl/base/buffer.h"
namespace yacl::crypto {
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() { return {Buffer(std::string("PUB:k")), Buffer(std::string("PRI:k"))}; }
}
