// The SEAL-based part of cheetah is not built here; the factory still names it.
#include "libspu/core/context.h"
#include "libspu/mpc/cheetah/io.h"
#include "libspu/mpc/cheetah/protocol.h"
namespace spu::mpc {
__attribute__((weak)) void regCheetahProtocol(SPUContext*, const std::shared_ptr<yacl::link::Context>&) { SPU_THROW("cheetah is not built here"); }
namespace cheetah {
__attribute__((weak)) std::unique_ptr<CheetahIo> makeCheetahIo(FieldType, size_t) { SPU_THROW("cheetah is not built here"); }
}
}
