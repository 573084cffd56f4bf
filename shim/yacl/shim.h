// Controls of the stand-in: randomness, its log, and chosen randomness.
#pragma once
#include <cstdint>
#include <functional>
#include "yacl/base/int128.h"
namespace yacl::shim {
void SetBaseSeed(uint64_t s);
void SetThreadParty(int64_t p);   // lane of SecureRandSeed for this thread
int64_t ThreadParty();
struct PrgCall { int64_t party; uint128_t seed; uint64_t iv, count; size_t nbytes; };
using PrgHook = std::function<void(const PrgCall&, uint8_t*)>;   // may overwrite the output
using SeedHook = std::function<void(int64_t party, uint128_t& seed)>;
void SetPrgHook(PrgHook h);
void SetSeedHook(SeedHook h);
}
