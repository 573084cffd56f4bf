#pragma once
#include <utility>
namespace yacl {
template <class F> struct ScopeGuardT { F f; bool on = true; explicit ScopeGuardT(F g) : f(std::move(g)) {} ScopeGuardT(ScopeGuardT&& o) : f(std::move(o.f)), on(o.on) { o.on = false; } ~ScopeGuardT() { if (on) f(); } };
template <class F> ScopeGuardT<F> MakeScopeGuard(F f) { return ScopeGuardT<F>(std::move(f)); }
}
#define YACL_SG_CAT2(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT2(a, b)
struct YaclOnExitHelper { template <class F> yacl::ScopeGuardT<F> operator+(F f) { return yacl::ScopeGuardT<F>(std::move(f)); } };
#define ON_SCOPE_EXIT auto YACL_SG_CAT(sg_, __LINE__) = YaclOnExitHelper() + 
