// Ideal functionality of the Ferret OT interface: the sender sends every
// message over the link and the receiver keeps what its choice selects.
// Same outputs as the real protocol, no secrecy.
#include <cstring>
#include <vector>
#include "libspu/mpc/cheetah/ot/emp/ferret.h"
#include "libspu/mpc/cheetah/ot/yacl/ferret.h"
#include "yacl/crypto/rand/rand.h"
namespace spu::mpc::cheetah {
namespace {
template <class T> T Mask(size_t bw) { return bw == 0 || bw >= sizeof(T) * 8 ? static_cast<T>(-1) : static_cast<T>((static_cast<T>(1) << bw) - 1); }
template <class T> std::vector<T> Rand(size_t n, size_t bw) {
  std::vector<T> r(n);
  yacl::crypto::FillPRand(yacl::crypto::SymmetricCrypto::CryptoType::AES128_CTR, yacl::crypto::SecureRandSeed(), 0, 0, absl::MakeSpan(r));
  for (auto& x : r) x &= Mask<T>(bw);
  return r;
}
template <class T> void Tx(Communicator& c, const std::vector<T>& v) {
  c.lctx()->SendAsync(c.nextRank(), yacl::ByteContainerView(v.data(), v.size() * sizeof(T)), "IDEAL_OT");
}
template <class T> std::vector<T> Rx(Communicator& c, size_t n) {
  auto b = c.lctx()->Recv(c.nextRank(), "IDEAL_OT");
  SPU_ENFORCE(static_cast<size_t>(b.size()) == n * sizeof(T), "ideal OT: the two sides disagree on the size");
  std::vector<T> v(n); if (n) std::memcpy(v.data(), b.data(), b.size()); return v;
}
struct Core {
  std::shared_ptr<Communicator> c; bool sender;
  void S() const { SPU_ENFORCE(sender); }
  void R() const { SPU_ENFORCE(!sender); }
  template <class T> void SendCMCC(absl::Span<const T> m, size_t N, size_t bw) {
    S(); std::vector<T> v(m.begin(), m.end()); for (auto& x : v) x &= Mask<T>(bw); v.push_back(static_cast<T>(N)); Tx(*c, v);
  }
  template <class T> void RecvCMCC(absl::Span<const uint8_t> ch, size_t N, absl::Span<T> o, size_t bw) {
    R(); SPU_ENFORCE(ch.size() == o.size()); auto v = Rx<T>(*c, ch.size() * N + 1); SPU_ENFORCE(v.back() == static_cast<T>(N));
    for (size_t i = 0; i < ch.size(); ++i) { SPU_ENFORCE(ch[i] < N); o[i] = v[i * N + ch[i]] & Mask<T>(bw); }
  }
  template <class T> void SendR(absl::Span<T> a, absl::Span<T> b, size_t bw) {
    S(); SPU_ENFORCE(a.size() == b.size()); auto x = Rand<T>(a.size(), bw), y = Rand<T>(a.size(), bw);
    std::copy(x.begin(), x.end(), a.begin()); std::copy(y.begin(), y.end(), b.begin());
    x.insert(x.end(), y.begin(), y.end()); Tx(*c, x);
  }
  template <class T> void RecvRMCC(absl::Span<const uint8_t> ch, absl::Span<T> o, size_t) {
    R(); SPU_ENFORCE(ch.size() == o.size()); size_t n = o.size(); auto v = Rx<T>(*c, 2 * n);
    for (size_t i = 0; i < n; ++i) { SPU_ENFORCE(ch[i] < 2); o[i] = v[ch[i] * n + i]; }
  }
  template <class T> void RecvRMRC(absl::Span<uint8_t> ch, absl::Span<T> o, size_t bw) {
    auto r = Rand<uint8_t>(ch.size(), 1); std::copy(r.begin(), r.end(), ch.begin());
    RecvRMCC<T>(absl::MakeConstSpan(r), o, bw);
  }
  template <class T> void SendC(absl::Span<const T> corr, absl::Span<T> o, int bw0, int levels) {
    S(); size_t n = corr.size(); SPU_ENFORCE(n == o.size() && levels > 0 && n % levels == 0);
    int bw = bw0 == 0 ? static_cast<int>(sizeof(T) * 8) : bw0; SPU_ENFORCE(bw > 0 && bw <= static_cast<int>(sizeof(T) * 8) && bw >= levels);
    auto x = Rand<T>(n, 0); std::vector<T> v(2 * n); size_t per = n / levels;
    for (size_t i = 0; i < n; ++i) { T m = Mask<T>(bw - i / (per ? per : 1)); o[i] = x[i] & m; v[i] = o[i]; v[n + i] = (o[i] + corr[i]) & m; }
    Tx(*c, v);
  }
  template <class T> void RecvC(absl::Span<const uint8_t> ch, absl::Span<T> o, int, int) { RecvRMCC<T>(ch, o, 0); }
};
}  // namespace
#define M1(C, T)                                                                                                            \
  void C::SendCMCC(absl::Span<const T> m, size_t N, size_t bw) { impl_->SendCMCC<T>(m, N, bw); }                            \
  void C::RecvCMCC(absl::Span<const uint8_t> ch, size_t N, absl::Span<T> o, size_t bw) { impl_->RecvCMCC<T>(ch, N, o, bw); } \
  void C::SendRMRC(absl::Span<T> a, absl::Span<T> b, size_t bw) { impl_->SendR<T>(a, b, bw); }                              \
  void C::RecvRMRC(absl::Span<uint8_t> ch, absl::Span<T> o, size_t bw) { impl_->RecvRMRC<T>(ch, o, bw); }                   \
  void C::SendRMCC(absl::Span<T> a, absl::Span<T> b, size_t bw) { impl_->SendR<T>(a, b, bw); }                              \
  void C::RecvRMCC(absl::Span<const uint8_t> ch, absl::Span<T> o, size_t bw) { impl_->RecvRMCC<T>(ch, o, bw); }             \
  void C::SendCAMCC(absl::Span<const T> k, absl::Span<T> o, int bw) { impl_->SendC<T>(k, o, bw, 1); }                       \
  void C::RecvCAMCC(absl::Span<const uint8_t> ch, absl::Span<T> o, int bw) { impl_->RecvC<T>(ch, o, bw, 1); }               \
  void C::SendCAMCC_Collapse(absl::Span<const T> k, absl::Span<T> o, int bw, int l) { impl_->SendC<T>(k, o, bw, l); }       \
  void C::RecvCAMCC_Collapse(absl::Span<const uint8_t> ch, absl::Span<T> o, int bw, int l) { impl_->RecvC<T>(ch, o, bw, l); }
#define CLS(C)                                                                                     \
  struct C::Impl : Core {};                                                                        \
  C::C(std::shared_ptr<Communicator> c, bool s, bool) : impl_(std::make_shared<Impl>()) { impl_->c = std::move(c); impl_->sender = s; } \
  C::~C() = default;                                                                               \
  int C::Rank() const { return static_cast<int>(impl_->c->getRank()); }                            \
  void C::Flush() {}                                                                               \
  M1(C, uint8_t) M1(C, uint32_t) M1(C, uint64_t) M1(C, uint128_t)
CLS(EmpFerretOt)
CLS(YaclFerretOt)
}  // namespace spu::mpc::cheetah
