// A tiny, row-major subset of xtensor: exactly what libspu/core, kernel and
// mpc use (owning arrays, strided adaptors, cast, eye).
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <numeric>
#include <type_traits>
#include <vector>
namespace xt {
template <class D> struct xexpression {
  const D& derived_cast() const { return *static_cast<const D*>(this); }
};
template <class T>
class xarray : public xexpression<xarray<T>> {
  template <class> friend class xarray;
 public:
  using value_type = T;
  using size_type = std::size_t;
  using shape_type = std::vector<size_t>;
  xarray() : xarray(shape_type{}) {}
  explicit xarray(const shape_type& s) : shape_(s) { init(); }
  static xarray from_shape(const shape_type& s) { return xarray(s); }
  xarray(T v) : xarray(shape_type{}) { st_[0] = v; }  // NOLINT
  xarray(std::initializer_list<T> l) : shape_{l.size()} { init(); std::copy(l.begin(), l.end(), st_.get()); }
  xarray(std::initializer_list<std::initializer_list<T>> l) : shape_{l.size(), l.size() ? l.begin()->size() : 0} {
    init(); size_t k = 0; for (auto& r : l) for (auto& x : r) st_[k++] = x;
  }
  xarray(const xarray& o) : shape_(o.shape_), strides_(o.strides_), n_(o.n_) { st_.reset(new T[n_ ? n_ : 1]); std::copy(o.st_.get(), o.st_.get() + n_, st_.get()); }
  xarray(xarray&&) noexcept = default;
  xarray& operator=(const xarray& o) { xarray t(o); *this = std::move(t); return *this; }
  xarray& operator=(xarray&&) noexcept = default;
  const shape_type& shape() const { return shape_; }
  size_t shape(size_t i) const { return shape_[i]; }
  const std::vector<std::ptrdiff_t>& strides() const { return strides_; }
  size_t size() const { return n_; }
  size_t dimension() const { return shape_.size(); }
  T* data() { return st_.get(); }
  const T* data() const { return st_.get(); }
  T* begin() { return st_.get(); } T* end() { return st_.get() + n_; }
  const T* begin() const { return st_.get(); } const T* end() const { return st_.get() + n_; }
  T& front() { return st_[0]; } const T& front() const { return st_[0]; }
  T& flat(size_t i) { return st_[i]; } const T& flat(size_t i) const { return st_[i]; }
  template <class... I> T& operator()(I... i) { return st_[off({static_cast<size_t>(i)...})]; }
  template <class... I> const T& operator()(I... i) const { return st_[off({static_cast<size_t>(i)...})]; }
  T& operator[](size_t i) { return st_[i]; } const T& operator[](size_t i) const { return st_[i]; }
  template <class S> T& element(S b, S e) { return st_[offit(b, e)]; }
  bool operator==(const xarray& o) const { return shape_ == o.shape_ && std::equal(begin(), end(), o.begin()); }
  bool operator!=(const xarray& o) const { return !(*this == o); }
  void reshape(const shape_type& s) { shape_ = s; mk(); }

 private:
  void mk() {
    strides_.assign(shape_.size(), 0);
    std::ptrdiff_t s = 1;
    for (size_t i = shape_.size(); i-- > 0;) { strides_[i] = shape_[i] == 1 ? 0 : s; s *= static_cast<std::ptrdiff_t>(shape_[i]); }
    n_ = static_cast<size_t>(s);
  }
  void init() { mk(); st_.reset(new T[n_ ? n_ : 1]()); }
  size_t off(std::initializer_list<size_t> ix) const { size_t k = 0, o = 0; for (auto i : ix) o += i * static_cast<size_t>(strides_[k++]); return o; }
  template <class S> size_t offit(S b, S e) const { size_t k = 0, o = 0; for (; b != e; ++b) o += static_cast<size_t>(*b) * static_cast<size_t>(strides_[k++]); return o; }
  shape_type shape_; std::vector<std::ptrdiff_t> strides_; size_t n_ = 0; std::unique_ptr<T[]> st_;
};
struct no_ownership {};
template <class T>
class xadaptor : public xexpression<xadaptor<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  xadaptor(T* p, std::vector<size_t> s, std::vector<std::ptrdiff_t> st) : p_(p), shape_(std::move(s)), st_(std::move(st)) {}
  const std::vector<size_t>& shape() const { return shape_; }
  const std::vector<std::ptrdiff_t>& strides() const { return st_; }
  size_t size() const { size_t n = 1; for (auto d : shape_) n *= d; return n; }
  T* data() const { return p_; }
  // flat index in row-major order -> element
  T& flat(size_t i) const {
    std::ptrdiff_t o = 0;
    for (size_t k = shape_.size(); k-- > 0;) { o += static_cast<std::ptrdiff_t>(i % shape_[k]) * st_[k]; i /= shape_[k]; }
    return p_[o];
  }
  template <class E> xadaptor& operator=(const xexpression<E>& e) {
    const auto& d = e.derived_cast(); for (size_t i = 0; i < size(); ++i) flat(i) = d.flat(i); return *this;
  }
 private:
  T* p_; std::vector<size_t> shape_; std::vector<std::ptrdiff_t> st_;
};
template <class T, class N, class S, class R>
xadaptor<T> adapt(T* p, N, no_ownership, const S& s, const R& r) {
  return xadaptor<T>(p, {s.begin(), s.end()}, {r.begin(), r.end()});
}
template <class T, class E>
xarray<T> cast(const xexpression<E>& e) {
  const auto& d = e.derived_cast(); xarray<T> r(d.shape());
  for (size_t i = 0; i < r.size(); ++i) r.flat(i) = static_cast<T>(d.flat(i));
  return r;
}
template <class T, class E> xarray<T> cast(const E& d, int) { return cast<T>(d); }
template <class T> const xarray<T>& eval(const xarray<T>& a) { return a; }
template <class T> xarray<std::remove_const_t<T>> eval(const xadaptor<T>& a) { return cast<std::remove_const_t<T>>(a); }
template <class T> xarray<T> eye(const std::vector<size_t>& s, int k = 0) {
  xarray<T> r(s); for (size_t i = 0; i < s[0]; ++i) { auto j = static_cast<long>(i) + k; if (j >= 0 && j < static_cast<long>(s[1])) r.flat(i * s[1] + static_cast<size_t>(j)) = T(1); } return r;
}
template <class T> std::ostream& operator<<(std::ostream& o, const xarray<T>& a) { o << "{"; for (size_t i = 0; i < a.size(); ++i) o << (i ? "," : "") << +a.flat(i); return o << "}"; }
template <class T> std::ostream& operator<<(std::ostream& o, const xadaptor<T>& a) { o << "{"; for (size_t i = 0; i < a.size(); ++i) o << (i ? "," : "") << +a.flat(i); return o << "}"; }
}  // namespace xt
