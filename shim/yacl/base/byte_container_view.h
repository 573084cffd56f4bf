#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
#include <type_traits>
namespace yacl {
class ByteContainerView {
 public:
  ByteContainerView() = default;
  ByteContainerView(const void* p, size_t n)
      : p_(static_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const char* s)  // NOLINT
      : ByteContainerView(s, std::string_view(s).size()) {}
  template <class C,
            class = std::enable_if_t<!std::is_pointer_v<std::decay_t<C>>>,
            class = decltype(std::declval<const C&>().data()),
            class = decltype(std::declval<const C&>().size())>
  ByteContainerView(const C& c)  // NOLINT
      : p_(reinterpret_cast<const uint8_t*>(c.data())),
        n_(static_cast<size_t>(c.size()) * esz<C>()) {}
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  uint8_t operator[](size_t i) const { return p_[i]; }
  operator std::string_view() const {  // NOLINT
    return {reinterpret_cast<const char*>(p_), n_};
  }

 private:
  template <class C>
  static constexpr size_t esz() {
    using E = std::remove_cv_t<std::remove_pointer_t<decltype(std::declval<const C&>().data())>>;
    if constexpr (std::is_void_v<E>) return 1; else { static_assert(sizeof(E) == 1); return 1; }
  }
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
}  // namespace yacl
