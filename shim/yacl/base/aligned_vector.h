#pragma once
#include <vector>
namespace yacl {
template <class T> using UninitAlignedVector = std::vector<T>;
template <class T> using AlignedVector = std::vector<T>;
template <class T> using UninitVector = std::vector<T>;
}
