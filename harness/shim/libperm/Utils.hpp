// Stand-in for libperm
#pragma once
#include <libperm/Permutation.hpp>

#include <iterator>

namespace perm {
/// the permutation that takes the elements of a to their places in b
template <class A, class B, class Less>
Permutation computeTransformationPermutation(const A& a, const B& b, Less less) {
  std::vector<std::size_t> r;
  for (auto& x : a) {
    std::size_t k = 0, at = std::size_t(-1);
    for (auto& y : b) {
      if (!less(x, y) && !less(y, x)) at = k;
      ++k;
    }
    if (at == std::size_t(-1)) throw std::logic_error("not a permutation of each other");
    r.push_back(at);
  }
  return Permutation(std::move(r));
}
}  // namespace perm
