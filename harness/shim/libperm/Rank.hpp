// Stand-in for libperm: ranks of permutations, in the order of Myrvold and
// Ruskey (their unrank1, rank1)
#pragma once
#include <libperm/Permutation.hpp>

namespace perm {
inline Permutation unrank(std::size_t rank, std::size_t n) {
  std::vector<std::size_t> p(n);
  std::iota(p.begin(), p.end(), 0);
  for (std::size_t k = n; k > 1; --k) {
    std::swap(p[k - 1], p[rank % k]);
    rank /= k;
  }
  return Permutation(std::move(p));
}
inline std::size_t rank(const Permutation& perm, std::size_t n) {
  std::vector<std::size_t> p(n), q(n);
  for (std::size_t i = 0; i < n; ++i) p[i] = perm.image(i), q[p[i]] = i;
  std::size_t r = 0, f = 1;
  for (std::size_t k = n; k > 1; --k) {
    const std::size_t s = p[k - 1];
    std::swap(p[k - 1], p[q[k - 1]]);
    std::swap(q[s], q[k - 1]);
    r += f * s;
    f *= k;
  }
  return r;
}
}  // namespace perm
