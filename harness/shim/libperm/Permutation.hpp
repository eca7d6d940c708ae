// Stand-in for libperm, which is not installed: just what
// SeQuant/domain/mbpt/biorthogonalization.cpp uses of it. Products apply their
// left factor first.
#pragma once
#include <algorithm>
#include <cstddef>
#include <numeric>
#include <stdexcept>
#include <utility>
#include <vector>

namespace perm {
using Cycle = std::vector<std::size_t>;
class Permutation {
 public:
  Permutation() = default;
  explicit Permutation(std::vector<std::size_t> image) : p_(std::move(image)) {}
  Permutation* operator->() { return this; }
  const Permutation* operator->() const { return this; }
  Permutation& operator*() { return *this; }
  const Permutation& operator*() const { return *this; }
  std::size_t image(std::size_t i) const { return i < p_.size() ? p_[i] : i; }
  std::size_t operator[](std::size_t i) const { return image(i); }
  std::size_t maxElement() const { return p_.size(); }
  void invert() {
    std::vector<std::size_t> q(p_.size());
    for (std::size_t i = 0; i < p_.size(); ++i) q[p_[i]] = i;
    p_ = std::move(q);
  }
  /// this = other, then this
  void preMultiply(const Permutation& o) { *this = then(o, *this); }
  /// this = this, then other
  void postMultiply(const Permutation& o) { *this = then(*this, o); }
  /// cycles of the elements below n, those of one element included
  std::vector<Cycle> toDisjointCycles(std::size_t n) const {
    std::vector<Cycle> r;
    std::vector<char> seen(n);
    for (std::size_t i = 0; i < n; ++i) {
      if (seen[i]) continue;
      Cycle c;
      for (std::size_t k = i; !seen[k]; k = image(k)) seen[k] = 1, c.push_back(k);
      r.push_back(c);
    }
    return r;
  }
  bool isIdentity() const {
    for (std::size_t i = 0; i < p_.size(); ++i) if (p_[i] != i) return false;
    return true;
  }
  int sign() const {
    int s = 1;
    for (auto& c : toDisjointCycles(p_.size())) if (c.size() % 2 == 0) s = -s;
    return s;
  }

 private:
  static Permutation then(const Permutation& a, const Permutation& b) {
    const auto n = std::max(a.p_.size(), b.p_.size());
    std::vector<std::size_t> r(n);
    for (std::size_t i = 0; i < n; ++i) r[i] = b.image(a.image(i));
    return Permutation(std::move(r));
  }
  std::vector<std::size_t> p_;
};
}  // namespace perm
