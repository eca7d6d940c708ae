// Dense Fock-space evaluation of products and sums of many-body operators
// (mbpt::Operator, or tensor-level operators) for a small number of modes.
#pragma once
#include <SeQuant/domain/mbpt/op.hpp>

#include <map>
#include <memory>
#include <vector>

#include "numeric.hpp"

namespace fock {
namespace sq = sequant;
using num::F;
using Vec = std::vector<F>;  // by occupation mask

struct Entry {  // coeff * {creators annihilators}, normal ordered
  std::vector<std::pair<int, bool>> ops;  // in order of action: last acts first
  F x;
};
using Table = std::vector<Entry>;

struct Space {
  num::Model model;
  bool spinfree = false, physical = false;
  std::vector<num::Orb> modes;
  std::uint64_t occ = 0;  // mask of modes occupied in the vacuum
  /// values of indices that are fixed (batching); others are summed, with
  /// weights if in `weighted`
  std::map<sq::Index, num::Orb, sq::Index::FullLabelCompare> fixed;
  num::IndexSet weighted;
  /// only orbital universes (quantum numbers other than spin) 0 are modes
  Space(const num::Model& m, bool spinfree = false, bool physical = false);
  std::size_t dim() const { return std::size_t(1) << modes.size(); }
  std::uint64_t vacuum() const { return physical ? 0 : occ; }
  Vec ket(std::uint64_t det) const { Vec v(dim()); v[det] = F(1, 0); return v; }
  Vec random(std::uint64_t seed) const;

  Table table(const sq::ExprPtr& tensor_form) const;
  Vec act(const Table& t, const Vec& v) const;
  /// x acting on v
  Vec act(const sq::ExprPtr& x, const Vec& v) const;
  F vev(const sq::ExprPtr& x) const { return act(x, ket(vacuum()))[vacuum()]; }
  /// the operator as a matrix, column by column
  void clear() const { cache.clear(); }

 private:
  mutable std::map<const sq::Expr*, std::pair<sq::ExprPtr, std::shared_ptr<Table>>> cache;
};
F dot(const Vec& a, const Vec& b);
Vec add(const Vec& a, const Vec& b, F f = F(1, 0));
Vec scale(Vec a, F f);
}  // namespace fock
