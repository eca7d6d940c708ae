// Value-preserving rewritings of tensor networks.
#pragma once
#include "gen.hpp"

namespace gen {
using IndexMap = std::map<sq::Index, sq::Index, sq::Index::FullLabelCompare>;

/// replaces indices; protos of indices not in the map are mapped too
sq::Index map_index(const sq::Index& i, const IndexMap& m);
sq::container::vector<sq::Index> map_protos(const sq::Index& i, const IndexMap& m);
/// replaces the indices of a tensor / sum / product
sq::ExprPtr map_expr(const sq::ExprPtr& e, const IndexMap& m);

struct RewriteOptions {
  bool dummies = true, order = true, slots = true;
  bool externals = false;  // rename external indices too
};
struct Rewritten {
  std::vector<sq::ExprPtr> factors;
  int sign = 1;       // original = sign * rewritten
  IndexMap map;       // what became of the original indices
};
Rewritten rewrite(Src& s, const std::vector<sq::ExprPtr>& factors, const num::IndexSet& ext, const RewriteOptions& o);

/// a slot permutation that symmetries need not allow; false if none was made
bool damage(Src& s, std::vector<sq::ExprPtr>& factors);
}  // namespace gen
