// Generators of SeQuant objects on top of pbt::Src.
#pragma once
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/space.hpp>

#include <map>
#include <memory>
#include <string>
#include <vector>

#include "numeric.hpp"
#include "pbt.hpp"

namespace gen {
namespace sq = sequant;
using pbt::Case;
using pbt::Src;

/// index spaces + default context + numeric model of one case. Made at the
/// top of a case; becomes the default context.
struct World {
  std::shared_ptr<sq::IndexSpaceRegistry> isr;
  std::string name;
  /// spaces orbital slots may use; first = most frequent
  std::vector<sq::IndexSpace> spaces;
  std::vector<sq::IndexSpace> aux_spaces;
  num::Model model;
  std::map<std::wstring, int> next;  // ordinals by space key
  sq::Index make(const sq::IndexSpace& s) {
    const auto n = ++next[std::wstring(s.base_key())];
    if (std::size_t(n) >= sq::Index::min_tmp_index()) throw pbt::Discard{};
    return sq::Index(s, n);
  }
  sq::Index make(const wchar_t* key) { return make(isr->retrieve(key)); }
};

struct WorldOptions {
  std::vector<int> kinds = {0, 1, 2, 3};  // 0 minimal SR, 1 SR, 2 minimal MR, 3 MR, 4 F12
  int spin = -1;      // -1: any; 0: legacy (no spin), 1: spin spaces with only
                      // the spin-free ("any") ones used, 2: all used
  bool aux = true;    // add DF and batching spaces
  bool unions = true; // use union spaces such as p
  int max_extent = 2;
  sq::Vacuum vacuum = sq::Vacuum::SingleProduct;
  bool random_first_ordinal = true;
  bool loose = false;  // no strict bra-ket contractions
};
World make_world(Src& s, const WorldOptions& o = {});

struct Attr {
  sq::Symmetry s = sq::Symmetry::Nonsymm;
  sq::BraKetSymmetry b = sq::BraKetSymmetry::Nonsymm;
  sq::ColumnSymmetry c = sq::ColumnSymmetry::Symm;
  bool half = false;  // bra-ket symmetric also with unequal ranks
};
Attr random_attr(Src& s);

/// free (external) indices of a term by slot kind
struct Ext {
  std::vector<sq::Index> bra, ket, aux;
  num::IndexSet all() const;
};

struct NetOptions {
  int min_tensors = 1, max_tensors = 4;
  int max_dummies = 5;
  bool loose = false;        // dummies may join bra-bra, ket-ket, bra-aux, ...
  bool protos = false;
  bool halves = false;       // bra-ket symmetric tensors with unequal ranks
  bool nulls = false;        // empty slots of asymmetric tensors
  bool aux = true;
  bool hyper = false;        // aux indices common to more than 2 tensors
  bool column_symm = false;   // column-symmetric tensors only
  bool special = false;      // kronecker deltas, overlaps
  bool variables = false;
  bool trace = true;         // dummies may join slots of one tensor
  bool rank_labels = false;  // tensors with one label have equal ranks
  double max_volume = 2e5;   // bound on product of extents
  std::vector<std::wstring> labels = {L"t", L"g", L"u", L"f"};
};

struct Net {
  std::vector<sq::ExprPtr> factors;
  num::IndexSet ext;   // every index with a fixed value
  bool identical = false;   // >= 2 tensors with the same label and ranks
  bool any_antisymm = false;
  int dummies = 0, tensors = 0;
  sq::ExprPtr product(sq::Constant::scalar_type c = 1) const;
};

/// attributes by label, fixed within a case
using AttrMap = std::map<std::wstring, Attr>;

Ext random_ext(Src& s, World& w, int max_pairs, bool aux);
Net random_net(Src& s, World& w, AttrMap& attrs, const Ext& ext, const NetOptions& o);

sq::Constant::scalar_type random_scalar(Src& s, bool complex = true, bool zero = false);

/// a sum (or product of sums) of networks with the same externals
struct ExprOptions {
  NetOptions net;
  int max_terms = 4;
  int depth = 1;   // nesting of products of sums
};
sq::ExprPtr random_expr(Src& s, World& w, AttrMap& attrs, const Ext& ext, const ExprOptions& o, bool* nontrivial = nullptr);

/// indices with fixed value: in one slot only, pure proto indices, protos of those
num::IndexSet externals_of(const std::vector<sq::ExprPtr>& factors);

std::string u8(const std::wstring& w);
}  // namespace gen
