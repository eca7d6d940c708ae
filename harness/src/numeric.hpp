// Independent numeric interpretation of SeQuant expressions over GF(p^2),
// p = 2^31-1 (p = 3 mod 4, so i^2=-1 is irreducible and conjugation is the
// Frobenius map). Tensors are pseudo-random functions of orbitals with exactly
// the declared permutational symmetries; external indices are contracted with
// random vectors, so that every expression maps to one number; second-quantised
// operators act on a Fock space.
#pragma once
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/op.hpp>

#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace num {
namespace sq = sequant;

constexpr std::uint64_t P = 2147483647ull;
struct F {
  std::uint32_t re = 0, im = 0;
  F() = default;
  F(std::uint32_t r, std::uint32_t i) : re(r), im(i) {}
  static F of(long long v) { long long m = v % (long long)P; return F((std::uint32_t)(m < 0 ? m + P : m), 0); }
  bool operator==(const F&) const = default;
  bool zero() const { return !re && !im; }
  F operator+(F o) const { return F(add(re, o.re), add(im, o.im)); }
  F operator-(F o) const { return F(add(re, P - o.re), add(im, P - o.im)); }
  F operator-() const { return F() - *this; }
  F operator*(F o) const {
    std::uint64_t rr = (std::uint64_t)re * o.re % P, ii = (std::uint64_t)im * o.im % P;
    std::uint64_t ri = (std::uint64_t)re * o.im % P, ir = (std::uint64_t)im * o.re % P;
    return F((std::uint32_t)((rr + P - ii) % P), (std::uint32_t)((ri + ir) % P));
  }
  F& operator+=(F o) { return *this = *this + o; }
  F& operator*=(F o) { return *this = *this * o; }
  F conj() const { return F(re, im ? (std::uint32_t)(P - im) : 0); }
  F pow(std::uint64_t e) const { F r(1, 0), b = *this; for (; e; e >>= 1, b *= b) if (e & 1) r *= b; return r; }
  F inv() const;  // throws on zero
  std::string str() const;
 private:
  static std::uint32_t add(std::uint64_t a, std::uint64_t b) { return (std::uint32_t)((a + b) % P); }
};

/// thrown when an expression has no numeric meaning in this model
struct Undefined : std::runtime_error { using std::runtime_error::runtime_error; };

std::uint64_t mix(std::uint64_t x);
std::uint64_t hash(const std::wstring_view s);

/// orbital id: universe(qns without spin) << 24 | type bit << 16 | spin << 8 | k
using Orb = std::uint32_t;

struct Model {
  std::uint64_t seed = 1;
  /// number of orbitals for (universe, type bit); default used when absent
  int default_extent = 2;
  std::map<std::pair<int, int>, int> extent;
  /// spin components that exist for spin-labelled universes: 0 = spin is
  /// ignored altogether (all spaces are "spatial" / spinor sets)
  bool spin = false;
  /// type bits occupied in the Fermi vacuum (for operators)
  std::uint32_t occ_bits = 1;
  std::set<int> bose_universes;
  /// tensors that are the identity / overlap
  bool orthonormal = true;
  /// square roots of rationals have a value (conj may change its sign)
  bool roots = false;
  /// overrides value of a tensor: return nullopt for the default
  std::function<std::optional<F>(const Model&, const sq::AbstractTensor&, const std::vector<std::uint64_t>& bra,
                                 const std::vector<std::uint64_t>& ket, const std::vector<std::uint64_t>& aux)>
      tensor_override;
  std::function<std::optional<F>(const std::wstring& label)> variable_override;
  std::function<F(const Model&, const sq::Index& ext, Orb)> weight_override;

  std::vector<Orb> orbitals(const sq::IndexSpace& s) const;
  F variable(const std::wstring& label) const;
  F random(std::uint64_t h, bool real = false) const;
  /// slot keys: orbital combined with values of proto indices; 0 = empty slot
  F tensor(const sq::AbstractTensor& t, std::wstring label, sq::Symmetry s, sq::BraKetSymmetry b,
           sq::ColumnSymmetry c, std::vector<std::uint64_t> bra, std::vector<std::uint64_t> ket,
           const std::vector<std::uint64_t>& aux) const;
  F weight(const sq::Index& ext, Orb o) const;
  F constant(const sq::Constant& c) const;
};

using IndexSet = std::set<sq::Index, sq::Index::FullLabelCompare>;

/// what expressions are made of after distributing
struct Term {
  F coeff{1, 0};
  std::vector<sq::ExprPtr> atoms;
};
std::vector<Term> distribute(const sq::ExprPtr& e, const Model& m);

struct EvalOptions {
  /// external indices; default: those occurring in exactly one slot of a term.
  /// Given externals count in every term, also in those they do not occur in.
  std::optional<IndexSet> externals;
  /// expression is an operator: it acts on |y> (a few random occupation number
  /// states) and is projected on a random <x|, unless vacuum_expectation; every
  /// orbital listed in Model::extent is a mode
  bool operators = false;
  bool vacuum_expectation = false, physical_vacuum = false;
  /// orbitals are spatial, every mode comes twice (spin), normal operators are
  /// spin-free generators: summed over the spin of each of their particles
  bool spinfree = false;
  std::uint64_t state_seed = 7;
  int kets = 3;
  /// upper bound on work; beyond it Undefined is thrown
  double max_work = 1e7;
};
F eval(const sq::ExprPtr& e, const Model& m, const EvalOptions& o = {});
inline F eval(const sq::Expr& e, const Model& m, const EvalOptions& o = {}) { return eval(e.clone(), m, o); }

/// values of a tensor for all orbitals of the given indices (row-major, last
/// runs fastest), which must be all indices (incl. protos) of the tensor
std::vector<F> elements(const sq::AbstractTensor& t, const Model& m, const std::vector<sq::Index>& ids, double max_work = 1e6);

/// indices occurring in exactly one slot of (each term of) e
IndexSet open_indices(const sq::ExprPtr& e);
/// every index incl. protos
IndexSet all_indices(const sq::ExprPtr& e);

std::string show(const sq::ExprPtr& e);
std::string show(const sq::Index& i);

}  // namespace num
