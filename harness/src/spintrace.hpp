// Spin-orbital tensors made of spatial ones, expressions of them, and their
// values after an explicit sum over spins.
#pragma once
#include "gen.hpp"
#include "rewrite.hpp"

#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/slotted_index.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>

#include <algorithm>
#include <numeric>

namespace {
using namespace sequant;
namespace mb = sequant::mbpt;
using Fp = num::F;
using gen::World;
using pbt::Case;
using pbt::Src;
using Groups = container::svector<container::svector<Index>>;
using SGroups = container::svector<container::svector<SlottedIndex>>;
using Model = num::Model;

constexpr std::uint64_t SPIN = 3ull << 8;
std::uint64_t key_spin(std::uint64_t key) { return (key - 1) >> 8 & 3; }
std::uint64_t strip_key(std::uint64_t key) { return ((key - 1) & ~SPIN) + 1; }
std::uint64_t flip_key(std::uint64_t key) { const auto s = key_spin(key); return s == 1 || s == 2 ? ((key - 1) ^ SPIN) + 1 : key; }
std::wstring nospin(std::wstring l) {
  std::erase_if(l, [](wchar_t c) { return c == L'↑' || c == L'↓'; });
  return l;
}

/// values of spin-orbital tensors: antisymmetrised products of spin deltas and
/// a column-symmetric tensor of the spatial orbitals (closed shell) or of the
/// spin orbitals (open shell)
enum class Mode { Closed, Open };
struct Twist { bool flip = false, transpose = false; };
Model spin_model(const Model& spatial, Mode mode, Twist tw = {}) {
  Model m = spatial;
  m.spin = true;
  auto base = std::make_shared<Model>(spatial);
  m.tensor_override = [base, mode, tw](const Model&, const AbstractTensor& t, const std::vector<std::uint64_t>& bra_, const std::vector<std::uint64_t>& ket_,
                                       const std::vector<std::uint64_t>& aux_) -> std::optional<Fp> {
    auto bra = bra_, ket = ket_, aux = aux_;
    if (tw.transpose) std::swap(bra, ket);
    if (tw.flip) for (auto* v : {&bra, &ket, &aux}) for (auto& x : *v) if (x) x = flip_key(x);
    std::wstring label(t._label());
    if (t._braket_symmetry() == BraKetSymmetry::Nonsymm && !label.empty() && label.back() == adjoint_label) label.pop_back();
    for (auto& x : aux) if (x) x = strip_key(x);
    auto spatial_value = [&](std::vector<std::uint64_t> b, std::vector<std::uint64_t> k) {
      for (std::size_t i = 0; i < std::min(b.size(), k.size()); ++i) if (b[i] && k[i] && key_spin(b[i]) != key_spin(k[i])) return Fp();
      if (mode == Mode::Closed) for (auto* v : {&b, &k}) for (auto& x : *v) if (x) x = strip_key(x);
      return base->tensor(t, label, Symmetry::Nonsymm, t._braket_symmetry(), t._column_symmetry(), b, k, aux);
    };
    if (t._symmetry() == Symmetry::Symm) throw num::Undefined("symmetric spin tensor");
    if (t._symmetry() == Symmetry::Nonsymm) return spatial_value(bra, ket);
    if (bra.size() != ket.size()) throw num::Undefined("unequal ranks");
    std::vector<int> p(bra.size());
    std::iota(p.begin(), p.end(), 0);
    Fp r;
    do {
      int sign = 1;
      for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (p[j] > p[i]) sign = -sign;
      std::vector<std::uint64_t> b;
      for (int i : p) b.push_back(bra[i]);
      const Fp v = spatial_value(b, ket);
      r = sign > 0 ? r + v : r - v;
    } while (std::next_permutation(p.begin(), p.end()));
    return r;
  };
  return m;
}
using Spins = std::map<std::wstring, int>;  // external label -> 1, 2
/// externals contract with vectors depending on their spatial label only, and
/// have the given spin
void set_weights(Model& m, const Spins& spins, bool flip = false, std::map<std::wstring, std::wstring> alias = {}) {
  m.weight_override = [spins, flip, alias](const Model& m, const Index& i, num::Orb o) -> Fp {
    std::wstring l(i.full_label());
    if (auto it = alias.find(l); it != alias.end()) l = it->second;
    l = nospin(l);
    int sp = o >> 8 & 3;
    if (flip && sp) sp ^= 3;
    auto it = spins.find(l);
    if (sp && it != spins.end() && it->second != sp) return Fp();
    return m.random(num::mix(num::hash(l) * 3 + 1) ^ num::mix((o & ~(num::Orb)SPIN) + 0x51));
  };
}

// --- projectors ----------------------------------------------------------------
struct Perm { rational c; gen::IndexMap m; };
int sign_of(const std::vector<int>& p) {
  int s = 1;
  for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (p[j] > p[i]) s = -s;
  return s;
}
long fact(std::size_t n) { return n < 2 ? 1 : (long)n * fact(n - 1); }
std::vector<Perm> projector(const Tensor& t) {
  std::vector<Index> b(t.bra().begin(), t.bra().end()), k(t.ket().begin(), t.ket().end());
  std::vector<Perm> r;
  auto perms = [](std::size_t n) {
    std::vector<std::vector<int>> r;
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    do r.push_back(p); while (std::next_permutation(p.begin(), p.end()));
    return r;
  };
  if (t.label() == reserved::antisymm_label()) {
    for (auto& x : perms(b.size()))
      for (auto& y : perms(k.size())) {
        Perm q{rational(sign_of(x) * sign_of(y), fact(b.size()) * fact(k.size())), {}};
        for (std::size_t i = 0; i < b.size(); ++i) q.m[b[i]] = b[x[i]];
        for (std::size_t i = 0; i < k.size(); ++i) q.m[k[i]] = k[y[i]];
        r.push_back(q);
      }
  } else if (t.label() == reserved::symm_label()) {
    if (b.size() != k.size()) throw num::Undefined("S ranks");
    for (auto& x : perms(b.size())) {
      Perm q{rational(1, fact(b.size())), {}};
      for (std::size_t i = 0; i < b.size(); ++i) q.m[b[i]] = b[x[i]], q.m[k[i]] = k[x[i]];
      r.push_back(q);
    }
  } else {  // P
    Perm q{1, {}};
    for (auto* v : {&b, &k})
      for (std::size_t i = 0; i + 1 < v->size(); i += 2) q.m[(*v)[i]] = (*v)[i + 1], q.m[(*v)[i + 1]] = (*v)[i];
    r.push_back(q);
  }
  return r;
}
bool is_projector(const ExprPtr& x) {
  return x->is<Tensor>() && (x->as<Tensor>().label() == reserved::antisymm_label() || x->as<Tensor>().label() == reserved::symm_label() ||
                             x->as<Tensor>().label() == reserved::transposition_label());
}
/// value of an expression that may contain Â, Ŝ, P̂, applied to the rest of their product
Fp value(const ExprPtr& e, const Model& m) {
  Fp r;
  for (auto& t : num::distribute(e, m)) {
    std::vector<ExprPtr> ops, rest;
    for (auto& a : t.atoms) (is_projector(a) ? ops : rest).push_back(a);
    std::vector<std::pair<rational, ExprPtr>> terms{{rational(1), ex<Product>(Constant::scalar_type{1}, rest.begin(), rest.end(), Product::Flatten::No)}};
    for (auto it = ops.rbegin(); it != ops.rend(); ++it) {
      std::vector<std::pair<rational, ExprPtr>> n;
      for (auto& q : projector((*it)->as<Tensor>())) for (auto& [c, x] : terms) n.emplace_back(c * q.c, gen::map_expr(x, q.m));
      terms = std::move(n);
    }
    for (auto& [c, x] : terms) r += t.coeff * m.constant(Constant(c)) * num::eval(x, m);
  }
  return r;
}

// --- generator -------------------------------------------------------------------
struct SpinGen {
  Src& s;
  World w;
  std::vector<Index> bra, ket;      // externals by the slots they fill
  std::vector<std::pair<Index, Index>> pairs;  // grouping: bra, ket external
  std::map<std::wstring, gen::Attr> attrs;
  bool antisymm = false, aux = false, dummies = false;
  bool complex_scalars = true;
  bool plain_columns = false;  // tensors without column symmetry may occur
  SpinGen(Src& s, gen::WorldOptions o) : s(s), w(gen::make_world(s, o)) {}

  IndexSpace space() { return w.spaces[s.weighted({6, 6, 1, 1}) % w.spaces.size()]; }
  /// projectors make dummies of the externals: spaces must tell bra from ket
  void externals(int n, bool same_space, bool disjoint = false) {
    // ... and names must be what canonicalization would choose
    if (disjoint) w.next.clear();
    const auto b = space();
    auto k = space();
    std::set<std::wstring> used{std::wstring(b.base_key())};
    for (int i = 0; i < n; ++i) {
      bra.push_back(w.make(same_space ? b : space()));
      used.insert(std::wstring(bra.back().space().base_key()));
    }
    auto fits = [&](const IndexSpace& x) { return !disjoint || !used.count(std::wstring(x.base_key())); };
    auto any = [&] {
      for (;;) {
        bool some = false;
        for (auto& x : w.spaces) some |= fits(x);
        if (!some) throw pbt::Discard{};
        auto x = space();
        if (fits(x)) return x;
        for (auto& y : w.spaces) if (fits(y)) return y;
      }
    };
    if (!fits(k)) k = any();
    for (int i = 0; i < n; ++i) ket.push_back(w.make(same_space ? k : any()));
    auto kk = ket;
    if (!disjoint && s.chance(1, 3)) s.shuffle(kk);
    for (int i = 0; i < n; ++i) pairs.emplace_back(bra[i], kk[i]);
    if (!disjoint && s.chance(1, 3)) s.shuffle(pairs);
  }
  ExprPtr term(int max_slots, bool with_aux) {
    const int k = (int)bra.size();
    const int R = std::max(1, k + (int)s.below(std::max(1, max_slots - k + 1)));
    std::vector<Index> B = bra, K = ket;
    for (int i = k; i < R; ++i) {
      auto x = w.make(space());
      B.push_back(x), K.push_back(x);
      dummies = true;
    }
    s.shuffle(B);
    s.shuffle(K);
    std::vector<ExprPtr> f;
    std::vector<Index> ax;
    struct T { std::wstring label; std::vector<Index> b, k, a; };
    std::vector<T> ts;
    for (int at = 0; at < R;) {
      const int r = std::min(R - at, 1 + s.weighted({3, 4, 1}));
      T t;
      static const wchar_t* L[] = {L"f", L"g", L"t", L"u", L"W"};
      t.label = L[s.below(5)] + std::to_wstring(r);
      for (int i = 0; i < r; ++i) t.b.push_back(B[at + i]), t.k.push_back(K[at + i]);
      at += r;
      ts.push_back(t);
    }
    if (with_aux && ts.size() > 1 && s.chance(1, 4)) {
      auto x = w.make(w.aux_spaces[0]);
      ts[0].a.push_back(x), ts[1].a.push_back(x);
      aux = true;
    }
    for (auto& t : ts) {
      const auto key = t.label + (t.a.empty() ? L"" : L"x");
      if (!attrs.count(key)) {
        gen::Attr a;
        a.s = t.b.size() == 1 || s.chance(1, 4) ? Symmetry::Nonsymm : Symmetry::Antisymm;
        a.b = s.pick({BraKetSymmetry::Conjugate, BraKetSymmetry::Nonsymm, BraKetSymmetry::Symm});
        a.c = plain_columns && a.s == Symmetry::Nonsymm && s.chance(1, 4) ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
        attrs[key] = a;
      }
      const auto& a = attrs.at(key);
      if (a.s == Symmetry::Antisymm) antisymm = true;
      f.push_back(ex<Tensor>(key, sequant::bra(t.b), sequant::ket(t.k), sequant::aux(t.a), a.s, a.b, a.c));
    }
    if (s.chance(1, 10)) f.insert(f.begin() + s.below((std::uint32_t)f.size() + 1), ex<Variable>(L"ω"));
    const auto c = gen::random_scalar(s, complex_scalars);
    bool trace = false;  // spin tracing takes all indices of a lone tensor as external
    for (auto& x : ts[0].b) for (auto& y : ts[0].k) trace |= x == y;
    if (f.size() == 1 && !trace && c == Constant::scalar_type{1}) return f[0];
    return ex<Product>(c, f.begin(), f.end());
  }
  /// antisymmetrizer of the externals
  ExprPtr A() {
    return ex<Tensor>(std::wstring(reserved::antisymm_label()), sequant::bra(ket), sequant::ket(bra), sequant::aux{}, Symmetry::Antisymm);
  }
  ExprPtr expr(int max_terms, int max_slots, bool with_A, bool with_aux) {
    const int n = 1 + (int)s.below(max_terms);
    std::vector<ExprPtr> v;
    for (int i = 0; i < n; ++i) {
      auto x = term(max_slots, with_aux);
      if (with_A) {
        std::vector<ExprPtr> f{A()};
        Constant::scalar_type c{1};
        if (x->is<Product>()) { c = x->as<Product>().scalar(); for (auto& y : x->as<Product>().factors()) f.push_back(y); }
        else f.push_back(x);
        x = ex<Product>(c, f.begin(), f.end());
      }
      v.push_back(x);
    }
    if (bra.empty() && s.chance(1, 6)) v.push_back(s.coin() ? ex<Constant>(gen::random_scalar(s)) : ex<Variable>(L"E"));
    if (v.size() == 1) return v[0];
    return ex<Sum>(v.begin(), v.end());
  }
  Groups groups() const {
    Groups g;
    for (auto& [b, k] : pairs) g.push_back(container::svector<Index>{b, k});
    return g;
  }
  SGroups slotted() const {
    SGroups g;
    for (auto& [b, k] : pairs) {
      container::svector<SlottedIndex> v;
      v.emplace_back(b, SlotType::Bra);
      v.emplace_back(k, SlotType::Ket);
      g.push_back(v);
    }
    return g;
  }
  std::string text() const {
    std::string r = w.name + "; groups";
    for (auto& [b, k] : pairs) r += " " + num::show(b) + "," + num::show(k);
    return r;
  }
  Spins spins(std::uint32_t bits) const {
    Spins r;
    for (std::size_t i = 0; i < pairs.size(); ++i) {
      r[nospin(std::wstring(pairs[i].first.full_label()))] = 1 + (bits >> i & 1);
      r[nospin(std::wstring(pairs[i].second.full_label()))] = 1 + (bits >> i & 1);
    }
    return r;
  }
};
gen::WorldOptions world(bool unions = true) {
  gen::WorldOptions o;
  o.kinds = {0, 0, 1, 2, 3, 4};
  o.spin = 1;
  o.unions = unions;
  return o;
}
Fp traced(const ExprPtr& e, const SpinGen& g, Mode mode) {
  Fp r;
  for (std::uint32_t b = 0; b < (1u << g.pairs.size()); ++b) {
    auto m = spin_model(g.w.model, mode);
    set_weights(m, g.spins(b));
    r += value(e, m);
  }
  return r;
}
}  // namespace
