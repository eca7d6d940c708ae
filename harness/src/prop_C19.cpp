// C19: symbolic costs. AsyCost against polynomials kept as plain maps, and the
// costs of evaluation trees against counts over their nodes.
#include <SeQuant/core/asy_cost.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include "gen.hpp"
#include "rewrite.hpp"

#include <algorithm>
#include <cmath>
#include <limits>

using namespace sequant;
using namespace gen;

namespace {
using num::show;
/// powers of the spaces, in the order of the list of spaces
using Powers = std::vector<std::size_t>;
using Poly = std::map<Powers, rational>;

struct Ring {
  std::vector<IndexSpace> spaces;   // ascending
  AsyCost::ExponentMap map(const Powers& p) const {
    AsyCost::ExponentMap m;
    for (std::size_t i = 0; i < p.size(); ++i) if (p[i]) m[spaces[i]] = p[i];
    return m;
  }
  AsyCost cost(const Poly& p) const {
    AsyCost r;
    for (auto& [m, c] : p) r += AsyCost(map(m), c);
    return r;
  }
  Powers powers(const AsyCost::ExponentMap& m) const {
    Powers p(spaces.size());
    for (auto& [s, n] : m) p.at(std::find(spaces.begin(), spaces.end(), s) - spaces.begin()) = n;
    return p;
  }
};
void clean(Poly& p) { std::erase_if(p, [](auto& kv) { return kv.second == 0; }); }
Poly add(Poly a, const Poly& b, rational f = 1) {
  for (auto& [m, c] : b) a[m] += f * c;
  clean(a);
  return a;
}
Poly mul(Poly a, rational f) {
  for (auto& [m, c] : a) c *= f;
  clean(a);
  return a;
}
std::string text(const Ring& r, const Poly& p) {
  std::ostringstream o;
  for (auto& [m, c] : p) {
    o << " + " << c;
    for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) o << " " << u8(std::wstring(r.spaces[i].base_key())) << "^" << m[i];
  }
  return o.str();
}
/// sign of a - b for large sizes: that of the leading term
int compare(const Poly& a, const Poly& b) {
  auto d = add(a, b, -1);
  const std::pair<const Powers, rational>* lead = nullptr;
  auto less = [](const Powers& x, const Powers& y) {
    std::size_t dx = 0, dy = 0;
    for (auto i : x) dx += i;
    for (auto i : y) dy += i;
    if (dx != dy) return dx < dy;
    for (std::size_t i = x.size(); i-- > 0;) if (x[i] != y[i]) return x[i] < y[i];
    return false;
  };
  for (auto& t : d) if (!lead || less(lead->first, t.first)) lead = &t;
  return !lead ? 0 : lead->second > 0 ? 1 : -1;
}
Ring ring(Src& s) {
  Ring r;
  auto w = make_world(s, {.kinds = {0, 1, 2, 3}, .aux = s.coin()});
  r.spaces = w.spaces;
  for (auto& x : w.aux_spaces) r.spaces.push_back(x);
  s.shuffle(r.spaces);
  r.spaces.resize(std::min<std::size_t>(r.spaces.size(), 1 + s.below(4)));
  std::sort(r.spaces.begin(), r.spaces.end());
  return r;
}
Powers powers(Src& s, const Ring& r, bool zero = true) {
  Powers p(r.spaces.size());
  for (auto& x : p) x = s.weighted({3, 3, 2, 1, 1});
  if (!zero && std::all_of(p.begin(), p.end(), [](auto x) { return x == 0; })) p[0] = 1;
  return p;
}
rational coefficient(Src& s, bool positive = false) {
  int n = 1 + (int)s.below(5), d = s.pick({1, 1, 1, 2, 3, 4});
  if (!positive && s.chance(1, 3)) n = -n;
  return rational(n, d);
}
Poly poly(Src& s, const Ring& r, bool positive) {
  Poly p;
  const int n = (int)s.below(5);
  for (int i = 0; i < n; ++i) p[powers(s, r, false)] += coefficient(s, positive);
  clean(p);
  return p;
}
bool close(double a, double b, double scale) { return std::abs(a - b) <= 1e-9 * std::max({1., scale, std::abs(a), std::abs(b)}); }

double number(const Poly& p, const std::vector<double>& n, double* scale = nullptr) {
  double r = 0, sc = 0;
  for (auto& [m, c] : p) {
    double x = static_cast<double>(numerator(c)) / static_cast<double>(denominator(c));
    for (std::size_t i = 0; i < m.size(); ++i) x *= std::pow(n[i], (double)m[i]);
    r += x;
    sc += std::abs(x);
  }
  if (scale) *scale = sc;
  return r;
}

/// reads text() and to_latex() back
std::optional<Poly> read(const Ring& r, std::string t, bool latex) {
  Poly p;
  if (t == "0") return p;
  std::size_t at = 0;
  auto eat = [&](const std::string& x) { return t.compare(at, x.size(), x) == 0 ? (at += x.size(), true) : false; };
  auto integer = [&]() -> std::optional<long> {
    std::size_t n = at;
    while (n < t.size() && std::isdigit((unsigned char)t[n])) ++n;
    if (n == at) return std::nullopt;
    auto v = std::stol(t.substr(at, n - at));
    at = n;
    return v;
  };
  for (bool first = true; at < t.size() || first; first = false) {
    if (!first && !eat(" + ")) return std::nullopt;
    rational c = eat("- ") ? -1 : 1;
    if (latex && eat("\\frac{")) {
      auto n = integer();
      if (!n || !eat("}{")) return std::nullopt;
      auto d = integer();
      if (!d || !eat("}")) return std::nullopt;
      c *= rational(*n, *d);
    } else if (auto n = integer()) {
      c *= *n;
      if (!latex) {
        if (eat("/")) {
          auto d = integer();
          if (!d) return std::nullopt;
          c /= *d;
        }
        if (!eat("*")) return std::nullopt;
      }
    }
    Powers m(r.spaces.size());
    for (;;) {
      // the longest key that fits
      int best = -1;
      std::size_t len = 0;
      for (std::size_t i = 0; i < r.spaces.size(); ++i) {
        const auto k = u8(std::wstring(r.spaces[i].base_key()));
        if (k.size() > len && t.compare(at, k.size(), k) == 0) best = (int)i, len = k.size();
      }
      if (best < 0) break;
      at += len;
      if (m[best]) return std::nullopt;
      m[best] = 1;
      if (eat("^")) {
        if (latex && !eat("{")) return std::nullopt;
        auto n = integer();
        if (!n || *n < 2) return std::nullopt;
        m[best] = *n;
        if (latex && !eat("}")) return std::nullopt;
      }
    }
    if (p.count(m)) return std::nullopt;
    p[m] = c;
  }
  return p;
}

// --- algebra ----------------------------------------------------------------------
void f_algebra(Case& c) {
  auto& s = c.s;
  const auto r = ring(s);
  struct Pair { AsyCost a; Poly p; };
  std::vector<Pair> v;
  const int n0 = 1 + (int)s.below(3);
  for (int i = 0; i < n0; ++i) {
    if (s.chance(1, 4)) {  // zero exponents and prefactors
      AsyCost::ExponentMap m;
      const auto p = powers(s, r);
      for (std::size_t k = 0; k < p.size(); ++k) if (p[k] || s.coin()) m[r.spaces[k]] = p[k];
      const rational f = s.chance(1, 4) ? rational(0) : coefficient(s);
      Poly q{{p, f}};
      clean(q);
      // a cost that does not depend on sizes is none
      if (std::all_of(p.begin(), p.end(), [](auto x) { return x == 0; })) q.clear();
      v.push_back({AsyCost(m, f), q});
    } else {
      auto p = poly(s, r, false);
      v.push_back({r.cost(p), p});
    }
  }
  const int ops = (int)s.below(8);
  for (int i = 0; i < ops; ++i) {
    auto x = s.pick(v), y = s.pick(v);
    const rational f = s.chance(1, 10) ? rational(0) : coefficient(s);
    switch (s.below(8)) {
      case 0: v.push_back({x.a + y.a, add(x.p, y.p)}); break;
      case 1: v.push_back({x.a - y.a, add(x.p, y.p, -1)}); break;
      case 2: v.push_back({x.a * f, mul(x.p, f)}); break;
      case 3: v.push_back({f * x.a, mul(x.p, f)}); break;
      case 4: if (f != 0) v.push_back({x.a / f, mul(x.p, 1 / f)}); break;
      case 5: x.a += y.a; v.push_back({x.a, add(x.p, y.p)}); break;
      case 6: x.a -= y.a; v.push_back({x.a, add(x.p, y.p, -1)}); break;
      default: x.a += x.a; v.push_back({x.a, add(x.p, x.p)}); break;
    }
  }
  c.nontrivial = ops > 1;
  AsyCost::ExtentMap ext;
  std::vector<double> n;
  for (auto& sp : r.spaces) {
    if (s.chance(1, 6)) n.push_back((double)sp.approximate_size());
    else {
      const auto e = 1 + s.below(30);
      ext[sp] = e;
      n.push_back((double)e);
    }
  }
  for (auto& [a, p] : v) {
    c.note(text(r, p));
    double sc = 0;
    const double want = number(p, n, &sc);
    c.require(close(a.ops(ext), want, sc), "ops() of " + a.text() + ": " + std::to_string(a.ops(ext)) + " != " + std::to_string(want));
    const auto t = a.text(), l = u8(a.to_latex());
    auto q = read(r, t, false), ql = read(r, l, true);
    c.require(q && *q == p, "text(): " + t);
    c.require(ql && *ql == p, "to_latex(): " + l);
    c.require((a == AsyCost::zero()) == p.empty(), "comparison of " + t + " with zero");
    c.require(a < AsyCost::max() && !(AsyCost::max() < a) && AsyCost::max() != a, "not less than the maximum: " + t);
  }
  for (auto& x : v)
    for (auto& y : v) {
      const bool eq = x.p == y.p;
      c.require((x.a == y.a) == eq, "equality of " + x.a.text() + " and " + y.a.text());
      c.require((x.a != y.a) == !eq, "inequality of " + x.a.text() + " and " + y.a.text());
    }
}
void f_order(Case& c) {
  auto& s = c.s;
  const auto r = ring(s);
  std::vector<Poly> v;
  const int n = 3 + (int)s.below(3);
  for (int i = 0; i < n; ++i) {
    if (!v.empty() && s.chance(1, 3)) {  // close to another
      auto p = s.pick(v);
      if (!p.empty() && s.coin()) p.erase(std::next(p.begin(), s.below((std::uint32_t)p.size())));
      else p[powers(s, r, false)] += coefficient(s, true);
      v.push_back(p);
    } else
      v.push_back(poly(s, r, true));
  }
  std::vector<AsyCost> a;
  for (auto& p : v) a.push_back(r.cost(p)), c.note(a.back().text());
  c.nontrivial = true;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const int k = compare(v[i], v[j]);
      const auto what = a[i].text() + " and " + a[j].text();
      c.require((a[i] < a[j]) == (k < 0), "< of " + what);
      c.require((a[i] > a[j]) == (k > 0), "> of " + what);
      c.require((a[i] <= a[j]) == (k <= 0), "<= of " + what);
      c.require((a[i] >= a[j]) == (k >= 0), ">= of " + what);
      c.require((a[i] == a[j]) == (k == 0), "== of " + what);
    }
}

// --- evaluation trees -----------------------------------------------------------------
using Node = EvalExpr;
using Tree = EvalNode<Node>;
SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
Tree tree_of(const ExprPtr& e) { return binarize<Node>(e); }
SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
std::vector<Index> slots(const ExprPtr& e) {
  std::vector<Index> r;
  if (e->is<Tensor>()) for (auto& i : e->as<Tensor>().slots()) if (i.nonnull()) r.push_back(i);
  return r;
}
num::IndexSet set_of(const std::vector<Index>& v) { return num::IndexSet(v.begin(), v.end()); }
struct Extents {
  std::map<IndexSpace, double> n;
  AsyCost::ExtentMap map;
  double of(const num::IndexSet& v) const {
    double r = 1;
    for (auto& i : v) r *= n.at(i.space());
    return r;
  }
  /// elements of a tensor, 0 for scalars
  double size(const ExprPtr& e) const {
    if (!e->is<Tensor>()) return 0;
    double r = 1;
    for (auto& i : slots(e)) r *= n.at(i.space());
    return r;
  }
};
Extents extents(Src& s, const World& w) {
  Extents e;
  for (auto& sp : *w.isr) {
    const auto n = 1 + s.below(12);
    e.n[sp] = (double)n;
    e.map[sp] = n;
  }
  return e;
}
NetOptions net_options(Src& s) {
  NetOptions n;
  n.max_tensors = 4;
  n.min_tensors = 2;
  n.max_dummies = 5;
  n.hyper = s.chance(1, 4);
  n.trace = false;
  n.rank_labels = true;
  n.special = s.chance(1, 4);
  n.variables = s.coin();
  n.max_volume = 3e3;
  if (s.chance(1, 25)) n.max_tensors = 9, n.max_dummies = 8;
  return n;
}
ExprPtr input(Src& s, World& w, AttrMap& attrs, bool sum) {
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  ExprOptions eo;
  eo.net = net_options(s);
  eo.max_terms = sum ? 4 : 1;
  eo.depth = s.chance(1, 3);
  auto e = random_expr(s, w, attrs, ext, eo);
  if (s.chance(1, 6)) {
    e = e->clone();
    adjoint(e);
  }
  if (s.chance(1, 3)) e = optimize(e, OptimizeOptions{});
  return e;
}
bool has_empty(const ExprPtr& e) {
  if ((e->is<Sum>() || e->is<Product>()) && e->empty()) return true;
  if (e->is<Sum>() && *e->clone() != *e) return true;
  if (e->is_atom()) return false;
  for (auto& x : *e) if (has_empty(x)) return true;
  return false;
}
void f_trees(Case& c) {
  auto& s = c.s;
  auto w = make_world(s, {.max_extent = 3});
  AttrMap attrs;
  auto e = input(s, w, attrs, s.coin());
  if (has_empty(e)) throw pbt::Discard{};
  c.note(show(e));
  auto t = tree_of(e);
  const auto x = extents(s, w);
  c.nontrivial = !t.leaf() && !t.left().leaf();
  double total = 0, total_symm = 0, storage = 0;
  bool known = true;
  auto visit = [&](const Tree& n, auto& self) -> void {
    auto near = [&](const AsyCost& a, double v, const char* what) {
      c.require(close(a.ops(x.map), v, v), std::string(what) + " of " + show(n->expr()) + (n.leaf() ? "" : " = " + show(n.left()->expr()) + " . " + show(n.right()->expr())) + ": " + a.text() + ", not " + std::to_string(v));
    };
    if (n.leaf()) {
      near(Flops{}(n), 0, "Flops");
      near(FlopsWithSymm{}(n), 0, "FlopsWithSymm");
      near(asy_cost(n), 0, "asy_cost");
      storage = std::max(storage, x.size(n->expr()));
      return;
    }
    self(n.left(), self);
    self(n.right(), self);
    const auto L = n.left()->expr(), R = n.right()->expr(), T = n->expr();
    double f = 0;
    bool sure = true;
    if (n->op_type() == EvalOp::Product && L->is<Tensor>() && R->is<Tensor>()) {
      auto all = set_of(slots(L));
      for (auto& i : slots(R)) all.insert(i);
      const auto out = set_of(slots(T));
      const auto l = set_of(slots(L)), r = set_of(slots(R));
      bool common = false;   // in both factors and the result
      for (auto& i : out) common |= l.count(i) && r.count(i);
      f = x.of(all) * (all.size() == out.size() ? 1 : 2);
      if (common && all.size() == out.size()) sure = false;
    } else if (T->is<Tensor>())
      f = x.size(T);
    known &= sure;
    if (sure) near(Flops{}(n), f, "Flops");
    total += f;
    const double m = x.size(L) + x.size(R) + x.size(T);
    near(Memory{}(n), m, "Memory");
    storage = std::max(storage, m);
    const double g = FlopsWithSymm{}(n).ops(x.map);
    total_symm += g;
    if (sure) {
      double most = 1;
      if (T->is<Tensor>() && L->is<Tensor>() && R->is<Tensor>() && T->as<Tensor>().symmetry() != Symmetry::Nonsymm)
        for (auto k : {T->as<Tensor>().bra_rank(), T->as<Tensor>().ket_rank()}) for (std::size_t q = 2; q <= k; ++q) most *= (double)q;
      c.require(g <= f * (1 + 1e-9) && g >= f / most * (1 - 1e-9), "FlopsWithSymm of " + show(T) + ": " + FlopsWithSymm{}(n).text());
    }
  };
  visit(t, visit);
  if (known) c.require(close(asy_cost(t).ops(x.map), total, total), "asy_cost: " + asy_cost(t).text() + ", not " + std::to_string(total));
  c.require(close(asy_cost(t, FlopsWithSymm{}).ops(x.map), total_symm, total_symm), "asy_cost with symmetry: " + asy_cost(t, FlopsWithSymm{}).text());
  // the largest requirement by asymptotic order has the largest degree
  Poly best;
  Ring r;
  for (auto& sp : *w.isr) r.spaces.push_back(sp);
  std::sort(r.spaces.begin(), r.spaces.end());
  auto monomial = [&](const ExprPtr& y) {
    Poly p;
    if (!y->is<Tensor>()) return p;
    Powers m(r.spaces.size());
    for (auto& i : slots(y)) ++m.at(std::find(r.spaces.begin(), r.spaces.end(), i.space()) - r.spaces.begin());
    if (!slots(y).empty()) p[m] = 1;
    return p;
  };
  auto storages = [&](const Tree& n, auto& self) -> void {
    Poly p = monomial(n->expr());
    if (!n.leaf()) {
      self(n.left(), self), self(n.right(), self);
      p = add(add(p, monomial(n.left()->expr())), monomial(n.right()->expr()));
    }
    if (compare(p, best) > 0) best = p;
  };
  storages(t, storages);
  c.require(min_storage(t) == r.cost(best), "min_storage: " + min_storage(t).text() + ", not " + r.cost(best).text());
}

// --- cached intermediates ---------------------------------------------------------------
void f_cache(Case& c) {
  auto& s = c.s;
  auto w = make_world(s, {.max_extent = 3});
  AttrMap attrs;
  // terms with common parts
  auto ext = random_ext(s, w, 1, false);
  auto mid = random_ext(s, w, 2, false);
  std::vector<ExprPtr> parts;
  const int np = 1 + (int)s.below(3);
  for (int i = 0; i < np; ++i) {
    auto o = net_options(s);
    o.hyper = false, o.special = false, o.variables = false;
    o.max_tensors = 3;
    parts.push_back(random_net(s, w, attrs, mid, o).product(1));
  }
  auto sum = std::make_shared<Sum>();
  const int nt = 2 + (int)s.below(4);
  for (int i = 0; i < nt; ++i) {
    auto p = std::make_shared<Product>();
    p->scale(random_scalar(s));
    p->append(1, s.pick(parts)->clone(), Product::Flatten::No);
    container::svector<Index> b(mid.ket.begin(), mid.ket.end()), k(mid.bra.begin(), mid.bra.end());
    auto e = ext;
    for (auto& j : e.bra) b.push_back(j);
    for (auto& j : e.ket) k.push_back(j);
    if (b.size() + k.size()) p->append(1, ex<Tensor>(s.pick({L"X", L"Y", L"Z"}), bra(b), ket(k), aux{}, Symmetry::Nonsymm), Product::Flatten::No);
    sum->append(p);
  }
  if (!sum->is<Sum>() || sum->summands().size() < 1 || has_empty(sum)) throw pbt::Discard{};
  c.note(show(sum));
  std::vector<Tree> trees;
  for (auto& x : sum->summands()) trees.push_back(tree_of(x));
  Ring r;
  for (auto& sp : *w.isr) r.spaces.push_back(sp);
  std::sort(r.spaces.begin(), r.spaces.end());
  TreeNodeEqualityComparator<Tree> same;
  for (std::size_t least : {std::size_t(2), std::size_t(1)}) {
    struct Entry { const Tree* n; std::size_t count = 0, left = 0; bool stored = false; };
    std::vector<Entry> v;
    auto find = [&](const Tree& n) -> Entry* {
      for (auto& e : v) if (same(*e.n, n)) return &e;
      return nullptr;
    };
    // an intermediate is asked for once per use; those used in it only when it is made
    auto count = [&](const Tree& n, auto& self) -> void {
      if (n.leaf()) return;
      if (auto* e = find(n)) { ++e->count; return; }
      v.push_back({&n, 1});
      self(n.left(), self), self(n.right(), self);
    };
    for (auto& t : trees) count(t, count);
    int kept = 0;
    for (auto& e : v) e.left = e.count, kept += e.count >= 2;
    if (least == 2) c.nontrivial = kept > 0;
    Poly now, peak;
    auto size = [&](const Tree& n) {
      Poly p;
      if (!n->expr()->is<Tensor>() || slots(n->expr()).empty()) return p;
      Powers m(r.spaces.size());
      for (auto& i : slots(n->expr())) ++m.at(std::find(r.spaces.begin(), r.spaces.end(), i.space()) - r.spaces.begin());
      p[m] = 1;
      return p;
    };
    auto run = [&](const Tree& n, auto& self) -> void {
      if (n.leaf()) return;
      auto* e = find(n);
      const bool keep = e->count >= least;
      if (keep && e->stored) {
        if (--e->left == 0) now = add(now, size(n), -1), e->stored = false;
        return;
      }
      self(n.left(), self), self(n.right(), self);
      if (!keep) return;
      now = add(now, size(n));
      if (compare(now, peak) > 0) peak = now;
      e->stored = true;
      if (--e->left == 0) now = add(now, size(n), -1), e->stored = false;
    };
    for (auto& t : trees) run(t, run);
    const auto got = least == 2 && s.coin() ? peak_cache(sum->as<Sum>()) : peak_cache(sum->as<Sum>(), least);
    c.require(got == r.cost(peak), "peak of " + std::to_string(least) + " or more repeats: " + got.text() + ", not " + r.cost(peak).text());
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C19";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"algebra", "random sequences of operations on costs, compared with polynomials; non-trivial: more than one operation", f_algebra, 20000, 400000},
      {"order", "sets of costs compared in pairs with the signs of leading terms of differences; all non-trivial", f_order, 20000, 400000},
      {"trees", "evaluation trees of random expressions; non-trivial: an intermediate", f_trees, 6000, 100000},
      {"cache", "sums of terms with common parts; non-trivial: a repeated intermediate", f_cache, 4000, 60000},
  };
  return pbt::run(p, argc, argv);
}
