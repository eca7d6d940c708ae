// C23: biorthogonal transformation of closed-shell equations. The coefficients
// follow exactly from their definition (normalized pseudoinverse of the matrix of
// overlaps of permuted spin-free states, a class function of the symmetric
// group); the transformed expressions must have the value of the sums over
// permutations of external indices they stand for.
#include <SeQuant/domain/mbpt/biorthogonalization.hpp>

#include "spintrace.hpp"

#include <boost/multiprecision/cpp_int.hpp>

#include <cmath>
#include <complex>

namespace {
using Q = boost::multiprecision::cpp_rational;
using Pm = std::vector<int>;

// --- the group algebra ----------------------------------------------------------
std::vector<Pm> all_perms(int n) {
  Pm p(n);
  std::iota(p.begin(), p.end(), 0);
  std::vector<Pm> r;
  do r.push_back(p); while (std::next_permutation(p.begin(), p.end()));
  return r;
}
std::vector<int> cycle_type(const Pm& p) {
  std::vector<int> r;
  std::vector<char> seen(p.size());
  for (std::size_t i = 0; i < p.size(); ++i) {
    int len = 0;
    for (int k = (int)i; !seen[k]; k = p[k]) seen[k] = 1, ++len;
    if (len) r.push_back(len);
  }
  std::sort(r.begin(), r.end());
  return r;
}
/// class functions on S_n: what the coefficients have to be
struct Coefficients {
  std::map<std::vector<int>, Q> biorthogonal, projector;  // both times n!/rank
  Q rank;
};
const Coefficients& coefficients(int n) {
  static std::map<int, Coefficients> memo;
  if (auto it = memo.find(n); it != memo.end()) return it->second;
  const auto G = all_perms(n);
  std::map<std::vector<int>, int> cls;
  std::vector<Pm> rep;
  std::vector<long> size;
  for (auto& g : G) {
    auto [it, fresh] = cls.emplace(cycle_type(g), (int)cls.size());
    if (fresh) rep.push_back(g), size.push_back(0);
    ++size[it->second];
  }
  const int K = (int)cls.size();
  using V = std::vector<Q>;
  // structure constants: (f*g)(x) = sum over y of f(y) g(y^-1 x)
  std::vector<std::vector<std::vector<long>>> sc(K, std::vector<std::vector<long>>(K, std::vector<long>(K)));
  for (int x = 0; x < K; ++x)
    for (auto& y : G) {
      Pm inv(n), z(n);
      for (int i = 0; i < n; ++i) inv[y[i]] = i;
      for (int i = 0; i < n; ++i) z[i] = inv[rep[x][i]];
      ++sc[x][cls.at(cycle_type(y))][cls.at(cycle_type(z))];
    }
  auto conv = [&](const V& f, const V& g) {
    V r(K);
    for (int x = 0; x < K; ++x) for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) if (sc[x][a][b]) r[x] += f[a] * g[b] * sc[x][a][b];
    return r;
  };
  // overlaps: 2 to the number of loops, and the sign of the permutation
  V M(K);
  for (int x = 0; x < K; ++x) {
    const int cycles = (int)cycle_type(rep[x]).size();
    M[x] = Q((n - cycles) % 2 ? -1 : 1) * Q(1l << cycles);
  }
  // solve M^3 x = M; then M x is the pseudoinverse
  const V M3 = conv(M, conv(M, M));
  std::vector<V> A(K, V(K + 1));
  for (int j = 0; j < K; ++j) {
    V u(K);
    u[j] = 1;
    const V col = conv(M3, u);
    for (int i = 0; i < K; ++i) A[i][j] = col[i];
  }
  for (int i = 0; i < K; ++i) A[i][K] = M[i];
  V x(K);
  std::vector<int> pivots;
  int row = 0;
  for (int j = 0; j < K && row < K; ++j) {
    int p = row;
    while (p < K && A[p][j] == 0) ++p;
    if (p == K) continue;
    std::swap(A[p], A[row]);
    for (int i = 0; i < K; ++i)
      if (i != row && A[i][j] != 0) {
        const Q f = A[i][j] / A[row][j];
        for (int k = j; k <= K; ++k) A[i][k] -= f * A[row][k];
      }
    pivots.push_back(j);
    ++row;
  }
  for (int i = row; i < K; ++i) if (A[i][K] != 0) throw std::logic_error("no pseudoinverse");
  for (int i = 0; i < row; ++i) x[pivots[i]] = A[i][K] / A[i][pivots[i]];
  const V c = conv(M, x), pr = conv(M, c);
  Coefficients r;
  if (conv(M, pr) != M || conv(c, pr) != c) throw std::logic_error("not a pseudoinverse");
  std::vector<int> one(n, 1);
  r.rank = pr[cls.at(one)] * (long)G.size();
  for (auto& [t, k] : cls) {
    r.biorthogonal[t] = c[k] * (long)G.size() / r.rank;
    r.projector[t] = pr[k] * (long)G.size() / r.rank;
  }
  return memo[n] = r;
}
Fp field(const Q& q) { return Fp::of((long long)numerator(q)) * Fp::of((long long)denominator(q)).inv(); }

/// sum over permutations of the second indices of the pairs
Fp permuted_sum(int n, const std::map<std::vector<int>, Q>& c, const std::function<Fp(const Pm&)>& f) {
  Fp r;
  for (auto& p : all_perms(n)) {
    const Q& q = c.at(cycle_type(p));
    if (q != 0) r += field(q) * f(p);
  }
  return r;
}
Model plain(const World& w) {
  Model m = w.model;
  set_weights(m, {});
  return m;
}
Model aliased(const World& w, const std::vector<Index>& from, const std::vector<Index>& to) {
  Model m = w.model;
  std::map<std::wstring, std::wstring> a;
  for (std::size_t i = 0; i < from.size(); ++i) a[std::wstring(from[i].full_label())] = std::wstring(to[i].full_label());
  set_weights(m, {}, false, a);
  return m;
}
template <class V>
V permute(const V& v, const Pm& p) {
  V r;
  for (int i : p) r.push_back(v[i]);
  return r;
}
std::string pairs_text(const std::vector<Index>& b, const std::vector<Index>& k) {
  std::string r;
  for (std::size_t i = 0; i < b.size(); ++i) r += " " + num::show(b[i]) + "," + num::show(k[i]);
  return r;
}
gen::WorldOptions spatial() {
  auto o = world();
  o.spin = 0;
  o.max_extent = 2;
  return o;
}

// --- facets ------------------------------------------------------------------------
/// one expression, all externals of a kind in one space
void f_transform(Case& c) {
  auto& s = c.s;
  World w = gen::make_world(s, spatial());
  const int n = 1 + s.weighted({2, 5, 5, 1});
  gen::Ext ext;
  const auto bs = s.pick(w.spaces), ks = s.pick(w.spaces);
  for (int i = 0; i < n; ++i) ext.bra.push_back(w.make(bs)), ext.ket.push_back(w.make(ks));
  gen::AttrMap attrs;
  gen::ExprOptions eo;
  eo.net.max_tensors = n > 3 ? 2 : 3;
  eo.net.max_dummies = n > 2 ? 2 : 3;
  eo.net.variables = true;
  eo.net.trace = false;
  eo.max_terms = n > 3 ? 1 : n > 2 ? 2 : 3;
  eo.depth = 0;
  auto e = gen::random_expr(s, w, attrs, ext, eo);
  auto b = ext.bra, k = ext.ket;
  if (s.coin()) s.shuffle(k);
  c.note(w.name + "; pairs" + pairs_text(b, k));
  c.note(num::show(e));
  c.nontrivial = n > 1;
  const auto before = e->clone();
  ExprPtr r;
  const int how = s.below(4);
  if (how == 0) {
    ResultExpr re{sequant::bra(b), sequant::ket(k), sequant::aux(IndexList{}), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm, L"R", e->clone()};
    mb::biorthogonal_transform(re);
    r = re.expression();
    c.require(re.has_label() && re.label() == L"R" && std::equal(b.begin(), b.end(), re.bra().begin(), re.bra().end()) &&
                  std::equal(k.begin(), k.end(), re.ket().begin(), re.ket().end()),
              "the result itself changed");
    c.tag("result");
  } else if (how == 1) {
    SGroups g;
    for (int i = 0; i < n; ++i) {
      container::svector<SlottedIndex> v;
      v.emplace_back(b[i], SlotType::Bra), v.emplace_back(k[i], SlotType::Ket);
      g.push_back(v);
    }
    r = mb::biorthogonal_transform(e, g);
  } else {
    Groups g;
    for (int i = 0; i < n; ++i) g.push_back(container::svector<Index>{b[i], k[i]});
    r = mb::biorthogonal_transform(e, g);
  }
  c.require(*before == *e, "argument changed");
  c.note("becomes " + num::show(r));
  // expressions are to keep their value if pairs trade places: then it does not
  // matter which indices of the pairs are permuted
  auto sum = [&](const std::vector<Index>& x) {
    return permuted_sum(n, coefficients(n).biorthogonal, [&](const Pm& p) { return num::eval(e, aliased(w, x, permute(x, p)), {.externals = ext.all()}); });
  };
  const Fp got = num::eval(r, plain(w), {.externals = ext.all()});
  c.require(got == sum(k) || got == sum(b), "wrong value");
  c.tag("pairs " + std::to_string(n));
}

/// several expressions: indices of different spaces are paired in all ways
void f_sets(Case& c) {
  auto& s = c.s;
  auto wo = spatial();
  wo.unions = false;
  World w = gen::make_world(s, wo);
  const int n = 2 + s.weighted({4, 5, 2});
  std::vector<Index> b, k;
  auto some = [&] {
    std::vector<IndexSpace> r{s.pick(w.spaces), s.pick(w.spaces)};
    for (int k = 0; k < 4 && r[0] == r[1]; ++k) r[1] = s.pick(w.spaces);
    return r;
  };
  const auto bs = some(), ks = some();
  for (int i = 0; i < n; ++i) b.push_back(w.make(bs[s.below(2)])), k.push_back(w.make(ks[s.below(2)]));
  const auto d = w.make(s.pick(w.spaces));
  // a function of pairs that keeps its value if they trade places
  const int kind = n > 3 ? 0 : (int)s.below(3);
  const Symmetry sym = Symmetry::Nonsymm;
  const auto coef = gen::random_scalar(s, true);
  const bool second = n < 4 && s.coin();
  const Pm other = s.pick(all_perms(n));
  auto F = [&](std::vector<Index> x, std::vector<Index> y) {
    std::vector<ExprPtr> terms;
    auto T = [&](const wchar_t* l, const std::vector<Index>& p, const std::vector<Index>& q) {
      return ex<Tensor>(l, sequant::bra(p), sequant::ket(q), sequant::aux{}, sym, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm);
    };
    if (kind == 0) {
      terms.push_back(ex<Constant>(coef) * T(L"X", x, y));
    } else if (kind == 1) {
      for (int i = 0; i < n; ++i) {
        auto z = y;
        z[i] = d;
        terms.push_back(ex<Constant>(coef) * T(L"X", x, z) * T(L"h", {d}, {y[i]}));
      }
    } else {
      for (int i = 0; i < n; ++i) {
        auto x1 = x, y1 = y;
        x1.erase(x1.begin() + i), y1.erase(y1.begin() + i);
        terms.push_back(ex<Constant>(coef) * T(L"Y", x1, y1) * T(L"h", {x[i]}, {y[i]}));
      }
    }
    if (second) terms.push_back(T(L"Z", x, permute(y, other)));
    if (second && n == 3) {
      // all conjugates of the permutation
      terms.pop_back();
      for (auto& p : all_perms(n)) terms.push_back(T(L"Z", permute(x, p), permute(permute(y, p), other)));
    }
    return terms.size() == 1 ? terms[0] : ex<Sum>(terms.begin(), terms.end());
  };
  // one result for every way to pair spaces
  using Type = std::multiset<std::pair<std::wstring, std::wstring>>;
  auto type = [&](const std::vector<Index>& y) {
    Type t;
    for (int i = 0; i < n; ++i) t.insert({std::wstring(b[i].space().base_key()), std::wstring(y[i].space().base_key())});
    return t;
  };
  auto G = all_perms(n);
  s.shuffle(G);
  std::set<Type> seen;
  std::vector<std::vector<Index>> kets;
  for (auto& p : G) {
    auto y = permute(k, p);
    if (seen.insert(type(y)).second) kets.push_back(y);
  }
  bool dropped = false;
  if (kets.size() > 1 && s.chance(1, 8)) kets.erase(kets.begin() + s.below((std::uint32_t)kets.size())), dropped = true;
  container::svector<ResultExpr> rs;
  std::vector<std::pair<std::vector<Index>, std::vector<Index>>> ext;
  c.note(w.name + (dropped ? "; one pairing left out" : ""));
  for (auto& y : kets) {
    Pm p(n);
    std::iota(p.begin(), p.end(), 0);
    s.shuffle(p);
    ext.emplace_back(permute(b, p), permute(y, p));
    auto& [x1, y1] = ext.back();
    rs.emplace_back(sequant::bra(x1), sequant::ket(y1), sequant::aux(IndexList{}), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm, L"R", F(x1, y1));
    c.note("pairs" + pairs_text(x1, y1) + ": " + num::show(rs.back().expression()));
  }
  c.nontrivial = kets.size() > 1;
  try {
    mb::biorthogonal_transform(rs);
  } catch (const Exception& x) {
    if (dropped) {
      c.tag("pairing left out");
      return;
    }
    c.fail(std::string("exception: ") + x.what());
  }
  c.require(!dropped, "accepted although the expression of a pairing is missing");
  c.require(rs.size() == ext.size(), "number of results");
  num::IndexSet all(b.begin(), b.end());
  all.insert(k.begin(), k.end());
  for (std::size_t i = 0; i < rs.size(); ++i) {
    auto& [x, y] = ext[i];
    c.require(std::equal(x.begin(), x.end(), rs[i].bra().begin(), rs[i].bra().end()) && std::equal(y.begin(), y.end(), rs[i].ket().begin(), rs[i].ket().end()), "a result itself changed");
    const Fp want = permuted_sum(n, coefficients(n).biorthogonal, [&](const Pm& p) { return num::eval(F(x, permute(y, p)), plain(w), {.externals = all}); });
    c.require(num::eval(rs[i].expression(), plain(w), {.externals = all}) == want, "wrong value of result " + std::to_string(i) + ": " + num::show(rs[i].expression()));
  }
  c.tag("pairings " + std::to_string(rs.size()));
  c.tag("pairs " + std::to_string(n));
}

/// spin-traced residuals
void f_residuals(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world(false));
  g.complex_scalars = false;  // V2 compares magnitudes
  const int n = 1 + s.weighted({2, 4, 4});
  g.externals(n, true, true);
  for (auto& x : g.ket) if (x.space() != g.ket[0].space()) throw pbt::Discard{};
  auto e = g.expr(n > 2 ? 2 : 3, n > 2 ? 3 : 4, true, true);
  c.note(g.text());
  c.note(num::show(e));
  c.nontrivial = g.antisymm && n > 1;
  const auto before = e->clone();
  const bool naive = n < 3 && s.chance(1, 4);
  using mb::BiorthogonalizationMethod;
  auto trace = [&](BiorthogonalizationMethod m) {
    mb::ClosedShellCCSpintraceOptions o{.method = m, .naive_spintrace = naive};
    if (s.coin()) return mb::closed_shell_CC_spintrace(e, o);
    return m == BiorthogonalizationMethod::V1 ? mb::closed_shell_CC_spintrace_v1(e, o) : mb::closed_shell_CC_spintrace_v2(e, o);
  };
  const auto v1 = trace(BiorthogonalizationMethod::V1);
  c.note("V1: " + num::show(v1));
  const auto v2 = trace(BiorthogonalizationMethod::V2);
  c.note("V2: " + num::show(v2));
  c.require(*before == *e, "argument changed");

  auto traced_permuted = [&](const Pm& p) {
    Fp r;
    std::map<std::wstring, std::wstring> alias;
    for (int i = 0; i < n; ++i) alias[std::wstring(g.pairs[i].second.full_label())] = std::wstring(g.pairs[p[i]].second.full_label());
    for (std::uint32_t bits = 0; bits < (1u << n); ++bits) {
      auto m = spin_model(g.w.model, Mode::Closed);
      Spins sp;
      for (int i = 0; i < n; ++i) sp[nospin(std::wstring(g.pairs[i].first.full_label()))] = sp[nospin(std::wstring(g.pairs[p[i]].second.full_label()))] = 1 + (bits >> i & 1);
      set_weights(m, sp, false, alias);
      r += value(e, m);
    }
    return r;
  };
  const Fp want = permuted_sum(n, coefficients(n).biorthogonal, traced_permuted);
  Model m = g.w.model;
  set_weights(m, {});
  c.require(value(v1, m) == want, "V1 has a wrong value");
  std::vector<Index> k;
  for (auto& x : g.pairs) k.push_back(x.second);
  const Fp projected = n < 3 ? value(v2, m) : permuted_sum(n, coefficients(n).projector, [&](const Pm& p) { return value(v2, aliased(g.w, k, permute(k, p))); });
  c.require(projected == want, "V2, projected, has a wrong value");
  c.tag("pairs " + std::to_string(n));
}

/// weights of the projector, for arrays
void f_weights(Case& c) {
  auto& s = c.s;
  const int n = 1 + s.weighted({1, 2, 4, 4, 4});
  const auto G = all_perms(n);
  container::svector<std::size_t> ix;
  for (int i = 0; i < n; ++i) ix.push_back(7 * i + s.below(7));
  const std::vector<std::size_t> at(ix.begin(), ix.end());
  std::vector<std::complex<double>> wts;
  double tol = 1e-12;
  const int kind = s.weighted({3, 3, 3, 2});
  c.note("n = " + std::to_string(n) + ", kind " + std::to_string(kind));
  auto take = [&](auto& v) { for (auto& x : v) wts.emplace_back(x); };
  if (kind == 0) take(mb::detail::nns_projection_weights<double>(n));
  else if (kind == 1) take(mb::detail::nns_projection_weights<float>(n)), tol = 1e-6;
  else if (kind == 2) take(mb::detail::nns_projection_weights<std::complex<double>>(n));
  else {
    auto v = mb::detail::compute_nns_p_coeffs(n);
    take(v), tol = 1e-9;
  }
  c.key = c.what + std::to_string(s.bits());
  c.nontrivial = n > 2;
  if (kind < 3 && n < 3) {
    c.require(wts.empty(), "there is nothing to project");
    return;
  }
  c.require(wts.size() == G.size(), "number of weights");
  std::set<Pm> seen;
  for (std::size_t r = 0; r < G.size(); ++r) {
    auto v = mb::detail::compute_permuted_indices(ix, r, n);
    Pm p;
    for (auto& x : v) {
      auto it = std::find(at.begin(), at.end(), x);
      c.require(it != at.end(), "an index from nowhere");
      p.push_back(int(it - at.begin()));
    }
    c.require((int)p.size() == n && seen.insert(p).second, "permutation " + std::to_string(r) + " is none or repeated");
    const double want = (double)coefficients(n).projector.at(cycle_type(p));
    if (std::abs(wts[r] - want) > tol) c.fail("weight " + std::to_string(r) + " is " + std::to_string(wts[r].real()) + ", not " + std::to_string(want));
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C23";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"transform", "random sums of networks with 1-4 pairs of externals; non-trivial: more than one pair", f_transform, 1500, 20000},
      {"sets", "sets of results that pair 2-4 indices of up to 2 spaces with as many in all ways; non-trivial: more than one result", f_sets, 8000, 60000},
      {"residuals", "antisymmetrized random sums of networks with 1-3 pairs of externals, traced; non-trivial: antisymmetric tensors and more than one pair", f_residuals, 700, 8000, 180},
      {"weights", "projection weights of 1-5 pairs for several types; non-trivial: more than two pairs", f_weights, 400, 2000},
  };
  return pbt::run(p, argc, argv);
}
