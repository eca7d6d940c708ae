// Adjoints, commutation, reordering and merging of operators, against Fock space.
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include "gen.hpp"
#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
struct Setting {
  World w;
  Vacuum vac;
  num::EvalOptions eval;
  std::vector<IndexSpace> sp;
};
Setting make_setting(Case& c, bool mixed_spin = true) {
  Setting s;
  WorldOptions wo;
  wo.aux = false;
  wo.kinds = {0, 0, 0, 1, 2, 3};
  wo.spin = mixed_spin ? c.s.weighted({5, 1, 1}) : 0;
  s.vac = c.s.coin() ? Vacuum::Physical : Vacuum::SingleProduct;
  wo.vacuum = s.vac;
  s.w = make_world(c.s, wo);
  s.eval.operators = true;
  s.eval.physical_vacuum = s.vac == Vacuum::Physical;
  s.eval.max_work = 3e6;
  s.eval.state_seed = 1 + c.s.below(1000);
  for (auto& x : s.w.spaces) s.sp.push_back(x);
  return s;
}
const IndexSpace& space(Src& s, const Setting& st) { return st.sp[s.chance(1, 4) ? s.below((std::uint32_t)st.sp.size()) : s.below(2)]; }

struct Nop {
  std::vector<Index> cre, ann;
};
Nop random_nop(Src& s, Setting& st, int max_each) {
  Nop n;
  // not less than one operator
  const int k = 1 + (int)s.below(2 * max_each);
  for (int q = 0; q < k; ++q) {
    auto& v = s.coin() ? n.cre : n.ann;
    if ((int)v.size() < max_each) v.push_back(st.w.make(space(s, st)));
  }
  if (n.cre.empty() && n.ann.empty()) n.cre.push_back(st.w.make(space(s, st)));
  return n;
}
template <Statistics S>
NormalOperator<S> make_nop(const Nop& n, Vacuum v) {
  container::svector<Index> c(n.cre.begin(), n.cre.end()), a(n.ann.begin(), n.ann.end());
  return NormalOperator<S>(cre(c), ann(a), v);
}
// an operator with a tensor of amplitudes
template <Statistics S>
void dressed(Src& s, const Nop& n, Vacuum v, AttrMap& attrs, std::vector<ExprPtr>& out) {
  auto l = s.pick({L"t", L"h", L"g"});
  std::wstring key = std::wstring(l) + std::to_wstring(n.cre.size()) + L"," + std::to_wstring(n.ann.size());
  if (!attrs.count(key)) attrs[key] = random_attr(s);
  auto a = attrs[key];
  container::svector<Index> b(n.cre.begin(), n.cre.end()), k(n.ann.begin(), n.ann.end());
  out.push_back(ex<Tensor>(l, bra(b), ket(k), a.s, a.b, a.c));
  out.push_back(ex<NormalOperator<S>>(make_nop<S>(n, v)));
}

num::F value(const ExprPtr& e, const Setting& st, const num::EvalOptions& o) {
  try {
    return num::eval(e, st.w.model, o);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}

// number-conserving on the whole, so that expectation values are not all zero:
// every operator is made with the adjoint of its kind later in the product
template <Statistics S>
ExprPtr random_product(Case& c, Setting& st, AttrMap& attrs, int nops) {
  auto& s = c.s;
  std::vector<Nop> v;
  for (int k = 0; k < nops; ++k) {
    if (k && s.chance(3, 5)) {
      const auto& p = v[s.below((std::uint32_t)v.size())];
      Nop n;
      for (auto& i : p.cre) n.ann.push_back(st.w.make(i.space()));
      for (auto& i : p.ann) n.cre.push_back(st.w.make(i.space()));
      v.push_back(n);
    } else
      v.push_back(random_nop(s, st, 2));
  }
  auto p = std::make_shared<Product>();
  p->scale(random_scalar(s));
  std::vector<ExprPtr> f;
  for (auto& n : v) dressed<S>(s, n, s.chance(1, 12) ? Vacuum::Physical : st.vac, attrs, f);
  if (s.chance(1, 3)) {
    auto x = ex<Variable>(s.pick({L"x", L"y"}));
    if (s.coin()) x->as<Variable>().conjugate();
    f.insert(f.begin() + s.below((std::uint32_t)f.size() + 1), x);
  }
  if (s.chance(1, 6)) f.insert(f.begin() + s.below((std::uint32_t)f.size() + 1), ex<Power>(ex<Variable>(L"x"), rational(2)));
  // nest some neighbours
  if (f.size() > 2 && s.chance(1, 3)) {
    const auto a = s.below((std::uint32_t)f.size() - 1);
    auto q = std::make_shared<Product>();
    q->scale(random_scalar(s));
    q->append(1, f[a], Product::Flatten::No);
    q->append(1, f[a + 1], Product::Flatten::No);
    f[a] = q;
    f.erase(f.begin() + a + 1);
  }
  for (auto& x : f) p->append(1, x, Product::Flatten::No);
  return ExprPtr(p);
}

template <Statistics S>
void adjoints(Case& c) {
  auto& s = c.s;
  auto st = make_setting(c);
  if (S == Statistics::BoseEinstein) throw pbt::Discard{};
  AttrMap attrs;
  ExprPtr e;
  const int terms = 1 + (int)s.below(3);
  if (terms == 1) e = random_product<S>(c, st, attrs, 1 + (int)s.below(3));
  else {
    auto sum = std::make_shared<Sum>();
    for (int k = 0; k < terms; ++k) sum->append(random_product<S>(c, st, attrs, 1 + (int)s.below(3)));
    e = ExprPtr(sum);
    if (s.chance(1, 3)) {
      auto p = std::make_shared<Product>();
      p->scale(random_scalar(s));
      p->append(1, e, Product::Flatten::No);
      p->append(1, random_product<S>(c, st, attrs, 1), Product::Flatten::No);
      e = ExprPtr(p);
    }
  }
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi"));
  c.note(num::show(e));
  const auto before = e->clone();
  if (s.coin()) (void)e->hash_value();
  ExprPtr a;
  if (s.coin()) {
    a = adjoint(e);
    c.require(*e == *before, "adjoint() changed its argument");
  } else {
    a = e;
    a->adjoint();
  }
  c.note(num::show(a));
  c.require(a->hash_value() == a->clone()->hash_value(), "stale hash of the adjoint");
  // nested products are flattened
  auto aa = adjoint(a), flat = before->clone();
  flatten(flat);
  if (!(*aa == *before) && !(*aa == *flat)) c.fail("the adjoint of the adjoint is not the original: " + num::show(aa));
  auto aaa = adjoint(aa), aaaaa = adjoint(adjoint(aaa));
  if (!(*aaa == *a) && !(*aaaaa == *aaa)) c.fail("the adjoint of the adjoint of the adjoint is not the adjoint: " + num::show(aaa));
  // <0|X+|0> = conj <0|X|0>, <x|X+|y> = conj <y|X|x>: the latter by operators
  // that take the vacuum to x and y
  auto o = st.eval;
  o.vacuum_expectation = true;
  o.externals = num::IndexSet{};
  auto v1 = value(before, st, o), v2 = value(a, st, o);
  if (!v1.zero()) c.nontrivial = true;
  if (!(v2 == v1.conj())) c.fail("vacuum expectation value of the adjoint is " + v2.str() + ", of the original " + v1.str());
  Nop l = random_nop(s, st, 2), r = random_nop(s, st, 2);
  std::vector<ExprPtr> lf, rf;
  dressed<S>(s, l, st.vac, attrs, lf);
  dressed<S>(s, r, st.vac, attrs, rf);
  auto mk = [](const std::vector<ExprPtr>& x, const ExprPtr& m, const std::vector<ExprPtr>& y) {
    auto p = std::make_shared<Product>();
    for (auto& q : x) p->append(1, q->clone(), Product::Flatten::No);
    p->append(1, m->clone(), Product::Flatten::No);
    for (auto& q : y) p->append(1, q->clone(), Product::Flatten::No);
    return ExprPtr(p);
  };
  auto adj = [](const std::vector<ExprPtr>& x) {
    std::vector<ExprPtr> y;
    for (auto it = x.rbegin(); it != x.rend(); ++it) y.push_back(adjoint(*it));
    return y;
  };
  v1 = value(mk(lf, before, rf), st, o);
  v2 = value(mk(adj(rf), a, adj(lf)), st, o);
  if (!v1.zero()) c.nontrivial = true;
  if (!(v2 == v1.conj())) c.fail("matrix element of the adjoint is " + v2.str() + ", of the original " + v1.str());
}

// commutes_with is never true for operators that do not commute
void commutation(Case& c) {
  auto& s = c.s;
  auto st = make_setting(c);
  AttrMap attrs;
  auto atom = [&]() -> ExprPtr {
    switch (s.weighted({8, 1, 1, 1})) {
      case 0: return ex<FNOperator>(make_nop<Statistics::FermiDirac>(random_nop(s, st, 2), s.chance(1, 8) ? Vacuum::Physical : st.vac));
      case 1: return ex<Variable>(L"x");
      case 2: return ex<Constant>(2);
      default: return ex<Tensor>(L"t", bra{st.w.make(space(s, st))}, ket{st.w.make(space(s, st))});
    }
  };
  auto compound = [&]() -> ExprPtr {
    const int k = s.weighted({6, 2, 1});
    if (k == 0) return atom();
    auto a = atom(), b = atom();
    if (k == 1) return a * b;
    return a + b;
  };
  auto a = compound(), b = compound();
  c.note(st.w.name);
  c.note(num::show(a));
  c.note(num::show(b));
  const bool ab = a->commutes_with(*b), ba = b->commutes_with(*a);
  c.require(ab == ba, "commutes_with is not symmetric");
  c.nontrivial = !a->is_cnumber() && !b->is_cnumber();
  c.tag(ab ? "said to commute" : "said not to commute");
  auto o = st.eval;
  auto p = std::make_shared<Product>(), q = std::make_shared<Product>();
  p->append(1, a->clone(), Product::Flatten::No), p->append(1, b->clone(), Product::Flatten::No);
  q->append(1, b->clone(), Product::Flatten::No), q->append(1, a->clone(), Product::Flatten::No);
  o.externals = num::all_indices(ExprPtr(p));
  auto v1 = value(ExprPtr(p), st, o), v2 = value(ExprPtr(q), st, o);
  if (ab && !(v1 == v2)) c.fail("said to commute, but ab = " + v1.str() + ", ba = " + v2.str());
  if (a->is_cnumber() || b->is_cnumber()) c.require(ab, "a c-number is said not to commute");
}

// nested sums and products without externals may have reused the names of
// dummies, each is a scope of its own
ExprPtr scoped(const ExprPtr& e, Setting& st, bool top = true) {
  if (top) st.w.next.clear();
  if (e->is<Sum>()) {
    auto r = std::make_shared<Sum>();
    for (auto& t : e->as<Sum>().summands()) r->append(scoped(t, st, top));
    return ExprPtr(r);
  }
  if (!e->is<Product>()) return e->clone();
  bool leaves = false;
  for (auto& f : e->as<Product>().factors())
    if (f->is<Tensor>() || f->is<FNOperator>()) leaves = true;
  if (leaves) {
    IndexMap m;
    for (auto& i : num::all_indices(e)) m.emplace(i, st.w.make(i.space()));
    return map_expr(e, m);
  }
  auto r = std::make_shared<Product>();
  r->scale(e->as<Product>().scalar());
  for (auto& f : e->as<Product>().factors()) r->append(1, scoped(f, st, false), Product::Flatten::No);
  return ExprPtr(r);
}

// products with operators keep their value when canonicalized / simplified
void reordering(Case& c) {
  auto& s = c.s;
  auto st = make_setting(c);
  AttrMap attrs;
  ExprPtr e = random_product<Statistics::FermiDirac>(c, st, attrs, 1 + (int)s.below(3));
  if (s.chance(1, 3)) e = ex<Sum>(ExprPtrList{e, random_product<Statistics::FermiDirac>(c, st, attrs, 1 + (int)s.below(2))});
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi"));
  c.note(num::show(e));
  auto o = st.eval;
  o.externals = num::IndexSet{};
  auto v = value(e, st, o);
  c.nontrivial = !v.zero();
  auto r = e->clone();
  std::string how;
  switch (s.below(5)) {
    case 4: {
      // products of sums of operators, not expanded
      auto p = std::make_shared<Product>();
      const int n = 1 + (int)s.below(2);
      flatten(r);
      p->append(1, r, Product::Flatten::No);
      for (int k = 0; k < n; ++k) {
        auto x = random_product<Statistics::FermiDirac>(c, st, attrs, 1);
        if (s.coin()) x = ex<Sum>(ExprPtrList{x, random_product<Statistics::FermiDirac>(c, st, attrs, 1)});
        flatten(x);
        p->append(1, x, Product::Flatten::No);
      }
      r = ExprPtr(p);
      c.note(num::show(r));
      v = value(r, st, o);
      if (!v.zero()) c.nontrivial = true;
      if (s.coin()) canonicalize(r); else simplify(r);
      how = "canonicalize/simplify of a product of sums";
      break;
    }
    case 0: expand(r); how = "expand"; break;
    case 1: expand(r); flatten(r); canonicalize(r); how = "canonicalize"; break;
    case 2: simplify(r); how = "simplify"; break;
    default: expand(r); rapid_simplify(r); how = "rapid_simplify";
  }
  c.note(how);
  auto u = value(scoped(r, st), st, o);
  if (!(u == v)) c.fail(how + " changed the value from " + v.str() + " to " + u.str() + ": " + num::show(r));
}

// merging a sequence of operators into one, without contractions
template <Statistics S>
void merging(Case& c) {
  auto& s = c.s;
  auto st = make_setting(c);
  const int n = 1 + (int)s.below(4);
  std::vector<NormalOperator<S>> nops;
  std::vector<std::pair<int, Index>> ops;
  std::vector<Index> cr, an;
  for (int k = 0; k < n; ++k) {
    auto x = random_nop(s, st, 3);
    if (!x.cre.empty() && s.chance(1, 3)) x.ann.push_back(x.cre[0]);
    nops.push_back(make_nop<S>(x, st.vac));
    for (auto& op : nops.back()) {
      ops.emplace_back(op.action() == Action::Create, op.index());
      (op.action() == Action::Create ? cr : an).push_back(op.index());
    }
    c.note(u8(nops.back().to_latex()));
  }
  using Q = NormalOperatorSequence<S>;
  auto seq = n == 1 ? Q(nops[0]) : n == 2 ? Q(nops[0], nops[1]) : n == 3 ? Q(nops[0], nops[1], nops[2]) : Q(nops[0], nops[1], nops[2], nops[3]);
  // pairs that should share a column
  container::svector<std::pair<Index, Index>> partners;
  if (s.chance(2, 3)) {
    auto x = cr, y = an;
    s.shuffle(x), s.shuffle(y);
    const auto m = s.below((std::uint32_t)std::min(x.size(), y.size()) + 1);
    for (std::size_t k = 0; k < m; ++k) partners.emplace_back(x[k], y[k]);
    if (s.chance(1, 4)) partners.emplace_back(st.w.make(space(s, st)), st.w.make(space(s, st)));
    for (auto& [a, b] : partners) c.note("pair " + num::show(a) + " " + num::show(b));
  }
  auto [phase, res] = normalize(seq, partners);
  c.require(phase == 1 || phase == -1, "the phase is " + std::to_string(phase));
  c.require(res->vacuum() == seq.vacuum(), "vacuum changed");
  // the result as a permutation of the operators
  std::vector<std::pair<int, Index>> out;
  for (auto& op : *res) out.emplace_back(op.action() == Action::Create, op.index());
  c.require(out.size() == ops.size(), "number of operators changed");
  std::vector<std::size_t> perm;
  std::vector<bool> used(ops.size());
  for (auto& x : out) {
    std::size_t k = 0;
    while (k < ops.size() && (used[k] || !(ops[k] == x))) ++k;
    c.require(k < ops.size(), "operator " + num::show(x.second) + " was not there");
    used[k] = true;
    perm.push_back(k);
  }
  bool annih = false;
  for (auto& x : out) {
    if (x.first) c.require(!annih, "a creator right of an annihilator");
    else annih = true;
  }
  int sign = 1;
  for (std::size_t a = 0; a < perm.size(); ++a)
    for (std::size_t b = a + 1; b < perm.size(); ++b)
      if (perm[a] > perm[b]) sign = -sign;
  if (S == Statistics::BoseEinstein) sign = 1;
  if (sign != phase) c.fail("phase " + std::to_string(phase) + " instead of " + std::to_string(sign) + " of " + u8(res->to_latex()));
  // columns are aligned from the right
  auto crs = res->creators();
  std::vector<Index> C, A;
  for (auto&& op : res->creators()) C.push_back(op.index());
  for (auto&& op : res->annihilators()) A.push_back(op.index());
  const auto nc = C.size(), na = A.size();
  // an index that is in one column only with another one can always be paired
  for (auto& [a, b] : partners) {
    std::size_t pc = std::find(C.begin(), C.end(), a) - C.begin(), pa = std::find(A.begin(), A.end(), b) - A.begin();
    if (pc == nc || pa == na) continue;
    const bool paired = nc - pc == na - pa;
    // every wished pair fits if as many columns as pairs exist in total
    if (nc == na && !paired) c.fail("pair " + num::show(a) + " " + num::show(b) + " is not in one column of " + u8(res->to_latex()));
  }
  c.nontrivial = n > 1 && ops.size() > 2;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C06";
  p.facets = {
      {"adjoint",
       "sums and nested products of tensors, scalars and fermionic operators: adjoint twice is the original, matrix elements are conjugated; non-trivial: a "
       "matrix element is not zero",
       adjoints<Statistics::FermiDirac>, 60000, 600000},
      {"commute", "two expressions: commutes_with is symmetric and true only if they commute on Fock space; non-trivial: both are operators", commutation, 300000, 3000000},
      {"reorder", "products of tensors and operators keep their value when expanded, canonicalized or simplified; non-trivial: the matrix element is not zero", reordering, 150000,
       2000000},
      {"merge-fermions", "normalize(NormalOperatorSequence): a permutation of the operators, creators first, with its sign and the wished columns; non-trivial: >1 operators",
       merging<Statistics::FermiDirac>, 200000, 3000000},
      {"merge-bosons", "the same for bosons", merging<Statistics::BoseEinstein>, 100000, 1000000}};
  p.assumptions = {"a BraKetSymmetry::Symm tensor is real, one with BraKetSymmetry::Conjugate is Hermitian"};
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
