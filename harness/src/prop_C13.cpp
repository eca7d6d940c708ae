// Evaluation trees: binarize, evaluate, cache manager, batching, CSE.
#include <SeQuant/core/optimize/extract_subtrees.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include "gen.hpp"
#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
using num::F;
using num::show;
using Annotation = std::vector<Index>;

// ---- a backend: dense arrays over GF(p^2) -------------------------------
struct Array {
  std::vector<std::size_t> dims;
  std::vector<F> v;
  bool operator==(const Array&) const = default;
};
long live_elements = 0, made_products = 0;

class Dense final : public Result {
 public:
  explicit Dense(Array a) : Result(std::move(a)) { live_elements += (long)arr().v.size(); }
  ~Dense() override { live_elements -= (long)arr().v.size(); }
  const Array& arr() const { return get<Array>(); }

  static std::map<Index, std::size_t, Index::FullLabelCompare> extents(const Dense& d, const Annotation& a,
                                                                      std::map<Index, std::size_t, Index::FullLabelCompare> m = {}) {
    if (a.size() != d.arr().dims.size()) throw pbt::Fail("annotation of " + std::to_string(a.size()) + " indices for an array of rank " + std::to_string(d.arr().dims.size()));
    for (std::size_t k = 0; k < a.size(); ++k) {
      auto [it, fresh] = m.emplace(a[k], d.arr().dims[k]);
      if (!fresh && it->second != d.arr().dims[k]) throw pbt::Fail("index " + show(a[k]) + " has different extents in the operands");
    }
    return m;
  }
  // out[c] = sum over everything else of l * r
  static ResultPtr einsum(const Dense& l, const Annotation& la, const Dense* r, const Annotation& ra, const Annotation& ca, bool conj) {
    auto m = extents(l, la);
    if (r) m = extents(*r, ra, m);
    std::vector<Index> all(ca.begin(), ca.end());
    for (auto& i : ca)
      if (!m.count(i)) throw pbt::Fail("index " + show(i) + " of the result is in neither operand");
    for (auto& [i, n] : m)
      if (std::none_of(ca.begin(), ca.end(), [&](auto& x) { return Index::FullLabelCompare{}(x, i) == false && Index::FullLabelCompare{}(i, x) == false; })) all.push_back(i);
    double vol = 1;
    for (auto& i : all) vol *= (double)m.at(i);
    if (vol > 3e5) throw pbt::Discard{};
    std::map<Index, std::size_t, Index::FullLabelCompare> pos;
    std::vector<std::size_t> n;
    for (std::size_t k = 0; k < all.size(); ++k) pos[all[k]] = k, n.push_back(m.at(all[k]));
    if (pos.size() != all.size()) throw pbt::Fail("index listed twice in a result");
    auto strides = [&](const Annotation& a) {
      std::vector<std::size_t> s(all.size(), 0);
      std::size_t st = 1;
      for (auto k = a.size(); k-- > 0;) s[pos.at(a[k])] += st, st *= m.at(a[k]);
      return s;
    };
    auto sl = strides(la), sr = r ? strides(ra) : std::vector<std::size_t>(all.size(), 0), sc = strides(ca);
    Array out;
    std::size_t sz = 1;
    for (auto& i : ca) out.dims.push_back(m.at(i)), sz *= m.at(i);
    out.v.assign(sz, F());
    std::vector<std::size_t> x(all.size(), 0);
    bool done = false;
    for (auto q : n) done |= q == 0;
    std::size_t ol = 0, orr = 0, oc = 0;
    while (!done) {
      F y = l.arr().v[ol];
      if (conj) y = y.conj();
      out.v[oc] += r ? y * r->arr().v[orr] : y;
      std::size_t k = n.size();
      done = true;
      while (k-- > 0) {
        ++x[k], ol += sl[k], orr += sr[k], oc += sc[k];
        if (x[k] < n[k]) {
          done = false;
          break;
        }
        ol -= sl[k] * n[k], orr -= sr[k] * n[k], oc -= sc[k] * n[k];
        x[k] = 0;
      }
    }
    return eval_result<Dense>(std::move(out));
  }
  ResultPtr sum(const Result& o, const std::array<std::any, 3>& an) const override {
    Annot<Annotation> a(an);
    for (auto* x : {&a.lannot, &a.rannot})
      if (std::set<Index, Index::FullLabelCompare>(x->begin(), x->end()) != std::set<Index, Index::FullLabelCompare>(a.this_annot.begin(), a.this_annot.end()))
        throw pbt::Fail("summands and sum have different indices");
    auto l = einsum(*this, a.lannot, nullptr, {}, a.this_annot, false), r = einsum(o.as<Dense>(), a.rannot, nullptr, {}, a.this_annot, false);
    l->add_inplace(*r);
    return l;
  }
  ResultPtr prod(const Result& o, const std::array<std::any, 3>& an, DeNest) const override {
    Annot<Annotation> a(an);
    ++made_products;
    return einsum(*this, a.lannot, &o.as<Dense>(), a.rannot, a.this_annot, false);
  }
  ResultPtr permute(const std::array<std::any, 2>& an) const override {
    return einsum(*this, std::any_cast<Annotation>(an[0]), nullptr, {}, std::any_cast<Annotation>(an[1]), false);
  }
  ResultPtr adjoint(const std::array<std::any, 2>& an) const override {
    return einsum(*this, std::any_cast<Annotation>(an[0]), nullptr, {}, std::any_cast<Annotation>(an[1]), true);
  }
  ResultPtr slice_mode(std::size_t mode, std::size_t lo, std::size_t hi) const override {
    Array r;
    r.dims = arr().dims;
    r.dims.at(mode) = hi - lo;
    std::size_t in = 1, out = 1;
    for (std::size_t k = 0; k < mode; ++k) out *= arr().dims[k];
    for (std::size_t k = mode + 1; k < arr().dims.size(); ++k) in *= arr().dims[k];
    for (std::size_t a = 0; a < out; ++a)
      for (std::size_t b = lo; b < hi; ++b)
        for (std::size_t c = 0; c < in; ++c) r.v.push_back(arr().v[(a * arr().dims[mode] + b) * in + c]);
    return eval_result<Dense>(std::move(r));
  }
  container::svector<std::pair<std::size_t, std::size_t>> mode_batches(std::size_t mode, std::size_t target) const override {
    container::svector<std::pair<std::size_t, std::size_t>> r;
    target = std::max<std::size_t>(1, target);
    for (std::size_t k = 0; k < arr().dims.at(mode); k += target) r.emplace_back(k, std::min(k + target, arr().dims[mode]));
    return r;
  }
  void add_inplace(const Result& o) override {
    auto& a = get<Array>();
    auto& b = o.as<Dense>().arr();
    if (a.dims != b.dims) throw pbt::Fail("adding arrays of different shapes");
    for (std::size_t k = 0; k < a.v.size(); ++k) a.v[k] += b.v[k];
  }
  ResultPtr symmetrize() const override { throw std::logic_error("symmetrize"); }
  ResultPtr antisymmetrize(std::size_t) const override { throw std::logic_error("antisymmetrize"); }
  ResultPtr mult_by_phase(std::int8_t p) const override {
    Array r = arr();
    if (p != 1 && p != -1) throw pbt::Fail("phase is not +-1");
    if (p < 0)
      for (auto& x : r.v) x = -x;
    return eval_result<Dense>(std::move(r));
  }
  std::size_t size_in_bytes() const override { return arr().v.size() * sizeof(F); }
  id_t type_id() const noexcept override { return id_for_type<Dense>(); }
};

class Node final : public EvalExpr {
 public:
  template <typename... A, typename = std::enable_if_t<std::is_constructible_v<EvalExpr, A...>>>
  Node(A&&... a) : EvalExpr{std::forward<A>(a)...} { annot_.assign(canon_indices().begin(), canon_indices().end()); }
  const Annotation& annot() const noexcept { return annot_; }

 private:
  Annotation annot_;
};
using Tree = EvalNode<Node>;
static_assert(sequant::meta::can_evaluate<Tree>);

// values of leaves; keeps arrays it has handed out and can tell whether
// somebody has changed them
struct Leaves {
  num::Model m;
  bool memo = true;
  std::map<std::wstring, ResultPtr> named;      // results by label: CSE intermediates
  std::map<std::wstring, Annotation> named_ix;
  std::map<std::string, std::pair<ResultPtr, Array>> given;
  std::map<std::string, long> calls;

  std::pair<std::string, Array> make(const Tree& n) const {
    const Node& x = *n;
    Array a;
    std::string key;
    if (x.is_tensor()) {
      auto& t = x.as_tensor();
      const auto& ix = x.annot();
      key = show(x.expr()) + "|";
      for (auto& i : ix) a.dims.push_back(m.orbitals(i.space()).size()), key += show(i) + ",";
      a.v = num::elements(t, m, ix);
    } else {
      key = show(x.expr());
      num::EvalOptions o;
      o.externals = num::IndexSet{};
      a.v = {num::eval(x.expr(), m, o)};
    }
    return {key, a};
  }
  ResultPtr operator()(const Tree& n) {
    const Node& x = *n;
    if (!n.leaf()) throw pbt::Fail("leaf evaluator called for an internal node");
    if (x.is_tensor() || x.is_variable()) {
      const std::wstring l(x.is_tensor() ? x.as_tensor().label() : x.as_variable().label());
      if (auto it = named.find(l); it != named.end()) {
        // an intermediate: indices by position
        auto& def = named_ix.at(l);
        if (!x.is_tensor()) return it->second;
        auto ax = x.as_tensor().aux();
        Annotation use(ax.begin(), ax.end());
        if (use.size() != def.size() || x.as_tensor().bra().size() || x.as_tensor().ket().size()) throw pbt::Fail("intermediate used with other slots than it is defined with");
        return it->second->permute({use, x.annot()});
      }
      if (l.substr(0, 3) == L"CSE") throw pbt::Fail("intermediate used before it is defined");
    }
    auto [key, a] = make(n);
    ++calls[key];
    if (!memo) return eval_result<Dense>(a);
    auto it = given.find(key);
    if (it == given.end()) it = given.emplace(key, std::pair{eval_result<Dense>(a), a}).first;
    return it->second.first;
  }
  void untouched() const {
    for (auto& [k, p] : given)
      if (!(p.first->as<Dense>().arr() == p.second)) throw pbt::Fail("evaluation changed an array it got from the leaf evaluator: " + k);
  }
};

// result array contracted with the weights of the external indices
F folded(const ResultPtr& r, const Annotation& ix, const num::Model& m, const num::IndexSet& ext) {
  if (!r) throw pbt::Fail("no result");
  auto& a = r->as<Dense>().arr();
  if (ix.size() != a.dims.size()) throw pbt::Fail("result has rank " + std::to_string(a.dims.size()) + " instead of " + std::to_string(ix.size()));
  num::IndexSet have(ix.begin(), ix.end());
  F extra(1, 0);
  for (auto& i : have)
    if (!ext.count(i)) throw pbt::Fail("result has the index " + show(i));
  for (auto& i : ext)
    if (!have.count(i)) {
      F w;
      for (auto q : m.orbitals(i.space())) w += m.weight(i, q);
      extra *= w;
    }
  F total;
  std::vector<std::vector<F>> w;
  for (auto& i : ix) {
    w.emplace_back();
    for (auto q : m.orbitals(i.space())) w.back().push_back(m.weight(i, q));
  }
  std::vector<std::size_t> x(ix.size(), 0);
  for (auto& y : a.v) {
    F z = y;
    for (std::size_t k = 0; k < ix.size(); ++k) z *= w[k].at(x[k]);
    total += z;
    for (std::size_t k = ix.size(); k-- > 0;) {
      if (++x[k] < w[k].size()) break;
      x[k] = 0;
    }
  }
  return total * extra;
}

F value(const ExprPtr& e, const num::Model& m, const num::IndexSet& ext) {
  num::EvalOptions o;
  o.externals = ext;
  o.max_work = 1e6;
  try {
    return num::eval(e, m, o);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}

NetOptions net_options(Src& s) {
  NetOptions n;
  n.max_tensors = 1 + (int)s.below(4);
  n.max_dummies = 4;
  n.hyper = s.chance(1, 3);
  n.trace = false;  // a tensor contracted with itself is not evaluated (binarize)
  n.halves = s.chance(1, 3);
  n.rank_labels = true;  // blocks are identified by label and spaces only
  n.special = s.chance(1, 4);
  n.variables = s.coin();
  n.max_volume = 3e3;
  if (s.chance(1, 25)) n.max_tensors = 9, n.max_dummies = 8;
  return n;
}
World world(Src& s) {
  WorldOptions wo;
  wo.spin = s.weighted({5, 1, 1});
  wo.max_extent = 3;
  auto w = make_world(s, wo);
  return w;
}

struct Problem {
  ExprPtr e;
  num::IndexSet ext;
  ResultExpr re;
};
ResultExpr result_expr(Src& s, const ExprPtr& e, const num::IndexSet& ext, const std::wstring& label = L"R") {
  std::vector<Index> k(ext.begin(), ext.end());
  if (k.empty()) return ResultExpr(Variable(label), e->clone());
  s.shuffle(k);
  container::svector<Index> b[3];
  for (auto& i : k) b[i.has_proto_indices() ? 2 : s.below(3)].push_back(i);
  return ResultExpr(Tensor(label, bra(b[0]), ket(b[1]), aux(b[2]), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e->clone());
}

ExprPtr rename(World& w, Src& s, const ExprPtr& e, const num::IndexSet& ext, IndexMap& map, bool externals) {
  // dummies get new names, externals are renamed within their space
  for (auto& i : num::all_indices(e)) {
    if (map.count(i)) continue;
    if (i.has_proto_indices()) continue;
    if (!ext.count(i)) map.emplace(i, w.make(i.space()));
  }
  if (externals) {
    std::map<IndexSpace, std::vector<Index>> by;
    for (auto& i : ext) by[i.space()].push_back(i);
    for (auto& [sp, v] : by) {
      auto p = v;
      s.shuffle(p);
      for (auto& x : p)
        if (s.chance(1, 3)) x = w.make(sp);
      for (std::size_t k = 0; k < v.size(); ++k) map.insert_or_assign(v[k], p[k]);
    }
  }
  return map_expr(e, map);
}

bool has_zero_sum(const ExprPtr& e) {
  if (e->is<Sum>() && (e->empty() || e->clone()->empty() || *e->clone() != *e)) return true;
  if (e->is_atom()) return false;
  if (e->is<Sum>()) {  // to_expr() makes Constants of products of constants
    bool any = false;
    Constant::scalar_type total = 0;
    for (auto& x : *e) {
      if (x->is<Constant>()) total += x->as<Constant>().value(), any = true;
      if (x->is<Product>() && x->empty()) total += x->as<Product>().scalar(), any = true;
    }
    if (any && total.is_zero()) return true;
  }
  for (auto& x : *e)
    if (has_zero_sum(x)) return true;
  return false;
}

// a forest of expressions with common parts
std::vector<Problem> forest(Case& c, World& w, AttrMap& attrs, int min_trees, int max_trees, bool same_ext, bool halves = true) {
  auto& s = c.s;
  std::vector<Problem> r;
  struct Piece {
    ExprPtr e;
    num::IndexSet ext;
    std::vector<Index> b, k, a;
  };
  std::vector<Piece> pieces;
  const int np = 1 + (int)s.below(2);
  for (int p = 0; p < np; ++p) {
    auto ext = random_ext(s, w, 2, s.chance(1, 3));
    ExprOptions eo;
    eo.net = net_options(s);
    eo.net.max_tensors = std::min(3, eo.net.max_tensors);
    eo.net.min_tensors = std::min(2, eo.net.max_tensors);
    eo.net.protos = false;
    eo.net.halves &= halves;
    eo.max_terms = s.weighted({2, 2, 1}) + 1;
    eo.depth = s.chance(1, 4);
    auto e = random_expr(s, w, attrs, ext, eo);
    pieces.push_back({e, ext.all(), ext.bra, ext.ket, ext.aux});
  }
  const int nt = min_trees + (int)s.below(max_trees - min_trees + 1);
  std::vector<Index> close;   // common external indices
  for (int t = 0; t < nt; ++t) {
    auto& p = pieces[s.below((std::uint32_t)pieces.size())];
    IndexMap map;
    auto e = rename(w, s, p.e, p.ext, map, s.coin());
    if (e->is<Product>() && s.coin()) {
      auto rw = rewrite(s, std::vector<ExprPtr>(e->as<Product>().factors().begin(), e->as<Product>().factors().end()), [&] {
        num::IndexSet x;
        for (auto& i : p.ext) x.insert(map_index(i, map));
        return x;
      }(), RewriteOptions{.dummies = false});
      bool ok = true;
      for (auto& f : rw.factors) ok &= f->is<Tensor>() || f->is<Variable>();
      if (ok) e = ex<Product>(e->as<Product>().scalar() * Constant::scalar_type(rw.sign), ExprPtrList{}, Product::Flatten::No), e->as<Product>();
      if (ok)
        for (auto& f : rw.factors) e->as<Product>().append(1, f, Product::Flatten::No);
    }
    num::IndexSet ext;
    for (auto& i : p.ext) ext.insert(map_index(i, map));
    auto prod = std::make_shared<Product>();
    if (s.coin()) prod->scale(random_scalar(s));
    bool first = s.chance(3, 4);
    if (first) prod->append(1, e, Product::Flatten::No);
    // another tensor on some of its indices
    if (s.chance(2, 3)) {
      container::svector<Index> xb, xk, xa;
      num::IndexSet gone;
      auto take = [&](const std::vector<Index>& v, container::svector<Index>& to) {
        for (auto& i : v)
          if (s.coin()) {
            auto j = map_index(i, map);
            to.push_back(j);
            gone.insert(j);
          }
      };
      take(p.b, xk);
      take(p.k, xb);
      take(p.a, xa);
      if (!same_ext && s.chance(1, 3)) {
        auto i = w.make(w.spaces[s.below(2)]);
        (s.coin() ? xb : xk).push_back(i);
        ext.insert(i);
      }
      if (xb.size() + xk.size() + xa.size()) {
        auto l = s.pick({L"X", L"Y"}) + std::to_wstring(xb.size()) + std::to_wstring(xk.size()) + std::to_wstring(xa.size());
        auto X = ex<Tensor>(l, bra(xb), ket(xk), aux(xa), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, s.coin() ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm);
        prod->append(1, X, Product::Flatten::No);
        for (auto& i : gone) ext.erase(i);
      }
    }
    if (!first) prod->append(1, e, Product::Flatten::No);
    ExprPtr whole = prod;
    if (s.chance(1, 4)) whole = e, ext = [&] {
      num::IndexSet x;
      for (auto& i : p.ext) x.insert(map_index(i, map));
      return x;
    }();
    if (s.chance(1, 4) && whole->is<Product>() && !has_zero_sum(whole)) whole = optimize(whole, OptimizeOptions{});
    if (has_zero_sum(whole)) throw pbt::Discard{};
    r.push_back({whole, ext, result_expr(s, whole, ext, L"R" + std::to_wstring(t))});
    c.note("tree " + std::to_string(t) + ": " + show(r.back().re.has_label() && !ext.empty() ? ex<Tensor>(r.back().re.result_as_tensor()) : ex<Variable>(L"R")) + " = " + show(whole));
  }
  return r;
}

[[maybe_unused]] std::string dump(const Tree& t, int d = 0) {
  std::string r(2 * d, ' ');
  r += (t.leaf() ? "leaf " : t->op_type() == EvalOp::Sum ? "sum " : t->op_type() == EvalOp::Product ? "prod " : "adj ") + show(t->expr()) + " phase " + std::to_string(t->canon_phase()) + " hash " +
       std::to_string(t->hash_value() % 10000) + " [";
  for (auto& i : t->annot()) r += show(i) + ",";
  r += "]\n";
  if (!t.leaf()) r += dump(t.left(), d + 1) + dump(t.right(), d + 1);
  return r;
}
Tree tree_of(const ResultExpr& r) { return binarize<Node>(r); }
SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
Tree tree_of(const ExprPtr& e, const num::IndexSet& ext) {
  IndexSet x;
  for (auto& i : ext) x.emplace(i);
  return binarize<Node>(e, x);
}
SEQUANT_PRAGMA_IGNORE_DEPRECATED_END

template <class G>
auto guarded(G&& g) -> decltype(g()) {
  try {
    return g();
  } catch (const num::Undefined& u) {
    throw pbt::Discard{};
  }
}

// Intermediates keep track of the indices in the slots of their factors, not of proto indices: every tensor with an
// index that has proto indices must have these in its slots too, like cluster-specific amplitudes do.
ExprPtr carry_protos(const ExprPtr& e, const num::IndexSet& protos) {
  if (e->is<Tensor>()) {
    auto& t = e->as<Tensor>();
    container::svector<Index> b, k, a(t.aux().begin(), t.aux().end());
    for (auto& i : t.bra()) (protos.count(i) ? a : b).push_back(i);
    for (auto& i : t.ket()) (protos.count(i) ? a : k).push_back(i);
    for (auto& i : num::all_indices(e))
      for (auto& p : i.proto_indices())
        if (std::find(a.begin(), a.end(), p) == a.end()) a.push_back(p);
    if (a.size() == t.aux().size()) return e;
    const auto label = std::wstring(t.label()) + std::to_wstring(b.size()) + std::to_wstring(k.size()) + std::to_wstring(a.size());
    return ex<Tensor>(label, bra(b), ket(k), aux(a), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
  }
  if (!e->is<Product>()) return e;
  Product r;
  r.scale(e->as<Product>().scalar());
  for (auto& f : *e) r.append(1, carry_protos(f, protos), Product::Flatten::No);
  return ex<Product>(std::move(r));
}
ExprPtr carry_protos(const ExprPtr& e) {
  num::IndexSet protos;
  for (auto& i : num::all_indices(e))
    for (auto& p : i.proto_indices()) protos.insert(p);
  return protos.empty() ? e : carry_protos(e, protos);
}

// one tree, no cache
void single(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  ExprOptions eo;
  eo.net = net_options(s);
  eo.net.protos = s.chance(1, 5);
  eo.max_terms = s.coin() ? 1 : 3;
  eo.depth = s.chance(1, 2);
  if (eo.net.protos) eo.max_terms = 1, eo.depth = 0;
  num::IndexSet x = ext.all();
  ExprPtr e;
  if (eo.max_terms == 1 && !eo.depth) {
    auto n = random_net(s, w, attrs, ext, eo.net);
    x = n.ext;
    e = n.product(random_scalar(s));
    c.nontrivial = n.tensors > 1;
    if (s.chance(1, 5) && n.factors.size() == 1) e = n.factors[0];
  } else
    e = random_expr(s, w, attrs, ext, eo, &c.nontrivial);
  if (eo.net.protos) e = carry_protos(e);
  if (has_zero_sum(e)) throw pbt::Discard{};
  if (s.chance(1, 6)) {
    e = e->clone();
    adjoint(e);
  }
  if (s.chance(1, 3)) e = optimize(e, OptimizeOptions{});
  c.note("input: " + show(e));
  const auto want = value(e, w.model, x);
  guarded([&] {
    Leaves le{w.model};
    auto f = [&](const Tree& n) { return le(n); };
    auto re = result_expr(s, e, x);
    auto copy = e->clone();
    auto t = tree_of(re);
    c.require(*copy == *e, "binarize changed its argument");
    c.note("tree: " + show(to_expr(t)));
    auto r = evaluate(t, f);
    c.require(folded(r, t->annot(), w.model, x) == want, "value of the tree differs from that of the expression");
    // layout of the result given by the caller
    Annotation layout = t->annot();
    s.shuffle(layout);
    auto p = evaluate(t, layout, f);
    c.require(folded(p, layout.empty() ? t->annot() : layout, w.model, x) == want, "value with a layout differs");
    // tree without result
    auto u = tree_of(e, x);
    auto q = evaluate(u, f);
    c.require(folded(q, u->annot(), w.model, x) == want, "value of the tree of a bare expression differs");
    // to_expr() is an expression of the same value
    c.require(value(to_expr(t), w.model, x) == want, "value of to_expr(tree) differs: " + show(to_expr(t)));
    // internal nodes: indices are those the expression below leaves open
    num::IndexSet all(t->annot().begin(), t->annot().end());
    for (auto& i : all) c.require(x.count(i), "index of the tree that is not external");
    le.untouched();
    // an array of terms
    if (e->is<Sum>() && !x.empty()) {
      std::vector<Tree> ts;
      for (auto& y : e->as<Sum>().summands()) ts.push_back(tree_of(result_expr(s, y, x)));
      Annotation lay(x.begin(), x.end());
      bool complete = true;
      for (auto& y : ts) complete &= y->annot().size() == lay.size();
      if (complete) {
        auto v = evaluate(ts, lay, f);
        c.require(folded(v, lay, w.model, x) == want, "value of the sum of the trees of the summands differs");
        le.untouched();
      }
    }
    return 0;
  });
}

template <bool FHC, class Caches>
void run_cached(Case& c, const std::vector<Problem>& ps, const std::vector<Tree>& ts, World& w, CacheManager<Tree, FHC>& cache, Caches&&, const std::wstring& vol, bool drained) {
  auto& s = c.s;
  Leaves le{w.model};
  le.memo = s.chance(3, 4);
  auto f = [&](const Tree& n) { return le(n); };
  const int passes = 1 + (int)s.below(3);
  num::Model m = w.model;
  for (int pass = 0; pass < passes; ++pass) {
    if (pass) {
      cache.reset();
      if (!vol.empty()) {  // volatile tensors have new values
        const std::uint64_t salt = 77 + pass;
        m.tensor_override = [vol, salt, base = w.model](const num::Model&, const AbstractTensor& t, const std::vector<std::uint64_t>& b, const std::vector<std::uint64_t>& k,
                                                        const std::vector<std::uint64_t>& a) -> std::optional<F> {
          if (!t._label().starts_with(vol)) return std::nullopt;
          auto mm = base;
          mm.seed ^= salt * 0x9e3779b97f4a7c15ull;
          return mm.tensor(t, std::wstring(t._label()), t._symmetry(), t._braket_symmetry(), t._column_symmetry(), b, k, a);
        };
        le.m = m;
        le.given.clear();
      }
    }
    for (std::size_t k = 0; k < ts.size(); ++k) {
      const auto want = value(ps[k].e, m, ps[k].ext);
      auto r = evaluate(ts[k], f, cache);
      c.require(folded(r, ts[k]->annot(), m, ps[k].ext) == want, "pass " + std::to_string(pass) + ", tree " + std::to_string(k) + ": wrong value");
      le.untouched();
    }
    if (drained && pass == 0) c.require(cache.alive_count() == 0 && cache.size_in_bytes() == 0, "results are still in the cache after their last use");
  }
}

template <bool FHC>
void cached_impl(Case& c, bool batched) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ps = forest(c, w, attrs, 1, 4, false);
  guarded([&] {
    std::vector<Tree> ts;
    for (auto& p : ps) ts.push_back(tree_of(p.re));
    if (getenv("DUMP")) for (auto& t : ts) c.note(dump(t));
    for (auto& p : ps) (void)value(p.e, w.model, p.ext);
    const std::size_t rep = s.pick({2, 1, 2, 3});
    const bool vol = s.coin() || batched;
    std::wstring label = vol ? std::wstring(s.pick({L"t", L"g", L"X"})) : L"";
    if (!vol) {
      auto cache = cache_manager<FHC>(ts, rep);
      std::size_t n = 0;
      cache.for_each_key([&](auto&) { ++n; });
      c.nontrivial = n > 0;
      c.tag("cached nodes", (long)n);
      c.note("cache of nodes occurring " + std::to_string(rep) + " times: " + std::to_string(n));
      run_cached<FHC>(c, ps, ts, w, cache, 0, L"", true);
      return 0;
    }
    auto is_vol = [label](const Tree& n) {
      return n.leaf() && n->is_tensor() && n->as_tensor().label().starts_with(label);
    };
    double max = s.chance(1, 4) ? 4 : 0;
    auto foot = [&w](const Tree& n) {
      double v = 1;
      for (auto& i : n->canon_indices()) v *= (double)w.model.orbitals(i.space()).size();
      return v;
    };
    const IndexSpace bs = w.spaces[s.below((std::uint32_t)w.spaces.size())];
    const int which = s.weighted({2, 1, 1});
    auto accept = [bs, which](const Index& i) { return which == 0 || i.space() == bs; };
    const bool veto = s.chance(1, 3);
    auto never = [accept, veto](const Index& i) { return veto && accept(i); };
    auto cache = cache_manager<FHC>(ts, is_vol, rep, foot, max, never);
    std::size_t n = 0, np = 0;
    cache.for_each_key([&](auto& k) { ++n, np += cache.persistent(k); });
    c.nontrivial = n > 0;
    c.tag("cached nodes", (long)n);
    c.tag("persistent nodes", (long)np);
    c.note("cache, volatile " + u8(label) + ": " + std::to_string(n) + " nodes, " + std::to_string(np) + " persistent");
    cache.for_each_key([&](auto& k) {
      if (!cache.persistent(k)) return;
      bool v = subtree_any(k, is_vol);
      c.require(!v, "a persistent entry depends on a volatile tensor");
      c.require(!(max > 0 && foot(k) > max), "persistent entry above the footprint limit");
    });
    Leaves own{w.model};  // the batched evaluator asks this one
    if (batched) {
      auto model = std::make_shared<num::Model>(w.model);
      const std::size_t target = 1 + s.below(2);
      auto tgt = [target](const Index&) { return target; };
      const bool po = s.coin();
      c.note("batched: target " + std::to_string(target) + (po ? ", persistent only" : "") + (which ? ", space " + u8(std::wstring(bs.base_key())) : ", any index"));
      auto counts = std::make_shared<long>(0);
      // the leaf evaluator is captured by value: it shares the model
      auto lev = [model](const Tree& n) -> ResultPtr {
        Leaves l{*model};
        return l(n);
      };
      const int passes = 1 + (int)s.below(2);
      auto ev = make_batched_custom_evaluator(lev, tgt, accept, make_no_scope_guard{}, is_vol, po);
      cache.set_custom_evaluator([ev, counts](const Tree& n, CacheManager<Tree, FHC>& cm) {
        auto r = ev(n, cm);
        if (r) ++*counts;
        return r;
      });
      for (int pass = 0; pass < passes; ++pass) {
        if (pass) {
          cache.reset();
          model->seed ^= 0;
          const std::uint64_t salt = 177 + pass;
          auto base = w.model;
          model->tensor_override = [label, salt, base](const num::Model&, const AbstractTensor& t, const std::vector<std::uint64_t>& b, const std::vector<std::uint64_t>& k,
                                                       const std::vector<std::uint64_t>& a) -> std::optional<F> {
            if (!t._label().starts_with(label)) return std::nullopt;
            auto mm = base;
            mm.seed ^= salt * 0x9e3779b97f4a7c15ull;
            return mm.tensor(t, std::wstring(t._label()), t._symmetry(), t._braket_symmetry(), t._column_symmetry(), b, k, a);
          };
        }
        for (std::size_t k = 0; k < ts.size(); ++k) {
          const auto want = value(ps[k].e, *model, ps[k].ext);
          auto r = evaluate(ts[k], lev, cache);
          c.require(folded(r, ts[k]->annot(), *model, ps[k].ext) == want, "batched, pass " + std::to_string(pass) + ", tree " + std::to_string(k) + ": wrong value");
        }
      }
      c.nontrivial = *counts > 0;
      c.tag("batched nodes", *counts);
      return 0;
    }
    run_cached<FHC>(c, ps, ts, w, cache, 0, label, false);
    return 0;
  });
}
void cached(Case& c) {
  if (c.s.chance(1, 5)) cached_impl<true>(c, false);
  else cached_impl<false>(c, false);
}
void batched(Case& c) {
  if (c.s.chance(1, 5)) cached_impl<true>(c, true);
  else cached_impl<false>(c, true);
}

// sums of trees evaluated into one array
void range(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  ExprOptions eo;
  eo.net = net_options(s);
  eo.max_terms = 2;
  eo.depth = s.chance(1, 3);
  const auto x = ext.all();
  if (x.empty()) throw pbt::Discard{};
  std::vector<ExprPtr> terms;
  std::vector<Tree> ts;
  const int n = 1 + (int)s.below(4);
  for (int k = 0; k < n; ++k) {
    ExprPtr e;
    if (!terms.empty() && s.chance(1, 3)) {
      IndexMap m;
      e = rename(w, s, terms[s.below((std::uint32_t)terms.size())], x, m, false);
    } else
      e = random_expr(s, w, attrs, ext, eo);
    if (has_zero_sum(e)) throw pbt::Discard{};
    if (e->is<Product>() && e->size() == 1 && s.coin()) e = e->as<Product>().factor(0)->clone();
    c.note("term: " + show(e));
    terms.push_back(e);
  }
  c.nontrivial = n > 1;
  guarded([&] {
    for (auto& e : terms) {
      auto t = s.coin() ? tree_of(result_expr(s, e, x)) : tree_of(e, x);
      if (t->annot().size() != x.size()) throw pbt::Discard{};
      ts.push_back(t);
    }
    F want;
    for (auto& e : terms) want += value(e, w.model, x);
    Leaves le{w.model};
    auto f = [&](const Tree& n) { return le(n); };
    Annotation lay(x.begin(), x.end());
    s.shuffle(lay);
    bool same = true;
    for (auto& t : ts) same &= t->annot() == ts[0]->annot();
    auto cache = cache_manager(ts, s.pick({2, 1}));
    const int passes = 1 + (int)s.below(2);
    const bool plain = same && s.coin();
    if (plain) lay = Annotation{};
    for (int k = 0; k < passes; ++k) {
      auto r = evaluate(ts, lay, f, cache);
      c.require(folded(r, plain ? ts[0]->annot() : lay, w.model, x) == want, "wrong value of the sum of the trees");
      le.untouched();
      cache.reset();
    }
    return 0;
  });
}

// common subexpressions
bool symmetric_in_nested_sum(const ExprPtr& e, int sums = 0, bool in_product = false) {
  if (e->is<Tensor>()) return sums > 0 && e->as<Tensor>().braket_symmetry() == BraKetSymmetry::Symm;
  if (e->is_atom()) return false;
  if (e->is<Product>()) in_product = true;
  if (e->is<Sum>() && in_product) ++sums;
  for (auto& x : *e)
    if (symmetric_in_nested_sum(x, sums, in_product)) return true;
  return false;
}
void cse(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  // intermediates are trees of to_expr(), where tensors with unequal ranks may
  // have exchanged bra and ket
  auto ps = forest(c, w, attrs, 1, 4, false, false);
  guarded([&] {
    std::vector<Tree> ts;
    for (auto& p : ps) {
      // a nested sum becomes an intermediate without symmetries, the indices of which cannot be exchanged between bra and
      // ket like those of a tensor of real symmetric matrices
      if (symmetric_in_nested_sum(p.e)) throw pbt::Discard{};
      ts.push_back(tree_of(p.re));
    }
    if (getenv("DUMP")) for (auto& t : ts) c.note(dump(t));
    struct Maker {
      Tree operator()(const ResultExpr& r) const { return binarize<Node>(r); }
      SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
      Tree operator()(const ExprPtr& e) const { return binarize<Node>(e); }
      SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
    };
    opt::CSEOptions<Tree> o;
    if (s.chance(1, 4)) {
      const std::size_t least = 2 + s.below(2);
      o.filter_predicate = [least](const Tree&, std::size_t n) { return n >= least; };
    }
    if (s.chance(1, 4)) o.filter_predicate = [](const Tree& t, std::size_t) { return t->is_tensor(); };
    const auto before = ts.size();
    auto pos = opt::eliminate_common_subexpressions(ts, Maker{}, o);
    c.nontrivial = !pos.empty();
    c.tag("intermediates", (long)pos.size());
    c.require(ts.size() == before + pos.size(), "number of trees");
    c.require(std::is_sorted(pos.begin(), pos.end()) && std::adjacent_find(pos.begin(), pos.end()) == pos.end(), "positions of intermediates are not increasing");
    Leaves le{w.model};
    auto f = [&](const Tree& n) { return le(n); };
    std::size_t k = 0;
    std::set<std::wstring> names;
    for (std::size_t q = 0; q < ts.size(); ++q) {
      const bool def = std::find(pos.begin(), pos.end(), q) != pos.end();
      const std::wstring label(ts[q]->is_tensor() ? ts[q]->as_tensor().label() : ts[q]->as_variable().label());
      c.note((def ? "def " : "use ") + show(ts[q]->expr()) + " = " + show(to_expr(ts[q])));
      auto r = evaluate(ts[q], f);
      if (def) {
        c.require(names.insert(label).second, "two intermediates with one name");
        if (ts[q]->is_tensor()) {
          auto ax = ts[q]->as_tensor().aux();
          Annotation a(ax.begin(), ax.end());
          r = r->permute({ts[q]->annot(), a});
          le.named_ix[label] = a;
        } else
          le.named_ix[label] = {};
        le.named[label] = r;
      } else {
        auto& p = ps.at(k++);
        c.require(folded(r, ts[q]->annot(), w.model, p.ext) == value(p.e, w.model, p.ext), "tree " + std::to_string(k - 1) + ": value changed");
        if (p.re.result_as_tensor().label() == label && ts[q]->is_tensor()) c.require(ts[q]->as_tensor() == p.re.result_as_tensor(), "result of a tree changed");
      }
    }
    c.require(k == ps.size(), "tree lost");
    return 0;
  });
}
// extraction of the largest subtrees with some property, against a recursion
// over a copy of the trees
void extract(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ps = forest(c, w, attrs, 1, 4, false, false);
  guarded([&] {
    std::vector<Tree> ts;
    for (auto& p : ps) ts.push_back(s.coin() ? tree_of(p.re) : tree_of(p.e, p.ext));
    const std::vector<Tree> old = ts;
    const int mode = (int)s.below(3);
    const std::uint64_t salt = s.below(1u << 20), odds = 1 + s.below(6);
    c.note("property " + std::to_string(mode) + " " + std::to_string(salt) + "/" + std::to_string(odds));
    auto bit = [&](const Tree& n) { return (n->hash_value() * 0x9e3779b97f4a7c15ull + salt) % 7 < odds; };
    auto pred = [&](const Tree& n, bool l, bool r) {
      if (n.leaf()) c.require(!l && !r, "a leaf has children with the property");
      switch (mode) {
        // (not true above a node with operation for which it is not: then the parts of that one are extracted, too)
        case 0: return bit(n) && (n.leaf() || ((n.left().leaf() || l) && (n.right().leaf() || r)));
        // without some of the leaves
        case 1: {
          if (n.leaf()) return false;
          auto ok = [&](const Tree& x, bool p) { return x.leaf() ? bit(x) : p; };
          return ok(n.left(), l) && ok(n.right(), r);
        }
        default: return n.leaf() ? bit(n) : l && r;
      }
    };
    // in order: left, right, node
    std::vector<bool> has;
    auto eval = [&](auto&& self, const Tree& n) -> bool {
      bool l = false, r = false;
      if (!n.leaf()) l = self(self, n.left()), r = self(self, n.right());
      const bool x = pred(n, l, r);
      has.push_back(x);
      return x;
    };
    for (auto& t : old) eval(eval, t);
    auto got = opt::extract_subtrees(ts, pred);
    std::vector<const Tree*> want;
    std::size_t at = 0;
    auto label = [](const Tree& n) { return show(n->expr()) + "#" + std::to_string(n->hash_value()); };
    // positions of `has` by subtree size
    auto walk = [&](auto&& self, const Tree& o, const Tree& n, std::size_t first, bool above) -> std::size_t {
      // returns the position after the subtree; its own property is the last
      auto size = [](auto&& self, const Tree& x) -> std::size_t { return x.leaf() ? 1 : 1 + self(self, x.left()) + self(self, x.right()); };
      const auto end = first + size(size, o);
      const bool mine = has[end - 1];
      c.require(label(o) == label(n), "a node has become another: " + label(o) + " -> " + label(n));
      c.require(o->canon_indices() == n->canon_indices() && o->canon_phase() == n->canon_phase(), "a node has other indices or another phase");
      if (mine && !above) {
        want.push_back(&o);
        c.require(n.leaf(), "an extracted subtree is still there");
        c.require(!n->op_type().has_value(), "an extracted subtree has left an operation");
        return end;
      }
      c.require(o.leaf() == n.leaf(), "something else has been extracted");
      c.require(o->op_type() == n->op_type(), "another operation");
      if (!o.leaf()) {
        auto mid = self(self, o.left(), n.left(), first, mine);
        self(self, o.right(), n.right(), mid, mine);
      }
      return end;
    };
    for (std::size_t t = 0; t < ts.size(); ++t) at = walk(walk, old[t], ts[t], at, false);
    // one of each kind
    TreeNodeEqualityComparator<Tree> same;
    std::size_t kinds = 0;
    auto shape = [&](auto&& self, const Tree& n) -> std::string { return n.leaf() ? label(n) : "(" + self(self, n.left()) + " " + self(self, n.right()) + ")" + label(n); };
    std::set<std::string> shapes;
    for (std::size_t k = 0; k < want.size(); ++k) {
      bool first = true;
      for (std::size_t j = 0; j < k; ++j) first &= !same(*want[j], *want[k]);
      kinds += first;
      shapes.insert(shape(shape, *want[k]));
      c.require(got.find(*want[k]) != got.end(), "a subtree is missing: " + label(*want[k]));
    }
    for (auto* x : want) c.note("expected " + shape(shape, *x));
    for (auto& x : got) c.note("extracted " + shape(shape, x));
    c.require(got.size() == kinds, std::to_string(got.size()) + " subtrees extracted instead of " + std::to_string(kinds));
    for (auto& g : got) c.require(shapes.count(shape(shape, g)), "extracted subtree is not one of the trees");
    bool inner = false;
    for (auto* x : want) inner |= !x->leaf();
    c.nontrivial = inner;
    if (kinds < want.size()) c.tag("common");
    return 0;
  });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C13";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"single", "tree of a random expression; non-trivial: a contraction of two tensors, or a nested sum", single, 20000, 300000},
      {"cache", "trees with common parts, caches made with all options, several passes; non-trivial: something is cached", cached, 20000, 300000},
      {"batched", "the same with the batched evaluator; non-trivial: a node was evaluated in batches", batched, 15000, 200000},
      {"range", "sum of several trees; non-trivial: more than one", range, 10000, 150000},
      {"extract", "extraction of subtrees; non-trivial: one with an operation", extract, 10000, 150000},
      {"cse", "elimination of common subexpressions in trees with common parts; non-trivial: an intermediate", cse, 15000, 200000},
  };
  p.assumptions = {"arrays are dense, of elements of GF(p^2); the numerical backends of the library are not compiled here"};
  return pbt::run(p, argc, argv);
}
