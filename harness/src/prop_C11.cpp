// The optimizer keeps the value and the factors.
#include <SeQuant/core/optimize/fusion.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/single_term.hpp>
#include <SeQuant/core/optimize/sum.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <cmath>
#include "gen.hpp"
#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
using num::show;

std::map<std::wstring, std::size_t> extents(Src& s, const World& w) {
  std::map<std::wstring, std::size_t> m;
  for (auto& x : *w.isr->spaces()) m[std::wstring(x.base_key())] = s.weighted({3, 1}) ? 1 + s.below(3) : 2 + s.below(40);
  return m;
}

OptimizeOptions random_options(Case& c, const World& w) {
  auto& s = c.s;
  OptimizeOptions o;
  switch (s.weighted({3, 1, 2, 2})) {
    case 0: o.objective_function = ObjectiveFunction::DenseFLOPs; break;
    case 1: o.objective_function = ObjectiveFunction::DenseSize; break;
    case 2: o.objective_function = ObjectiveFunction::DensePeakSize; break;
    default: o.objective_function = ObjectiveFunction::DensePeakSizeBatched;
  }
  const bool peak = o.objective_function == ObjectiveFunction::DensePeakSize || o.objective_function == ObjectiveFunction::DensePeakSizeBatched;
  o.reorder = s.coin() ? ReorderSum::Reorder : ReorderSum::NoReorder;
  if (!peak) o.CSE.subnet = s.coin();
  std::string t = "options: objective " + std::to_string((int)o.objective_function) + (o.reorder == ReorderSum::Reorder ? " reorder" : "") +
                  (o.CSE.subnet ? " subnet" : "");
  if (s.chance(3, 4)) {
    auto m = extents(s, w);
    for (auto& [k, v] : m) t += " " + u8(k) + "=" + std::to_string(v);
    o.idx_to_extent = [m](const Index& i) {
      auto it = m.find(std::wstring(i.space().base_key()));
      return it == m.end() ? std::size_t(5) : it->second;
    };
  }
  if (s.chance(1, 4)) {
    const double p = s.pick({1.0, 1.5, 2.0});
    o.inner_pow = [p](const Index& i, std::size_t k) { return std::pow(3.0 + (double)i.space().type().to_int32(), p * (double)k); };
    t += " inner_pow " + std::to_string(p);
  }
  const auto vol = s.pick({L"t", L"g", L"u"});
  if (s.chance(1, 3)) {
    o.volatile_weight = s.pick({0.5, 1.0, 3.0, 20.0});
    o.batch_policy.is_volatile_leaf = [vol](const Tensor& x) { return x.label() == vol; };
    t += " volatile " + u8(vol) + " " + std::to_string(o.volatile_weight);
  }
  if (s.chance(1, 3)) o.footprint_weight = s.pick({0.1, 1.0, 100.0});
  if (s.chance(1, 3)) o.peak_flops_tolerance = s.pick({0.0, 0.5, 5.0});
  if (s.chance(1, 3)) o.prune_outer_products = false;
  if (s.chance(1, 3)) {
    o.roofline.machine_balance = s.pick({0.0, 1.0, 50.0});
    o.roofline.fast_mem_elems = s.pick({0.0, 10.0, 1000.0});
  }
  if (o.objective_function == ObjectiveFunction::DensePeakSizeBatched && s.chance(3, 4)) {
    const auto key = s.coin() && !w.aux_spaces.empty() ? std::wstring(w.aux_spaces[s.below((std::uint32_t)w.aux_spaces.size())].base_key())
                                                       : std::wstring(w.spaces[s.below((std::uint32_t)w.spaces.size())].base_key());
    const std::size_t n = 1 + s.below(4);
    o.batch_policy.is_batchable_index = [key](const Index& i) { return i.space().base_key() == key; };
    o.batch_policy.batch_target_size = [n](const Index&) { return n; };
    o.batch_policy.persistent_only = s.coin();
    t += " batch " + u8(key) + "=" + std::to_string(n);
  }
  c.note(t);
  return o;
}

num::F value(Case&, const ExprPtr& e, const World& w, const num::IndexSet& ext) {
  num::EvalOptions o;
  o.externals = ext;
  o.max_work = 3e6;
  try {
    return num::eval(e, w.model, o);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}

// every factor of a product (nested products opened), and its coefficient
void open(const ExprPtr& e, Constant::scalar_type& c, std::vector<ExprPtr>& out) {
  if (e->is<Product>()) {
    c *= e->as<Product>().scalar();
    for (auto& f : e->as<Product>().factors()) open(f, c, out);
  } else
    out.push_back(e);
}
bool same_multiset(std::vector<ExprPtr> a, std::vector<ExprPtr> b) {
  if (a.size() != b.size()) return false;
  for (auto& x : a) {
    auto it = std::find_if(b.begin(), b.end(), [&](auto& y) { return *x == *y; });
    if (it == b.end()) return false;
    b.erase(it);
  }
  return true;
}
/// a product whose factors are all tensors and numbers must come back as a
/// binary tree of the same factors; false = not such a product
void check_shape(Case& c, const ExprPtr& in, const ExprPtr& out) {
  if (!in->is<Product>()) return;
  auto& p = in->as<Product>();
  int tensors = 0;
  for (auto& f : p.factors()) {
    if (!f->is<Tensor>() && !f->is_scalar()) return;
    if (f->is_scalar() && (f->is<Product>() || f->is<Sum>())) return;
    tensors += f->is<Tensor>();
  }
  Constant::scalar_type ci = 1, co = 1;
  std::vector<ExprPtr> fi, fo;
  open(in, ci, fi);
  open(out, co, fo);
  c.require(ci == co, "coefficient changed: " + show(out));
  c.require(same_multiset(fi, fo), "factors changed: " + show(out));
  // at most two non-scalar factors in every product
  std::function<void(const ExprPtr&)> rec = [&](const ExprPtr& e) {
    if (!e->is<Product>()) return;
    int n = 0;
    for (auto& f : e->as<Product>().factors()) {
      n += !f->is_scalar();
      rec(f);
    }
    if (tensors > 1) c.require(n == 2, "not a binary tree: " + show(out));
  };
  rec(out);
}

NetOptions net_options(Src& s) {
  NetOptions n;
  n.max_tensors = 2 + (int)s.below(5);
  n.max_dummies = 5;
  n.aux = true;
  n.hyper = s.chance(1, 3);
  n.loose = false;
  n.trace = false;  // a tensor contracted with itself is not evaluated (binarize)
  n.nulls = s.chance(1, 4);
  n.protos = s.chance(1, 4);
  n.special = s.chance(1, 4);
  n.variables = s.coin();
  n.max_volume = 3e4;
  return n;
}
World world(Src& s) {
  WorldOptions wo;
  wo.spin = s.weighted({5, 1, 1});
  return make_world(s, wo);
}

void check_optimize(Case& c, const World& w, const ExprPtr& e, const num::IndexSet& ext, bool result_expr) {
  auto& s = c.s;
  c.note("input: " + show(e));
  auto o = random_options(c, w);
  const auto before = value(c, e, w, ext);
  auto copy = e->clone();
  ExprPtr r;
  if (result_expr) {
    IndexGroups<std::vector<Index>> g;
    container::svector<Index> k(ext.begin(), ext.end());
    ResultExpr re = k.empty() ? ResultExpr(Variable(L"R"), copy->clone())
                              : ResultExpr(Tensor(L"R", bra(), ket(), aux(k), Symmetry::Nonsymm), copy->clone());
    const ResultExpr before_re = re;
    auto& back = optimize(re, o);
    c.require(&back == &re, "optimize(ResultExpr&) does not return its argument");
    c.require(re.has_label() == before_re.has_label() && (!re.has_label() || re.label() == before_re.label()) && re.bra() == before_re.bra() && re.ket() == before_re.ket() &&
                  re.aux() == before_re.aux() && re.symmetry() == before_re.symmetry(),
              "optimize changed the result of a ResultExpr");
    r = re.expression();
  } else
    r = optimize(e, o);
  c.note("optimized: " + show(r));
  c.require(*copy == *e, "optimize changed its argument: " + show(e));
  c.require(value(c, r, w, ext) == before, "value changed");
  if (e->is<Sum>()) {
    c.require(r->is<Sum>() && r->size() == e->size(), "number of summands changed");
    // the summands are those of the input, optimized, in some order
    std::vector<std::pair<Constant::scalar_type, std::vector<ExprPtr>>> in;
    auto key = [](const ExprPtr& t) {
      std::pair<Constant::scalar_type, std::vector<ExprPtr>> k{Constant::scalar_type(1), {}};
      open(t, k.first, k.second);
      return k;
    };
    for (auto& t : e->as<Sum>().summands()) in.push_back(key(t));
    std::size_t pos = 0;
    for (auto& t : r->as<Sum>().summands()) {
      auto k = key(t);
      auto it = std::find_if(in.begin(), in.end(), [&](auto& x) { return x.first == k.first && same_multiset(x.second, k.second); });
      c.require(it != in.end(), "a summand that was not there: " + show(t));
      if (o.reorder == ReorderSum::NoReorder) c.require(it == in.begin(), "summands reordered");
      in.erase(it);
      ++pos;
    }
  } else
    check_shape(c, e, r);
  (void)s;
}

void products(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  auto no = net_options(s);
  if (s.chance(2, 3)) no.max_tensors = std::max(3, no.max_tensors), no.min_tensors = 3;
  auto n = random_net(s, w, attrs, ext, no);
  auto e = n.product(random_scalar(s));
  // several scalar factors
  if (s.chance(1, 3)) {
    auto p = std::make_shared<Product>();
    p->scale(e->as<Product>().scalar());
    const int more = s.chance(1, 10) ? 4 : 1;  // sometimes dozens
    const bool nested = s.chance(1, 3);
    for (auto& f : e->as<Product>().factors()) {
      while (s.chance(more, 5))
        switch (s.below(nested ? 3 : 2)) {
          case 0: p->append(1, ex<Variable>(s.pick({L"x", L"y"})), Product::Flatten::No); break;
          case 1: p->append(1, ex<Power>(ex<Variable>(L"x"), rational(2)), Product::Flatten::No); break;
          default: p->append(1, ex<Variable>(L"y") + ex<Constant>(random_scalar(s)), Product::Flatten::No);
        }
      if (nested && f->is<Tensor>() && s.chance(1, 3)) {
        // a sum of this tensor and another one with the same slots
        const auto& t = f->as<Tensor>();
        auto other = ex<Tensor>(L"w", bra(std::vector<Index>(t.bra().begin(), t.bra().end())), ket(std::vector<Index>(t.ket().begin(), t.ket().end())),
                                aux(std::vector<Index>(t.aux().begin(), t.aux().end())), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
        p->append(1, ex<Sum>(ExprPtrList{f, ex<Constant>(random_scalar(s)) * other}), Product::Flatten::No);
      } else
        p->append(1, f, Product::Flatten::No);
    }
    if (s.coin()) p->append(1, ex<Variable>(L"z"), Product::Flatten::No);
    e = p;
  }
  c.nontrivial = n.tensors > 2;
  c.tag("tensors", n.tensors);
  check_optimize(c, w, e, n.ext, s.chance(1, 5));
}

void sums(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  ExprOptions eo;
  eo.net = net_options(s);
  eo.net.max_tensors = std::min(eo.net.max_tensors, 4);
  eo.max_terms = 5;
  eo.depth = s.coin() ? 0 : 2;
  eo.net.protos = false;
  auto e = random_expr(s, w, attrs, ext, eo, &c.nontrivial);
  check_optimize(c, w, e, ext.all(), s.chance(1, 5));
}

// scalar expressions, products with hardly any tensor
void scalars(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  Ext ext;
  std::function<ExprPtr(int, bool)> make = [&](int d, bool tensor) -> ExprPtr {
    switch (tensor ? 2 : s.weighted({3, 2, d > 0 ? 4 : 0, d > 0 ? 2 : 0})) {
      case 0: return ex<Variable>(s.pick({L"x", L"y", L"z"}));
      case 1: return s.coin() ? ex<Constant>(random_scalar(s)) : ex<Power>(ex<Variable>(L"x"), rational(2));
      case 2: {
        auto p = std::make_shared<Product>();
        p->scale(random_scalar(s));
        const int n = (int)s.below(d > 0 && s.chance(1, 20) ? 16 : 5);
        for (int k = 0; k < n; ++k) p->append(1, make(d - 1, false), Product::Flatten::No);
        if (tensor || s.chance(1, 4)) {
          NetOptions o;
          o.max_tensors = 2;
          o.max_dummies = 2;
          auto net = random_net(s, w, attrs, ext, o);
          for (auto& f : net.factors) p->append(1, f, Product::Flatten::No);
        }
        return ExprPtr(p);
      }
      default: {
        auto p = std::make_shared<Sum>();
        const int n = 1 + (int)s.below(4);
        for (int k = 0; k < n; ++k) p->append(make(d - 1, false));
        if (p->empty() || p->clone()->as<Sum>().empty()) throw pbt::Discard{};  // zeros are not kept; an empty Sum cannot be binarized
        return ExprPtr(p);
      }
    }
  };
  ExprPtr e;
  if (s.coin()) {
    ext = random_ext(s, w, 2, false);
    e = make(1, true);
  } else
    e = make(3, false);
  c.nontrivial = e->size() > 1;
  if (*e->clone() != *e) throw pbt::Discard{};  // numbers that add up to zero stay in a sum but not in its copies
  check_optimize(c, w, e, ext.all(), s.chance(1, 5));
}

// Fusion of two products
void fusion(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  std::vector<ExprPtr> pool;
  auto i = w.make(L"i"), j = w.make(L"i");
  std::vector<Index> ii{i, j, w.make(L"i")};
  for (auto l : {L"A", L"B", L"C"}) {
    pool.push_back(ex<Tensor>(l, bra{ii[s.below(3)]}, ket{ii[s.below(3)]}, Symmetry::Nonsymm));
    pool.push_back(ex<Variable>(l == std::wstring(L"A") ? L"x" : L"y"));
  }
  auto common = std::vector<ExprPtr>{};
  auto make = [&](std::size_t n) {
    std::vector<ExprPtr> v;
    for (std::size_t k = 0; k < n; ++k) v.push_back(pool[s.below((std::uint32_t)pool.size())]->clone());
    return v;
  };
  auto l = make(s.below(4)), r = make(s.below(4));
  auto pre = make(s.below(3)), post = make(s.below(3));
  auto join = [&](const std::vector<ExprPtr>& m) {
    std::vector<ExprPtr> v;
    for (const std::vector<ExprPtr>* q : {(const std::vector<ExprPtr>*)&pre, &m, (const std::vector<ExprPtr>*)&post}) for (auto& x : *q) v.push_back(x->clone());
    return v;
  };
  auto lf = join(l), rf = join(r);
  auto sc = [&] {
    auto n = (long)s.below(13) - 6;
    return rational(n == 0 ? 1 : n, (long)s.pick({1, 2, 3, 4, 6}));
  };
  Product L, R;
  auto ls = sc(), rs = sc();
  L.scale(ls);
  R.scale(rs);
  for (auto& x : lf) L.append(1, x, Product::Flatten::No);
  for (auto& x : rf) R.append(1, x, Product::Flatten::No);
  c.note("lhs: " + show(L.clone()) + "\nrhs: " + show(R.clone()));
  num::IndexSet ext(ii.begin(), ii.end());
  auto sum = ex<Sum>(ExprPtrList{L.clone(), R.clone()});
  const auto want = value(c, sum, w, ext);
  std::size_t np = 0, ns = 0;
  while (np < lf.size() && np < rf.size() && *lf[np] == *rf[np]) ++np;
  while (ns < lf.size() && ns < rf.size() && *lf[lf.size() - 1 - ns] == *rf[rf.size() - 1 - ns]) ++ns;
  c.nontrivial = np > 0 || ns > 0;
  opt::Fusion f(L, R);
  auto check = [&](const ExprPtr& x, std::size_t n, bool left) {
    const std::string side = left ? "left" : "right";
    c.require(bool(x) == (n > 0), "fusion from the " + side + (x ? " reported without a common factor" : " missed"));
    if (!x) return;
    c.note(side + ": " + show(x));
    c.require(value(c, x, w, ext) == want, "fused from the " + side + ": value changed");
    c.require(x->is<Product>(), "not a product");
    // the common factors, all of them, are outside the sum
    std::vector<ExprPtr> outside;
    Constant::scalar_type k = 1;
    const Sum* in = nullptr;
    for (auto& y : x->as<Product>().factors())
      if (y->is<Sum>())
        in = &y->as<Sum>();
      else
        open(y, k, outside);
    if (in) c.require(outside.size() == n, "common factors left in the sum");
  };
  check(f.left(), np, true);
  check(f.right(), ns, false);
  // greatest common divisor of rationals
  auto g = opt::Fusion::gcd_rational(ls, rs);
  c.require(g > 0 && denominator(rational(ls / g)) == 1 && denominator(rational(rs / g)) == 1, "gcd of rationals does not divide");
  auto a = rational(ls / g), b = rational(rs / g);
  c.require(boost::multiprecision::gcd(numerator(a), numerator(b)) == 1, "not the greatest common divisor");
}

// clusters / reorder
void cluster(Case& c) {
  auto& s = c.s;
  auto w = world(s);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, false);
  Sum sum;
  NetOptions no = net_options(s);
  no.variables = false;
  const int n = 1 + (int)s.below(6);
  std::vector<ExprPtr> terms;
  for (int k = 0; k < n; ++k) {
    ExprPtr t;
    if (!terms.empty() && s.chance(1, 3))  // the same term times a number, or with one more factor
      t = ex<Product>(ExprPtrList{ex<Constant>(random_scalar(s)), terms[s.below((std::uint32_t)terms.size())]->clone()}, Product::Flatten::Yes);
    else {
      no.max_tensors = 3;
      t = random_net(s, w, attrs, ext, no).product(random_scalar(s));
    }
    if (s.coin()) t = optimize(t, OptimizeOptions{});
    terms.push_back(t);
    sum.append(t);
  }
  c.note("sum: " + show(sum.clone()));
  c.nontrivial = sum.size() > 2;
  auto cl = opt::clusters(sum);
  std::vector<int> seen(sum.size(), 0);
  std::string text;
  for (auto& v : cl) {
    c.require(!v.empty(), "empty cluster");
    for (auto p : v) {
      c.require(p < sum.size(), "no such summand");
      ++seen[p];
      text += " " + std::to_string(p);
    }
    text += ";";
  }
  c.note("clusters:" + text);
  for (auto x : seen) c.require(x == 1, "clusters are not a partition of the summands");
  auto r = opt::reorder(sum);
  c.require(r.size() == sum.size(), "reorder lost summands");
  std::size_t k = 0;
  for (auto& v : cl)
    for (auto p : v) {
      c.require(*r.summand(k) == *sum.summand(p), "reorder does not follow the clusters");
      ++k;
    }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C11";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"products", "product of a random network, random options; non-trivial: more than two tensors", products, 20000, 300000},
      {"sums", "sum of networks and of products of sums, random options; non-trivial: a term with two tensors and a dummy, or a nested one", sums, 12000, 200000},
      {"scalars", "expressions of numbers and variables with few or no tensors; non-trivial: more than one operand", scalars, 20000, 200000},
      {"fusion", "two products of factors of a small pool; non-trivial: with a common first or last factor", fusion, 20000, 200000},
      {"clusters", "sums with repeated terms; non-trivial: more than two summands", cluster, 10000, 100000},
  };
  p.assumptions = {"index extents are 1-2 in the numeric model (the cost model's extents are independent of it)"};
  return pbt::run(p, argc, argv);
}
