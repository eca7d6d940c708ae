// Canonicalization and simplification preserve the value of tensor networks.
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/tensor_network.hpp>
#include <SeQuant/core/tensor_network/v1.hpp>
#include <SeQuant/core/tensor_network/v2.hpp>
#include <SeQuant/core/tensor_network/v3.hpp>

#include <SeQuant/core/runtime.hpp>

#include "gen.hpp"
using namespace sequant;
using namespace gen;

static num::F value(Case& c, const ExprPtr& e, const World& w, const num::IndexSet& ext) {
  num::EvalOptions o;
  o.externals = ext;
  return num::eval(e, w.model, o);
}
static void same(Case& c, const std::string& what, num::F a, num::F b, const ExprPtr& e) {
  if (!(a == b)) c.fail(what + " changed the value: " + a.str() + " -> " + b.str() + "\nresult: " + num::show(e));
}
static CanonicalizationMethod method(Src& s) {
  return s.pick({CanonicalizationMethod::Complete, CanonicalizationMethod::Topological, CanonicalizationMethod::Lexicographic});
}

template <class E> static void guard_undefined(E&& e) {
  try { e(); } catch (const num::Undefined&) { throw pbt::Discard{}; }
}

static NetOptions net_options(Case& c, bool loose) {
  NetOptions o;
  o.max_tensors = 5;
  o.loose = loose;
  o.protos = c.s.chance(1, 4);
  o.nulls = c.s.chance(1, 4);
  o.hyper = c.s.chance(1, 6);
  o.special = c.s.chance(1, 6);
  o.variables = c.s.chance(1, 5);
  o.halves = c.s.chance(1, 4);
  if (c.s.chance(1, 20)) o.min_tensors = 5, o.max_tensors = 10, o.max_dummies = 14;
  return o;
}
static void tag(Case& c, const Net& n, const World& w) {
  if (n.identical) c.tag("identical tensors");
  if (n.any_antisymm) c.tag("antisymmetric");
  c.tag("tensors=" + std::to_string(n.tensors));
  c.tag("dummies=" + std::to_string(n.dummies));
  c.tag("world " + w.name);
}

// a set of indices not to be renamed: the external ones, possibly some dummies
// (which become external, too), possibly some that do not appear at all
static container::set<Index> random_named(Case& c, const Net& n, World& w, num::IndexSet& ext, bool dummies) {
  container::set<Index> named;
  for (auto& i : n.ext) named.insert(i);
  if (dummies && c.s.chance(1, 4)) {
    for (auto& i : num::all_indices(n.product(1)))
      if (!i.has_proto_indices() && c.s.chance(1, 4)) {
        bool used = false;   // also names of proto indices must stay
        for (auto& j : num::all_indices(n.product(1)))
          for (auto& q : j.proto_indices()) used = used || q == i;
        if (!used && named.insert(i).second) { ext.insert(i); c.tag("named dummy"); }
      }
  }
  if (c.s.chance(1, 4)) {
    for (int k = 1 + (int)c.s.below(2); k > 0; --k)
      named.insert(c.s.coin() ? w.make(w.spaces[c.s.below(w.spaces.size())]) : Index(w.spaces[c.s.below(w.spaces.size())], 1 + c.s.below(4)));
    for (auto& i : named) {  // a name that happens to be in use
      if (ext.count(i)) continue;
      bool in_use = false;
      for (auto& j : num::all_indices(n.product(1))) in_use = in_use || j == i;
      if (in_use) throw pbt::Discard{};
    }
    c.tag("absent named indices");
  }
  return named;
}

static void product_canonicalize(Case& c) {
  const bool loose = c.s.chance(1, 5);
  WorldOptions wo;
  wo.loose = loose;
  auto w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, w, 3, true);
  auto n = random_net(c.s, w, attrs, ext, net_options(c, loose));
  if (n.factors.empty()) throw pbt::Discard{};
  tag(c, n, w);
  c.nontrivial = n.tensors > 1 && n.dummies > 0;
  auto e = n.product(random_scalar(c.s));
  auto m = method(c.s);
  const int op = c.s.weighted({4, 2, 1, 1});
  c.note(w.name + " method=" + u8(to_wstring(m)) + " op=" + std::to_string(op));
  c.note(num::show(e));
  guard_undefined([&] {
    auto ext = n.ext;
    CanonicalizeOptions opt = CanonicalizeOptions::default_options().copy_and_set(m);
    if (op < 2 && c.s.chance(1, 2)) {
      auto named = random_named(c, n, w, ext, true);
      for (auto& i : named) c.note("named " + u8(std::wstring(i.full_label())));
      opt = opt.copy_and_set(std::optional<container::set<Index>>(named));
    }
    if (c.s.chance(1, 4)) opt = opt.copy_and_set(CanonicalizeOptions::IgnoreNamedIndexLabel::No);
    auto before = value(c, e, w, ext);
    auto x = e->clone();
    if (c.s.coin()) (void)x->hash_value();
    if (op == 0) canonicalize(x, opt);
    else if (op == 1) simplify(x, SimplifyOptions(opt));
    else if (op == 2) { auto bp = x->rapid_canonicalize(); if (bp) x = bp * x; }
    else non_canon_simplify(x);
    same(c, "canonicalize", before, value(c, x, w, ext), x);
    c.require(x->hash_value() == x->clone()->hash_value(), "hash of the result differs from that of its copy: " + num::show(x));
    c.require(num::show(e) == num::show(e->clone()), "clone differs");
  });
}

static void sum_simplify(Case& c) {
  const bool loose = c.s.chance(1, 5);
  WorldOptions wo;
  wo.loose = loose;
  auto w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, w, 2, true);
  ExprOptions o;
  o.net = net_options(c, loose);
  o.net.min_tensors = 1, o.net.max_tensors = 3, o.net.max_dummies = std::min(o.net.max_dummies, 5);
  o.net.protos = false;
  o.depth = 2;
  o.net.max_volume = 2e4;
  auto e = random_expr(c.s, w, attrs, ext, o, &c.nontrivial);
  auto m = method(c.s);
  const int op = c.s.weighted({3, 3, 1, 1});
  c.note(w.name + " method=" + u8(to_wstring(m)) + " op=" + std::to_string(op));
  c.note(num::show(e));
  guard_undefined([&] {
    auto before = value(c, e, w, ext.all());
    auto x = e->clone();
    CanonicalizeOptions opt = CanonicalizeOptions::default_options().copy_and_set(m);
    // named indices given, not deduced
    if (c.s.coin()) {
      container::set<Index> named;
      for (auto& i : ext.all()) named.insert(i);
      opt = opt.copy_and_set(std::optional<container::set<Index>>(named));
      c.tag("named indices given");
      c.note("external indices given");
    }
    if (c.s.chance(1, 4)) opt = opt.copy_and_set(CanonicalizeOptions::IgnoreNamedIndexLabel::No);
    if (op == 0) simplify(x, SimplifyOptions(opt));
    else if (op == 1) { expand(x); flatten(x); canonicalize(x, opt); }
    else if (op == 2) { expand(x); rapid_simplify(x); }
    else { expand(x); flatten(x); }
    same(c, "simplify", before, value(c, x, w, ext.all()), x);
  });
}

template <class TN>
static void tn_case(Case& c, bool v1) {
  const bool loose = TN::version() == 3 && c.s.chance(1, 5);
  WorldOptions wo;
  wo.loose = loose;
  auto w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, w, 3, !v1);
  auto no = net_options(c, loose);
  no.variables = false;
  if (v1) no.loose = no.hyper = no.nulls = no.trace = false;
  // version 2 is strict about the kinds of slots that are joined
  if (TN::version() == 2) {
    no.loose = no.hyper = no.nulls = no.trace = no.halves = false;
    no.column_symm = true;
    for (auto& l : no.labels) attrs[l] = Attr{c.s.pick({Symmetry::Nonsymm, Symmetry::Symm, Symmetry::Antisymm}), BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm, false};
  }
  auto n = random_net(c.s, w, attrs, ext, no);
  if (n.factors.empty()) throw pbt::Discard{};
  tag(c, n, w);
  c.nontrivial = n.tensors > 1 && n.dummies > 0;
  auto e = n.product(1);
  auto m = method(c.s);
  c.note(w.name + " method=" + u8(to_wstring(m)));
  c.note(num::show(e));
  guard_undefined([&] {
    auto ext = n.ext;
    using Names = std::remove_cvref_t<decltype(std::declval<TN>().ext_indices())>;
    std::optional<Names> names;
    if (c.s.chance(1, 3)) {
      auto named = random_named(c, n, w, ext, false);
      for (auto& i : named) c.note("named " + u8(std::wstring(i.full_label())));
      names = Names(named.begin(), named.end());
    }
    auto before = value(c, e, w, ext);
    auto x = e->clone();
    TN tn(x->as<Product>().factors());
    ExprPtr bp;
    auto labels = TensorCanonicalizer::cardinal_tensor_labels();
    if constexpr (TN::version() == 3)
      { auto opt = CanonicalizeOptions::default_options().copy_and_set(m);
        if (names) opt = opt.copy_and_set(std::optional<container::set<Index>>(container::set<Index>(names->begin(), names->end())));
        bp = tn.canonicalize(labels, opt); }
    else
      bp = tn.canonicalize(labels, m == CanonicalizationMethod::Lexicographic, names ? &*names : nullptr);
    auto r = std::make_shared<Product>();
    for (auto& t : tn.tensors()) r->append(1, std::dynamic_pointer_cast<Expr>(t), Product::Flatten::No);
    if (bp) r->scale(bp->as<Constant>().value());
    ExprPtr y(r);
    same(c, "TensorNetwork::canonicalize", before, value(c, y, w, ext), y);
  });
}

// Known finding: canonicalizing a Product whose factors are Products joined by
// dummy indices renames the indices of a factor without regard to the others.
static void nested_product(Case& c) {
  WorldOptions wo;
  wo.kinds = {0};
  wo.spin = 0;
  wo.aux = false;
  wo.random_first_ordinal = false;
  auto w = make_world(c.s, wo);
  auto i = [&](int k) { return Index(w.isr->retrieve(L"i"), k); };
  auto a = [&](int k) { return Index(w.isr->retrieve(L"a"), k); };
  for (int n = 0; n < 4; ++n) {
  auto T = [&](std::wstring l, Index b, Index k) {
    return ex<Tensor>(l, bra(container::svector<Index>{b}), ket(container::svector<Index>{k}), Symmetry::Nonsymm);
  };
  // (t{i_5;a_2} u{a_2;i_6}) * (t{i_6;a_1} u{a_1;i_5})
  auto inner1 = std::make_shared<Product>(), inner2 = std::make_shared<Product>(), outer = std::make_shared<Product>();
  inner1->append(1, T(L"t", i(5 + n), a(2))).append(1, T(L"u", a(2), i(6 + n)));
  inner2->append(1, T(L"f", i(6 + n), a(1))).append(1, T(L"g", a(1), i(5 + n)));
  outer->append(1, ExprPtr(inner1), Product::Flatten::No).append(1, ExprPtr(inner2), Product::Flatten::No);
  ExprPtr e(outer);
  c.note("nested product " + num::show(e));
  c.nontrivial = true;
  auto before = value(c, e, w, {});
  canonicalize(e);
  same(c, "canonicalize of a nested product", before, value(c, e, w, {}), e);
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C02";
  p.facets = {
      {"product", "random tensor network (1-5 tensors, all symmetries, external/dummy/aux/proto/empty slots) through canonicalize/simplify; non-trivial: >1 tensor and >0 dummies", product_canonicalize, 12000, 400000},
      {"sum", "random nested sum/product of networks with common externals through simplify/expand+canonicalize; non-trivial: some term has >1 tensor and dummies", sum_simplify, 6000, 200000},
      {"tnv3", "TensorNetworkV3::canonicalize", [](Case& c) { tn_case<TensorNetworkV3>(c, false); }, 3000, 100000},
      {"tnv2", "TensorNetworkV2::canonicalize", [](Case& c) { tn_case<TensorNetworkV2>(c, false); }, 3000, 100000},
      {"tnv1", "TensorNetworkV1::canonicalize", [](Case& c) { tn_case<TensorNetworkV1>(c, true); }, 3000, 100000},
      {"nested-product", "products of products joined by dummy indices (known finding)", nested_product, 4, 40},
  };
  p.init = [] {
    set_num_threads(1); TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>()); };
  return pbt::run(p, argc, argv);
}
