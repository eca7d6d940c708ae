// Canonical form does not depend on how a network was written down.
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/tensor_network.hpp>
#include <SeQuant/core/tensor_network/v3.hpp>

#include <SeQuant/external/bliss/graph.hh>

#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
NetOptions net_options(Case& c) {
  NetOptions o;
  o.max_tensors = 5;
  o.max_dummies = 6;
  o.protos = c.s.chance(1, 5);
  o.nulls = c.s.chance(1, 5);
  o.hyper = c.s.chance(1, 6);
  o.special = c.s.chance(1, 8);
  o.variables = c.s.chance(1, 8);
  o.halves = c.s.chance(1, 4);
  if (c.s.chance(1, 20)) o.min_tensors = 5, o.max_tensors = 10, o.max_dummies = 14;
  return o;
}

// canonical up to the labels of external indices is the default for a lone
// product; here labels of external indices matter
SimplifyOptions opts() {
  return SimplifyOptions(CanonicalizeOptions::default_options().copy_and_set(CanonicalizeOptions::IgnoreNamedIndexLabel::No));
}

struct Pair {
  World w;
  Net n;
  Rewritten r;
  ExprPtr a, b;
  bool zero = false;
};

Pair make_pair(Case& c, bool relabel_ext, bool lone = true) {
  Pair p;
  WorldOptions wo;
  wo.random_first_ordinal = !relabel_ext;
  p.w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, p.w, 3, true);
  p.n = random_net(c.s, p.w, attrs, ext, net_options(c));
  if (p.n.factors.empty() || (!lone && p.n.factors.size() < 2)) throw pbt::Discard{};
  RewriteOptions ro;
  ro.externals = relabel_ext;
  p.r = rewrite(c.s, p.n.factors, p.n.ext, ro);
  p.a = p.n.product(1);
  Net m = p.n;
  m.factors = p.r.factors;
  p.b = m.product(1);
  c.note(p.w.name);
  c.note(num::show(p.a));
  c.note(num::show(p.b) + (p.r.sign < 0 ? " sign -" : ""));
  c.nontrivial = p.n.tensors > 1 && p.n.dummies > 0;
  if (p.n.identical) c.tag("identical tensors");
  if (p.r.sign < 0) c.tag("sign -");
  c.tag("tensors=" + std::to_string(p.n.tensors));
  return p;
}

num::F value(const ExprPtr& e, const World& w, const num::IndexSet& ext) {
  num::EvalOptions o;
  o.externals = ext;
  try {
    return num::eval(e, w.model, o);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}

std::pair<Constant::scalar_type, std::string> split(const ExprPtr& e) {
  if (e->is<Product>()) {
    auto q = e->clone();
    auto s = q->as<Product>().scalar();
    if (s != Constant::scalar_type(0)) q->as<Product>().scale(Constant::scalar_type(1) / s);
    return {s, num::show(q)};
  }
  if (e->is<Constant>()) return {e->as<Constant>().value(), "1"};
  auto q = std::make_shared<Product>();
  q->append(1, e->clone(), Product::Flatten::No);
  return {1, num::show(q)};
}

void same_form(Case& c, const ExprPtr& x, const ExprPtr& y, int sign, bool zero, const std::string& what) {
  auto [sx, fx] = split(x);
  auto [sy, fy] = split(y);
  c.require(fx == fy, what + ": different canonical forms\n  " + num::show(x) + "\n  " + num::show(y));
  if (!zero) c.require(sx == sy * Constant::scalar_type(sign), what + ": wrong relative sign\n  " + num::show(x) + "\n  " + num::show(y));
  if (sx == sy) {
    c.require(*x == *y, what + ": equal forms compare different " + num::show(x));
    c.require(x->hash_value() == y->hash_value(), what + ": equal forms have different hashes " + num::show(x));
  }
}

void form(Case& c) {
  auto p = make_pair(c, false);
  const bool zero = value(p.a, p.w, p.n.ext).zero();
  if (zero) c.tag("zero value");
  auto m = c.s.pick({CanonicalizationMethod::Complete, CanonicalizationMethod::Complete, CanonicalizationMethod::Topological});
  c.note("method " + u8(to_wstring(m)));
  auto opt = CanonicalizeOptions::default_options().copy_and_set(m).copy_and_set(CanonicalizeOptions::IgnoreNamedIndexLabel::No);
  if (c.s.chance(1, 3)) {
    container::set<Index> named;
    for (auto& i : p.n.ext) named.insert(i);
    opt = opt.copy_and_set(std::optional<container::set<Index>>(named));
  }
  auto x = p.a->clone(), y = p.b->clone();
  canonicalize(x, opt);
  canonicalize(y, opt);
  same_form(c, x, y, p.r.sign, zero, "canonicalize");
  auto z = x->clone();
  canonicalize(z, opt);
  same_form(c, x, z, 1, zero, "repeated canonicalize");
}

void cancel(Case& c) {
  // a term that is one tensor is not treated as a network
  auto p = make_pair(c, false, false);
  const bool zero = value(p.a, p.w, p.n.ext).zero();
  auto s1 = random_scalar(c.s), s2 = random_scalar(c.s);
  auto coeff = [&](const ExprPtr& e, Constant::scalar_type s) { return ex<Constant>(s) * e->clone(); };
  // s1 a - sign s1 b cancels
  auto d = coeff(p.a, s1) + coeff(p.b, s1 * Constant::scalar_type(-p.r.sign));
  simplify(d, opts());
  if (!zero) c.require(d->is<Constant>() && d->as<Constant>().is_zero(), "equal terms did not cancel: " + num::show(d));
  // s1 a + sign s2 b is one term
  auto q = coeff(p.a, s1) + coeff(p.b, s2 * Constant::scalar_type(p.r.sign));
  simplify(q, opts());
  if (!zero) {
    const bool one = !q->is<Sum>();
    c.require(one, "equal terms were not combined: " + num::show(q));
    auto ref = coeff(p.a, s1 + s2);
    simplify(ref, opts());
    c.require(*ref == *q, "combined term has the wrong coefficient:\n  " + num::show(q) + "\n  " + num::show(ref));
  }
}

// sums: order and form of the terms do not matter
void sums(Case& c) {
  WorldOptions wo;
  auto w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, w, 2, true);
  auto no = net_options(c);
  no.min_tensors = 1, no.max_tensors = 3;
  no.protos = false;
  const int n = c.s.range(2, 5);
  Sum s1, s2;
  std::vector<std::pair<ExprPtr, Constant::scalar_type>> two;
  for (int k = 0; k < n; ++k) {
    auto net = random_net(c.s, w, attrs, ext, no);
    if (net.factors.size() < 2) continue;
    num::IndexSet e = ext.all();
    auto r = rewrite(c.s, net.factors, net.ext, {});
    auto sc = random_scalar(c.s);
    if (value(net.product(1), w, net.ext).zero()) continue;
    s1.append(net.product(sc));
    Net m = net;
    m.factors = r.factors;
    two.push_back({m.product(sc * Constant::scalar_type(r.sign)), 1});
    c.nontrivial |= net.tensors > 1 && net.dummies > 0 && k > 0;
  }
  c.s.shuffle(two);
  for (auto& [e, x] : two) s2.append(e);
  ExprPtr a = std::make_shared<Sum>(std::move(s1)), b = std::make_shared<Sum>(std::move(s2));
  c.note(w.name);
  c.note(num::show(a));
  c.note(num::show(b));
  simplify(a, opts());
  simplify(b, opts());
  c.require(*a == *b, "sums of equal terms simplify differently:\n  " + num::show(a) + "\n  " + num::show(b));
  c.require(a->hash_value() == b->hash_value(), "equal sums have different hashes");
  auto z = a->clone();
  simplify(z, opts());
  c.require(*z == *a, "simplify is not idempotent:\n  " + num::show(a) + "\n  " + num::show(z));
}

// slot canonicalization: two networks with equivalent graphs are equal after
// identifying their named indices in canonical order, up to the phases
struct Slots {
  TensorNetworkV3::SlotCanonicalizationMetadata m;
  std::vector<Index> named;
};
Slots slots(const std::vector<ExprPtr>& factors) {
  container::svector<ExprPtr> f;
  for (auto& x : factors)
    if (!x->is<Variable>()) f.push_back(x->clone());
  TensorNetworkV3 tn(f);
  Slots r;
  r.m = tn.canonicalize_slots(TensorCanonicalizer::cardinal_tensor_labels());
  for (auto& i : r.m.get_index_view()) r.named.push_back(i);
  return r;
}
void slots_case(Case& c) {
  auto p = make_pair(c, true);
  // half of the time b is changed so that it may not be equivalent any more
  auto fb = p.r.factors;
  const bool damaged = c.s.chance(2, 3) && damage(c.s, fb);
  if (damaged) c.note("damaged: " + num::show(ex<Product>(fb.begin(), fb.end())));
  c.tag(damaged ? "damaged" : "equivalent");
  auto A = slots(p.n.factors), B = slots(fb);
  const bool same_graph = A.m.graph->cmp(*B.m.graph) == 0;
  if (!damaged) {
    c.require(same_graph, "equivalent networks have different canonical graphs");
    c.require(A.m.hash_value() == B.m.hash_value(), "equivalent networks have different hashes");
  }
  if (!same_graph) return;
  c.tag("matched");
  if (damaged) c.tag("damaged but matched");
  c.require(A.m.hash_value() == B.m.hash_value(), "equal graphs, different hashes");
  c.require(A.named.size() == B.named.size(), "equivalent networks have different numbers of named indices");
  bool protos = false;
  for (auto& i : A.named) protos |= i.has_proto_indices();
  for (std::size_t k = 0; k < A.named.size(); ++k)
    c.require(A.named[k].space() == B.named[k].space(), "canonical named indices belong to different spaces");
  auto net_value = [&](const std::vector<ExprPtr>& f, const std::vector<Index>& from, const std::vector<Index>& to) {
    std::map<Index, Index, Index::FullLabelCompare> m;
    num::IndexSet ext;
    auto all = num::all_indices(ex<Product>(f.begin(), f.end()));
    int fresh = 80;
    for (std::size_t k = 0; k < from.size(); ++k)
      if (!from[k].has_proto_indices()) m.emplace(from[k], to[k]);
    for (auto& i : all)
      if (!i.has_proto_indices() && !m.count(i)) m.emplace(i, Index(i.space(), ++fresh));
    // composite indices: named ones take the ordinal of their counterpart
    std::map<Index, Index, Index::FullLabelCompare> full = m;
    for (std::size_t k = 0; k < from.size(); ++k)
      if (from[k].has_proto_indices()) full.emplace(from[k], Index(to[k].space(), to[k].ordinal(), map_protos(from[k], m)));
    for (auto& i : all)
      if (i.has_proto_indices() && !full.count(i)) full.emplace(i, Index(i.space(), ++fresh, map_protos(i, m)));
    for (auto& i : from) ext.insert(full.at(i));
    auto e = std::make_shared<Product>();
    for (auto& x : f)
      if (!x->is<Variable>()) e->append(1, map_expr(x, full), Product::Flatten::No);
    return value(ExprPtr(e), p.w, ext);
  };
  auto va = net_value(p.n.factors, A.named, A.named);
  auto vb = net_value(fb, B.named, A.named);
  if (A.m.phase != B.m.phase) vb = -vb;
  c.require(va == vb, "networks with equal canonical graphs differ: " + va.str() + " vs " + vb.str() + " phases " +
                          std::to_string(A.m.phase) + "," + std::to_string(B.m.phase));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C03";
  p.facets = {
      {"form", "random tensor network and an equivalent writing of it (dummies relabelled, factors reordered, slots permuted as the tensors' symmetries allow): same canonical form, sign as implied, idempotent; non-trivial: >1 tensor and >0 dummies", form, 20000, 600000},
      {"cancel", "the same pairs through simplify of differences and sums", cancel, 8000, 200000},
      {"sums", "sums of 2-5 networks, terms shuffled and rewritten; non-trivial: >1 term with >1 tensor and dummies", sums, 6000, 150000},
      {"slots", "canonicalize_slots on pairs that are equivalent up to names of external indices too, or damaged: equal graphs iff (=>) equal values with the reported index order and phase", slots_case, 12000, 400000},
  };
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
