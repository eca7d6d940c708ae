// C21: index bookkeeping, inspection and rewriting of expressions, each against
// a plain recursion over the expression written here.
#include <SeQuant/core/algorithm.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/io/latex/latex.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/core/utility/tensor.hpp>

#include "gen.hpp"
#include "rewrite.hpp"

#include <algorithm>

using namespace sequant;
using namespace gen;

namespace {
using num::show;
using Fp = num::F;
using Slot = std::pair<Index, int>;  // 0 bra, 1 ket, 2 aux
struct SlotLess {
  bool operator()(const Slot& a, const Slot& b) const {
    if (a.second != b.second) return a.second < b.second;
    return a.first.full_label() < b.first.full_label();
  }
};
using Slots = std::multiset<Slot, SlotLess>;

Slots slots_of(const AbstractTensor& t) {
  Slots r;
  for (auto& i : t._bra()) if (i.nonnull()) r.insert({i, 0});
  for (auto& i : t._ket()) if (i.nonnull()) r.insert({i, 1});
  for (auto& i : t._aux()) if (i.nonnull()) r.insert({i, 2});
  return r;
}
Slots once(const Slots& all) {
  std::map<std::wstring, int> n;
  for (auto& [i, s] : all) ++n[std::wstring(i.full_label())];
  Slots r;
  for (auto& x : all) if (n[std::wstring(x.first.full_label())] == 1) r.insert(x);
  return r;
}
/// the indices in exactly one slot, with the kind of the slot
Slots open(const ExprPtr& e) {
  if (e->is<Tensor>()) return once(slots_of(e->as<Tensor>()));
  if (e->is<Sum>()) return e->as<Sum>().summands().empty() ? Slots{} : open(e->as<Sum>().summand(0));
  if (!e->is<Product>()) return {};
  Slots all;
  for (auto& f : e->as<Product>().factors()) for (auto& x : open(f)) all.insert(x);
  return once(all);
}
std::string text(const Slots& s) {
  std::string r;
  for (auto& [i, k] : s) r += " " + show(i) + "@" + "bka"[k];
  return r;
}
template <typename G>
Slots of_groups(const G& g) {
  Slots r;
  for (auto& i : g.bra) r.insert({i, 0});
  for (auto& i : g.ket) r.insert({i, 1});
  for (auto& i : g.aux) r.insert({i, 2});
  return r;
}
bool same(const Slots& a, const Slots& b) { return text(a) == text(b); }

/// occurrences of indices by kind of slot; 3 = proto index
using Tally = std::map<std::wstring, std::array<long, 4>>;
void tally(const ExprPtr& e, Tally& t) {
  auto add = [&](const AbstractTensor& a) {
    for (auto& [i, k] : slots_of(a)) {
      ++t[std::wstring(i.full_label())][k];
      for (auto& p : i.proto_indices()) ++t[std::wstring(p.full_label())][3];
    }
  };
  if (e->is<AbstractTensor>()) return add(e->as<AbstractTensor>());
  if (e->is<NormalOperatorSequence<Statistics::FermiDirac>>()) {
    for (auto& o : e->as<NormalOperatorSequence<Statistics::FermiDirac>>()) add(o);
    return;
  }
  if (e->is<Sum>() || e->is<Product>()) for (auto& x : *e) tally(x, t);
}

ExprOptions expr_options(Case& c) {
  ExprOptions o;
  o.net.protos = c.s.chance(1, 3);
  o.net.nulls = c.s.chance(1, 4);
  o.net.hyper = c.s.chance(1, 4);
  o.net.loose = c.s.chance(1, 4);
  o.net.variables = c.s.chance(1, 2);
  o.net.max_tensors = 4;
  o.max_terms = 3;
  o.depth = c.s.chance(1, 2) ? 2 : 1;
  if (c.s.chance(1, 25)) {
    o.depth = 0;
    if (c.s.coin()) o.max_terms = 14;
    else o.net.min_tensors = 5, o.net.max_tensors = 12, o.net.max_dummies = 10;
  }
  return o;
}
World world(Case& c, bool loose = false) {
  WorldOptions wo;
  wo.spin = c.s.weighted({3, 1, 1});
  wo.loose = loose;
  return make_world(c.s, wo);
}
ExprPtr random_fnop(Src& s, World& w) {
  container::svector<Index> cre, ann;
  for (int n = s.range(0, 2); n--;) cre.push_back(w.make(s.pick(w.spaces)));
  for (int n = s.range(cre.empty() ? 1 : 0, 2); n--;) ann.push_back(w.make(s.pick(w.spaces)));
  return ex<FNOperator>(sequant::cre(cre), sequant::ann(ann), Vacuum::Physical);
}

ResultExpr result(std::vector<Index> b, std::vector<Index> k, std::vector<Index> a, const ExprPtr& e) {
  return ResultExpr(bra(std::move(b)), ket(std::move(k)), aux(std::move(a)), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm,
                    std::wstring(L"R"), e->clone());
}

// ------------------------------------------------------------------ indices
void indices(Case& c) {
  auto w = world(c, true);
  AttrMap attrs;
  const auto o = expr_options(c);
  const auto ext = random_ext(c.s, w, 2, true);
  bool nt = false;
  auto e = random_expr(c.s, w, attrs, ext, o, &nt);
  const auto want = open(e);
  c.nontrivial = want.size() > 1 && nt;
  c.note(show(e));
  const auto got = of_groups(get_unique_indices(e));
  if (!same(got, want)) c.fail("unique indices" + text(got) + " instead of" + text(want));
  if (!same(of_groups(get_unique_indices<container::svector<Index>>(*e)), want)) c.fail("unique indices in another container");
  // external indices: the same ones, one group per column
  Slots flat;
  auto groups = external_indices(e);
  bool columns = true;
  for (auto& g : groups) {
    int b = 0, k = 0;
    for (auto& i : g) {
      const int kind = i.slot_type() == SlotType::Bra ? 0 : i.slot_type() == SlotType::Ket ? 1 : 2;
      if (!i.index().nonnull()) c.fail("empty slot in the external indices");
      flat.insert({i.index(), kind});
      b += kind == 0, k += kind == 1;
      if (kind == 2 && g.size() != 1) columns = false;
    }
    if (b > 1 || k > 1) columns = false;
    if (b == 1) { if (get_bra_idx(g) != std::find_if(g.begin(), g.end(), [](auto& i) { return i.slot_type() == SlotType::Bra; })->index()) c.fail("get_bra_idx"); }
    if (k == 1) { if (get_ket_idx(g) != std::find_if(g.begin(), g.end(), [](auto& i) { return i.slot_type() == SlotType::Ket; })->index()) c.fail("get_ket_idx"); }
  }
  const auto expect = e->is<Tensor>() ? slots_of(e->as<Tensor>()) : want;
  if (!same(flat, expect)) c.fail("external indices" + text(flat) + " instead of" + text(expect));
  if (!columns) c.fail("group of external indices with two indices of one kind");
  // every index used
  if (c.s.coin()) {
    auto p = std::make_shared<Product>();
    p->append(1, e->clone(), Product::Flatten::No);
    p->append(1, random_fnop(c.s, w), Product::Flatten::No);
    e = p;
  } else if (c.s.chance(1, 4)) {
    auto q = std::make_shared<FNOperatorSeq>();
    q->push_back(random_fnop(c.s, w)->as<FNOperator>());
    q->push_back(random_fnop(c.s, w)->as<FNOperator>());
    e = q;
  }
  Tally t, u;
  tally(e, t);
  for (auto& [i, n] : get_used_indices_with_counts(e)) {
    u[std::wstring(i.full_label())] = {n.bra, n.ket, n.aux, n.proto};
    if (n.total() != n.bra + n.ket + n.aux + n.proto || n.nonproto() != n.bra + n.ket + n.aux) c.fail("totals of counts");
  }
  if (t != u) c.fail("counts of indices of " + show(e));
  std::set<std::wstring> labels;
  for (auto& i : get_used_indices(e)) labels.insert(std::wstring(i.full_label()));
  if (labels.size() != t.size()) c.fail("number of indices of " + show(e));
  for (auto& [l, n] : t) if (!labels.count(l)) c.fail("index " + u8(l) + " missing");
}

void pairs(Case& c) {
  auto w = world(c, c.s.coin());
  AttrMap attrs;
  NetOptions o;
  o.min_tensors = 2;
  o.protos = c.s.coin();
  o.nulls = c.s.chance(1, 3);
  o.hyper = c.s.chance(1, 3);
  o.trace = false;
  const auto net = random_net(c.s, w, attrs, random_ext(c.s, w, 2, true), o);
  std::vector<Tensor> ts;
  for (auto& f : net.factors) if (f->is<Tensor>()) ts.push_back(f->as<Tensor>());
  if (ts.size() < 2) throw pbt::Discard{};
  c.s.shuffle(ts);
  const auto &a = ts[0], &b = ts[1];
  c.note(show(ex<Tensor>(a)) + " " + show(ex<Tensor>(b)));
  std::vector<Index> all;
  for (auto& t : ts) for (auto& i : t.const_slots()) if (i.nonnull()) all.push_back(i);
  int common = 0;
  IndexGroups<std::vector<Index>> want;
  auto in = [](auto&& r, const Index& i) { for (auto& x : r) if (x == i) return true; return false; };
  auto put = [&](auto&& from, auto&& other, std::vector<Index>& to) {
    for (auto& i : from) {
      if (!i.nonnull()) continue;
      if (in(other, i)) ++common; else to.push_back(i);
    }
  };
  put(a.bra(), b.ket(), want.bra);
  put(b.bra(), a.ket(), want.bra);
  put(a.ket(), b.bra(), want.ket);
  put(b.ket(), a.bra(), want.ket);
  put(a.aux(), b.aux(), want.aux);
  put(b.aux(), a.aux(), want.aux);
  c.nontrivial = common > 0;
  const auto got = get_uncontracted_indices<std::vector<Index>>(a, b);
  if (got != want) c.fail("uncontracted indices" + text(of_groups(got)) + " instead of" + text(of_groups(want)));
  const auto other = get_uncontracted_indices<std::vector<Index>>(b, a);
  if (!same(of_groups(other), of_groups(want))) c.fail("uncontracted indices depend on the order of the tensors");
  // tensors of tensors
  c.s.shuffle(all);
  const auto tot = tot_indices(all);
  std::set<std::wstring> outer, oseen;
  std::vector<std::wstring> inner, iseen;
  for (auto& i : all) {
    if (i.has_proto_indices()) inner.push_back(std::wstring(i.full_label())); else outer.insert(std::wstring(i.full_label()));
    for (auto& p : i.proto_indices()) outer.insert(std::wstring(p.full_label()));
  }
  for (auto& i : tot.outer) if (!oseen.insert(std::wstring(i.full_label())).second) c.fail("outer index " + show(i) + " twice");
  for (auto& i : tot.inner) iseen.push_back(std::wstring(i.full_label()));
  if (oseen != outer) c.fail("outer indices");
  if (iseen != inner) c.fail("inner indices");
}

/// with a symmetrizer: the externals are those of the rest, paired as in it
void symmetrizer(Case& c) {
  auto w = world(c);
  AttrMap attrs;
  auto o = expr_options(c);
  o.net.loose = false;
  o.net.hyper = false;
  auto ext = random_ext(c.s, w, 2, c.s.chance(1, 3));
  const bool anti = c.s.coin();
  if (!anti) {
    const auto n = std::min(ext.bra.size(), ext.ket.size());
    ext.bra.resize(n), ext.ket.resize(n);
  }
  if (ext.bra.size() + ext.ket.size() == 0) throw pbt::Discard{};
  const auto rest = random_expr(c.s, w, attrs, ext, o);
  auto kb = ext.ket, kk = ext.bra;   // slots of the symmetrizer
  c.s.shuffle(kb);
  const std::wstring label = anti ? reserved::antisymm_label() : reserved::symm_label();
  const auto A = ex<Tensor>(label, bra(kb), ket(kk), aux(ext.aux), anti ? Symmetry::Antisymm : Symmetry::Nonsymm,
                            BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm);
  // in every term, in front of everything, or behind it
  const auto mode = c.s.range(0, 2);
  ExprPtr e;
  auto times = [&](const ExprPtr& x, bool front) {
    auto p = std::make_shared<Product>();
    const auto fl = c.s.coin() ? Product::Flatten::Yes : Product::Flatten::No;
    if (front) p->append(1, A->clone(), Product::Flatten::No);
    p->append(1, x->clone(), fl);
    if (!front) p->append(1, A->clone(), Product::Flatten::No);
    return ExprPtr(p);
  };
  if (rest->is<Sum>() && mode == 0) {
    auto s = std::make_shared<Sum>();
    for (auto& t : rest->as<Sum>().summands()) s->append(times(t, c.s.coin()));
    e = s;
  } else
    e = times(rest, mode == 1);
  c.note(show(e));
  c.nontrivial = ext.bra.size() > 1 || rest->is<Sum>();
  auto sorted_groups = [](auto&& gs) {
    std::vector<std::wstring> r;
    for (auto& g : gs) {
      std::map<int, std::wstring> parts;
      for (auto& i : g) parts[i.slot_type() == SlotType::Bra ? 0 : i.slot_type() == SlotType::Ket ? 1 : 2] += std::wstring(i.index().full_label());
      r.push_back(parts[0] + L"|" + parts[1] + L"|" + parts[2]);
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  std::vector<std::wstring> want;
  for (std::size_t i = 0; i < std::max(kb.size(), kk.size()); ++i)
    want.push_back((i < kk.size() ? std::wstring(kk[i].full_label()) : L"") + L"|" + (i < kb.size() ? std::wstring(kb[i].full_label()) : L"") + L"|");
  for (auto& i : ext.aux) want.push_back(L"||" + std::wstring(i.full_label()));
  std::sort(want.begin(), want.end());
  const auto got = sorted_groups(external_indices(e));
  if (got != want) c.fail("columns of the external indices");
  // taking it out
  auto popped = e->clone();
  [[maybe_unused]] const auto h = popped->hash_value();
  const auto t = pop_tensor(popped, label);
  c.require(t.has_value() && **t == *A, "tensor taken out");
  c.require(show(popped).find(u8(label) + "{") == std::string::npos && !pop_tensor(popped, label).has_value(), "nothing left of it");
  const auto m = w.model;
  num::EvalOptions eo;
  eo.externals = ext.all();
  const auto x = num::eval(popped, m, eo), y = num::eval(rest, m, eo);
  if (!(x == y)) c.fail("rest " + show(popped) + " is " + x.str() + " instead of " + y.str());
  if (popped->hash_value() != popped->clone()->hash_value()) c.fail("stale hash of " + show(popped));
  auto untouched = rest->clone();
  c.require(!pop_tensor(untouched, label).has_value(), "tensor that is not there");
  c.require(num::eval(untouched, m, eo) == y, "value without the tensor");
  // result with these externals
  auto b2 = ext.bra, k2 = ext.ket;
  c.s.shuffle(b2);
  auto r = result(b2, k2, ext.aux, e);
  std::string msg;
  if (!is_valid(r, &msg)) c.fail("result is not valid: " + msg);
  // replacing what is not there leaves the result alone
  replace(r, ex<Variable>(L"nowhere"), ex<Variable>(L"else"));
  c.require(std::equal(r.bra().begin(), r.bra().end(), b2.begin(), b2.end()) && std::equal(r.ket().begin(), r.ket().end(), k2.begin(), k2.end()) &&
            std::equal(r.aux().begin(), r.aux().end(), ext.aux.begin(), ext.aux.end()) && r.label() == L"R", "indices of the result of nothing replaced");
  c.require(*r.expression() == *e, "expression of the result of nothing replaced");
}

// ---------------------------------------------------------------- rewriting
ExprPtr subst(const ExprPtr& e, const std::function<ExprPtr(const ExprPtr&)>& f) {
  if (e->is<Sum>()) {
    auto r = std::make_shared<Sum>();
    for (auto& x : e->as<Sum>().summands()) r->append(subst(x, f));
    return r;
  }
  if (e->is<Product>()) {
    auto r = std::make_shared<Product>();
    r->scale(e->as<Product>().scalar());
    for (auto& x : e->as<Product>().factors()) r->append(1, subst(x, f), Product::Flatten::No);
    return r;
  }
  return f(e);
}
void atoms_of(const ExprPtr& e, std::vector<ExprPtr>& r) {
  if (e->is<Sum>() || e->is<Product>()) for (auto& x : *e) atoms_of(x, r);
  else r.push_back(e);
}
bool same_block(const Tensor& a, const Tensor& b) {
  if (a.label() != b.label() || a.num_slots() != b.num_slots() || a.num_indices() != b.num_indices()) return false;
  std::vector<Index> x, y;
  for (auto& i : a.const_slots()) if (i.nonnull()) x.push_back(i);
  for (auto& i : b.const_slots()) if (i.nonnull()) y.push_back(i);
  for (std::size_t i = 0; i < x.size(); ++i) if (x[i].space() != y[i].space()) return false;
  return true;
}

/// transform_expr refuses nested expressions
bool flat(const ExprPtr& e) {
  auto term = [](const ExprPtr& x) {
    if (x->is<Sum>()) return false;
    if (x->is<Product>()) for (auto& f : x->as<Product>().factors()) if (!f->is_atom() || f->is<Power>() || f->is<Product>() || f->is<Sum>()) return false;
    return !x->is<Power>();
  };
  if (e->is<Sum>()) return std::all_of(e->as<Sum>().summands().begin(), e->as<Sum>().summands().end(), term);
  return term(e);
}
void transform(Case& c) {
  auto w = world(c, true);
  AttrMap attrs;
  auto o = expr_options(c);
  o.depth = 1;
  const auto ext = random_ext(c.s, w, 2, true);
  auto e = random_expr(c.s, w, attrs, ext, o);
  if (!flat(e)) throw pbt::Discard{};
  if (e->is<Product>() && c.s.chance(1, 3)) e->as<Product>().append(1, random_fnop(c.s, w));
  // a permutation of some indices, or new names
  std::vector<Index> ids;
  for (auto& i : num::all_indices(e)) ids.push_back(i);
  IndexMap im;
  std::map<std::wstring, std::vector<Index>> by_space;
  for (auto& i : ids) if (!i.has_proto_indices()) by_space[std::wstring(i.space().base_key())].push_back(i);
  for (auto& [k, v] : by_space) {
    auto p = v;
    c.s.shuffle(p);
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (c.s.chance(1, 4)) p[i] = v[i].has_proto_indices() ? v[i] : w.make(v[i].space());
    }
    std::set<std::wstring> seen;
    bool ok = true;
    for (auto& x : p) ok &= seen.insert(std::wstring(x.full_label())).second;
    if (!ok) continue;
    for (std::size_t i = 0; i < v.size(); ++i) if (p[i] != v[i]) im.emplace(v[i], p[i]);
  }
  container::map<Index, Index> cm;
  for (auto& [a, b] : im) { cm.emplace(a, b); c.note(show(a) + "->" + show(b)); }
  const auto f = c.s.coin() ? Constant::scalar_type{1} : random_scalar(c.s);
  c.note(show(e));
  c.nontrivial = im.size() > 1;
  const auto copy = e->clone();
  const auto r = transform_expr(e, cm, f);
  c.require(*copy == *e, "argument changed");
  const auto want = map_expr(e, im);
  auto ratio_ok = [&] {
    std::vector<ExprPtr> a, b;
    atoms_of(r, a), atoms_of(want, b);
    std::erase_if(a, [](auto& x) { return x->template is<Constant>(); });
    std::erase_if(b, [](auto& x) { return x->template is<Constant>(); });
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!(*a[i] == *b[i])) return false;
    return true;
  };
  if (!ratio_ok()) c.fail("got " + show(r) + " instead of " + show(want));
  if (r->hash_value() != r->clone()->hash_value()) c.fail("stale hash");
  // scalars
  auto scalars = [](const ExprPtr& x) {
    std::vector<Constant::scalar_type> s;
    auto one = [](const ExprPtr& t) {
      if (t->is<Constant>()) return t->as<Constant>().value();
      return t->is<Product>() ? t->as<Product>().scalar() : Constant::scalar_type{1};
    };
    if (x->is<Sum>()) for (auto& t : x->as<Sum>().summands()) s.push_back(one(t));
    else s.push_back(one(x));
    return s;
  };
  auto a = scalars(r), b = scalars(want);
  for (auto& x : b) x *= f;
  if (a != b) c.fail("factors of " + show(r) + " after scaling " + show(want));
}

void replacing(Case& c) {
  auto w = world(c, c.s.chance(1, 3));
  AttrMap attrs;
  auto o = expr_options(c);
  o.net.rank_labels = true;
  o.net.labels = {L"t", L"g"};
  o.net.trace = false;
  const auto ext = random_ext(c.s, w, 2, true);
  auto e = random_expr(c.s, w, attrs, ext, o);
  std::vector<ExprPtr> atoms;
  atoms_of(e, atoms);
  if (atoms.empty()) throw pbt::Discard{};
  auto target = c.s.pick(atoms)->clone();
  if (c.s.chance(1, 4)) e = target->clone();     // the whole expression
  const bool tensor = target->is<Tensor>();
  const bool block = tensor && c.s.coin();
  if (!tensor && !target->is<Variable>()) throw pbt::Discard{};
  std::vector<Index> tids;
  if (tensor) {
    if (block) {  // other names
      IndexMap im;
      for (auto& i : target->as<Tensor>().const_indices()) if (!i.has_proto_indices()) im.emplace(i, w.make(i.space()));
      target = map_expr(target, im);
    }
    std::set<std::wstring> seen;
    for (auto& i : target->as<Tensor>().const_indices()) {
      if (!seen.insert(std::wstring(i.full_label())).second) throw pbt::Discard{};
      tids.push_back(i);
    }
    for (auto& i : tids) for (auto& p : i.proto_indices()) if (block || seen.count(std::wstring(p.full_label()))) throw pbt::Discard{};
  }
  // replacement with some of the indices of the target
  Ext re;
  if (tensor) {
    auto keep = c.s.range(0, 3) > 0;
    for (auto& i : target->as<Tensor>().bra()) if (i.nonnull() && (keep || c.s.coin())) re.bra.push_back(i);
    for (auto& i : target->as<Tensor>().ket()) if (i.nonnull() && (keep || c.s.coin())) re.ket.push_back(i);
    for (auto& i : target->as<Tensor>().aux()) if (i.nonnull() && (keep || c.s.coin())) re.aux.push_back(i);
  }
  AttrMap a2;
  ExprOptions ro;
  ro.net.labels = {L"X", L"Y"};
  ro.net.max_tensors = 2;
  ro.net.loose = true;
  ro.net.variables = true;
  ro.max_terms = 2;
  const auto rep = c.s.chance(1, 4) && tensor
      ? ex<Tensor>(L"X", bra(re.bra), ket(re.ket), aux(re.aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm)
      : random_expr(c.s, w, a2, re, ro);
  if (!flat(rep)) throw pbt::Discard{};
  c.note(show(e) + "   " + show(target) + " => " + show(rep) + (block ? " by block" : ""));
  int hits = 0;
  const auto want = subst(e, [&](const ExprPtr& x) -> ExprPtr {
    if (!block) {
      if (!(x->type_id() == target->type_id() && *x == *target)) return x->clone();
      ++hits;
      return rep->clone();
    }
    if (!x->is<Tensor>() || !same_block(x->as<Tensor>(), target->as<Tensor>())) return x->clone();
    const auto &t = target->as<Tensor>(), &u = x->as<Tensor>();
    IndexMap im;
    std::vector<Index> a, b;
    for (auto& i : t.const_slots()) a.push_back(i);
    for (auto& i : u.const_slots()) b.push_back(i);
    for (std::size_t i = 0; i < a.size(); ++i) {
      if (a[i].nonnull() != b[i].nonnull()) throw pbt::Discard{};
      if (a[i].nonnull() && !(a[i] == b[i])) im.emplace(a[i], b[i]);
    }
    ++hits;
    return map_expr(rep, im);
  });
  c.nontrivial = hits > 0 && !(e->is_atom());
  c.tag(e->is_atom() ? "whole" : "part");
  c.tag(block ? "block" : "equal");
  if (hits > 1) c.tag("several");
  auto got = e->clone();
  [[maybe_unused]] const auto h = got->hash_value();
  const auto rcopy = rep->clone(), tcopy = target->clone();
  ExprPtr* back = block ? &replace(got, target, rep, TensorBlockEqualComparator{}) : &replace(got, target, rep);
  c.require(back == &got, "reference to the expression returned");
  c.require(*rep == *rcopy && *target == *tcopy, "target and replacement unchanged");
  if (show(got) != show(want)) {
    // sums may have been flattened
    std::vector<ExprPtr> a, b;
    atoms_of(got, a), atoms_of(want, b);
    bool ok = a.size() == b.size();
    for (std::size_t i = 0; ok && i < a.size(); ++i) ok = *a[i] == *b[i];
    if (!ok) c.fail("got " + show(got) + " instead of " + show(want));
  }
  if (hits && got->hash_value() != got->clone()->hash_value()) c.fail("stale hash of " + show(got));
}

// --------------------------------------------------------------- inspection
/// a copy with one thing changed; null if nothing could be
ExprPtr mutate(Case& c, World& w, const ExprPtr& e, int depth = 0) {
  auto& s = c.s;
  if (depth < 5 && (e->is<Sum>() || e->is<Product>()) && !e->empty() && s.chance(3, 4)) {
    const auto at = s.below(e->size());
    std::size_t i = 0;
    if (e->is<Sum>()) {
      auto r = std::make_shared<Sum>();
      for (auto& x : e->as<Sum>().summands()) { auto y = i++ == at ? mutate(c, w, x, depth + 1) : x->clone(); if (!y) return {}; r->append(y); }
      return r;
    }
    auto r = std::make_shared<Product>();
    r->scale(e->as<Product>().scalar());
    for (auto& x : e->as<Product>().factors()) { auto y = i++ == at ? mutate(c, w, x, depth + 1) : x->clone(); if (!y) return {}; r->append(1, y, Product::Flatten::No); }
    return r;
  }
  if (e->is<Sum>()) {
    auto r = std::make_shared<Sum>();
    const auto drop = s.coin() ? s.below(e->size()) : std::size_t(-1);
    std::size_t i = 0;
    for (auto& x : e->as<Sum>().summands()) if (i++ != drop) r->append(x->clone());
    if (drop == std::size_t(-1)) r->append(ex<Variable>(L"more"));
    return r;
  }
  if (e->is<Product>()) {
    auto r = std::make_shared<Product>();
    const auto kind = s.range(0, 2);
    r->scale(e->as<Product>().scalar() * (kind == 0 ? Constant::scalar_type(rational(3, 2), rational(s.range(0, 1))) : Constant::scalar_type(1)));
    const auto drop = kind == 1 ? s.below(e->size()) : std::size_t(-1);
    std::size_t i = 0;
    for (auto& x : e->as<Product>().factors()) if (i++ != drop) r->append(1, x->clone(), Product::Flatten::No);
    if (kind == 2) r->append(1, ex<Variable>(L"more"), Product::Flatten::No);
    return r;
  }
  if (e->is<Tensor>()) {
    const auto& t = e->as<Tensor>();
    std::vector<Index> b(t.bra().begin(), t.bra().end()), k(t.ket().begin(), t.ket().end()), x(t.aux().begin(), t.aux().end());
    auto sy = t.symmetry(); auto bk = t.braket_symmetry(); auto cs = t.column_symmetry();
    std::wstring l(t.label());
    switch (s.range(0, 5)) {
      case 0: l += L"x"; break;
      case 1: sy = sy == Symmetry::Nonsymm ? Symmetry::Symm : Symmetry::Nonsymm; break;
      case 2: bk = bk == BraKetSymmetry::Conjugate ? BraKetSymmetry::Symm : BraKetSymmetry::Conjugate; break;
      case 3: cs = cs == ColumnSymmetry::Nonsymm || sy != Symmetry::Nonsymm ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm; break;
      default: {
        auto* v = s.pick(std::vector<std::vector<Index>*>{&b, &k, &x});
        if (v->empty()) v->push_back(w.make(s.pick(w.spaces)));
        else { const auto at = s.below(v->size()); (*v)[at] = w.make((*v)[at].nonnull() ? (*v)[at].space() : w.spaces[0]); }
      }
    }
    // empty slots and symmetries do not go together
    for (auto* v : {&b, &k})
      for (auto& i : *v) if (!i.nonnull()) sy = Symmetry::Nonsymm;
    if (sy != Symmetry::Nonsymm) cs = ColumnSymmetry::Symm;
    return ex<Tensor>(l, bra(b), ket(k), aux(x), sy, bk, cs);
  }
  if (e->is<Constant>()) return ex<Constant>(e->as<Constant>().value() + Constant::scalar_type(rational(1, 3), rational(s.range(0, 1))));
  if (e->is<Variable>()) {
    if (s.coin()) { auto r = e->clone(); r->as<Variable>().conjugate(); return r; }
    return ex<Variable>(std::wstring(e->as<Variable>().label()) + L"x");
  }
  if (e->is<Power>()) {
    const auto& p = e->as<Power>();
    if (s.chance(1, 3)) { auto r = e->clone(); r->as<Power>().conjugate(); return r; }
    if (s.coin()) return ex<Power>(p.base(), p.exponent() + rational(1, 2));
    return ex<Power>(ex<Variable>(L"other"), p.exponent());
  }
  if (e->is<FNOperator>()) return random_fnop(s, w);
  return {};
}
ExprPtr with_specials(Case& c, World& w, const ExprPtr& e) {
  auto p = std::make_shared<Product>();
  p->scale(random_scalar(c.s));
  p->append(1, e->clone(), c.s.coin() ? Product::Flatten::Yes : Product::Flatten::No);
  if (c.s.coin()) p->append(1, ex<Power>(std::wstring(c.s.coin() ? L"x" : L"y"), rational(c.s.range(-3, 3), c.s.range(1, 3))), Product::Flatten::No);
  if (c.s.chance(1, 4)) p->append(1, ex<Power>(rational(c.s.range(2, 5)), rational(1, 2)), Product::Flatten::No);
  if (c.s.chance(1, 3)) p->append(1, random_fnop(c.s, w), Product::Flatten::No);
  if (c.s.chance(1, 3)) p->append(1, ex<Variable>(L"v"), Product::Flatten::No);
  return p;
}
void differences(Case& c) {
  auto w = world(c, true);
  AttrMap attrs;
  const auto o = expr_options(c);
  auto e = random_expr(c.s, w, attrs, random_ext(c.s, w, 2, true), o);
  e = with_specials(c, w, e);
  const bool equal = c.s.chance(1, 5);
  const auto f = equal ? e->clone() : mutate(c, w, e);
  if (!f) throw pbt::Discard{};
  c.note(show(e) + "  vs  " + show(f));
  const bool eq = e->type_id() == f->type_id() && *e == *f;
  c.nontrivial = !eq;
  for (int i = 0; i < 2; ++i) {
    const auto d = i ? diff(*f, *e) : diff(*e, *f);
    if (d.empty() != eq) c.fail(eq ? "difference of equal expressions: " + d : "no difference");
  }
  c.require(diff(*e, *e->clone()).empty(), "difference from a copy");
}
void validity(Case& c) {
  auto w = world(c, c.s.coin());
  AttrMap attrs;
  auto o = expr_options(c);
  o.net.hyper = false;
  const auto ext = random_ext(c.s, w, 2, true);
  auto e = random_expr(c.s, w, attrs, ext, o);
  if (c.s.coin()) {
    auto p = std::make_shared<Product>();
    p->append(1, e->clone(), Product::Flatten::No);
    if (c.s.coin()) p->append(random_scalar(c.s), ex<Power>(L"x", rational(c.s.range(-3, 3), 2)), Product::Flatten::No);
    p->append(1, ex<Variable>(L"v"), Product::Flatten::No);
    e = p;
  }
  std::string msg = "unset";
  c.note(show(e));
  if (!is_valid(e, &msg)) c.fail("not valid: " + msg);
  c.require(msg == "unset", "no message about a valid expression");
  auto r = result(ext.bra, ext.ket, ext.aux, e);
  if (!o.net.loose && !is_valid(r, &msg)) c.fail("result is not valid: " + msg);
  // broken
  switch (c.s.range(0, 2)) {
    case 0: {  // one term with another external index
      auto s = std::make_shared<Sum>();
      auto other = ext;
      auto* v = c.s.pick(std::vector<std::vector<Index>*>{&other.bra, &other.ket});
      v->push_back(w.make(w.spaces[0]));
      const auto bad = ex<Tensor>(L"q", bra(other.bra), ket(other.ket), aux(other.aux));
      if (c.s.coin()) { s->append(e->clone()); s->append(bad); } else { s->append(bad); s->append(e->clone()); }
      msg.clear();
      c.require(!is_valid(ExprPtr(s), &msg) && !msg.empty(), "sum of terms with unlike indices is valid");
      auto p = std::make_shared<Product>();
      p->append(1, ex<Variable>(L"v"), Product::Flatten::No);
      p->append(1, ExprPtr(s), Product::Flatten::No);
      c.require(!is_valid(ExprPtr(p)), "product with a sum of terms with unlike indices is valid");
      c.nontrivial = true;
      break;
    }
    case 1: {  // an index in three factors
      std::vector<Index> ids;
      for (auto& x : open(e)) if (x.second < 2) ids.push_back(x.first);
      if (ids.empty()) break;
      const auto i = c.s.pick(ids);
      auto p = std::make_shared<Product>();
      p->append(1, e->clone(), Product::Flatten::No);
      p->append(1, ex<Tensor>(L"q", bra{i}, ket{}), Product::Flatten::No);
      p->append(1, ex<Tensor>(L"q", bra{}, ket{i}), Product::Flatten::No);
      msg.clear();
      c.require(!is_valid(ExprPtr(p), &msg) && !msg.empty(), "product with an index three times is valid");
      c.nontrivial = true;
      break;
    }
    default: {  // result without one index, or with it twice as bra and ket
      auto other = ext;
      auto* v = c.s.pick(std::vector<std::vector<Index>*>{&other.bra, &other.ket, &other.aux});
      if (v->empty()) break;
      if (c.s.coin()) v->erase(v->begin() + c.s.below(v->size()));
      else { (*v)[c.s.below(v->size())] = w.make(w.spaces[0]); }
      const auto bad = result(other.bra, other.ket, other.aux, e);
      msg.clear();
      c.require(!is_valid(bad, &msg) && !msg.empty(), "result with unlike indices is valid");
      c.nontrivial = true;
    }
  }
}

void blocks(Case& c) {
  auto w = world(c, true);
  AttrMap attrs;
  NetOptions o;
  o.protos = c.s.chance(1, 4);
  o.nulls = c.s.chance(1, 4);
  o.labels = {L"t", L"u"};
  o.min_tensors = 2;
  std::vector<Tensor> ts;
  for (int n = c.s.range(1, 2); n--;) {
    auto net = random_net(c.s, w, attrs, random_ext(c.s, w, 1, true), o);
    for (auto& f : net.factors) if (f->is<Tensor>()) ts.push_back(f->as<Tensor>());
  }
  for (std::size_t i = 0, n = ts.size(); i < n && ts.size() < 10; ++i) {  // the same with other indices or slots moved
    if (c.s.coin()) continue;
    IndexMap im;
    for (auto& x : ts[i].const_indices()) if (!x.has_proto_indices() && c.s.coin()) im.emplace(x, w.make(x.space()));
    ts.push_back(map_expr(ex<Tensor>(ts[i]), im)->as<Tensor>());
    if (c.s.coin()) {
      std::vector<Index> b(ts[i].bra().begin(), ts[i].bra().end());
      for (auto& x : ts[i].ket()) b.push_back(x);
      for (auto& x : ts[i].aux()) b.push_back(x);
      std::set<std::wstring> seen;
      if (std::all_of(b.begin(), b.end(), [&](auto& x) { return x.nonnull() && seen.insert(std::wstring(x.full_label())).second; }))
        ts.push_back(Tensor(ts[i].label(), bra{}, ket{}, aux(b)));
    }
  }
  if (ts.empty()) throw pbt::Discard{};
  std::vector<Index> special;
  for (auto& t : ts) for (auto& i : t.const_indices()) if (c.s.chance(1, 3) && std::find(special.begin(), special.end(), i) == special.end()) special.push_back(i);
  c.s.shuffle(special);
  for (auto& t : ts) c.note(show(ex<Tensor>(t)));
  const TensorBlockEqualComparator eq;
  const TensorBlockLessThanComparator lt;
  const IndexSpecificTensorBlockEqualComparator seq(special);
  const IndexSpecificTensorBlockLessThanComparator slt(special);
  auto place = [&](const Index& i) { return std::size_t(std::find(special.begin(), special.end(), i) - special.begin()); };
  auto specific = [&](const Tensor& a, const Tensor& b) {
    if (!same_block(a, b)) return false;
    std::vector<std::size_t> x, y;
    for (auto& i : a.const_indices()) x.push_back(place(i));
    for (auto& i : b.const_indices()) y.push_back(place(i));
    return x == y;
  };
  auto txt = [](const Tensor& a, const Tensor& b) { return show(ex<Tensor>(a)) + " " + show(ex<Tensor>(b)); };
  const std::size_t n = ts.size();
  std::vector<std::vector<char>> L(n, std::vector<char>(n)), S = L;
  int equal = 0;
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
    const auto &a = ts[i], &b = ts[j];
    if (eq(a, b) != same_block(a, b)) c.fail("equality of blocks " + txt(a, b));
    if (eq(ex<Tensor>(a), ex<Tensor>(b)) != eq(a, b)) c.fail("equality by pointer");
    if (seq(a, b) != specific(a, b)) c.fail("equality of blocks with indices " + txt(a, b));
    L[i][j] = lt(a, b);
    S[i][j] = slt(a, b);
    equal += i != j && same_block(a, b);
  }
  c.nontrivial = equal > 0 && n > 2;
  auto order = [&](auto& M, auto&& same_as, const char* what) {
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
      if (M[i][j] && M[j][i]) c.fail(std::string(what) + ": both ways " + txt(ts[i], ts[j]));
      if ((!M[i][j] && !M[j][i]) != same_as(ts[i], ts[j])) c.fail(std::string(what) + ": order and equality differ " + txt(ts[i], ts[j]));
      for (std::size_t k = 0; k < n; ++k) if (M[i][j] && M[j][k] && !M[i][k]) c.fail(std::string(what) + ": not transitive");
    }
  };
  order(L, same_block, "order of blocks");
  order(S, specific, "order of blocks with indices");
}

void subsets(Case& c) {
  auto w = world(c, true);
  const int n = c.s.range(1, 6);
  std::vector<Index> pool;
  for (int k = c.s.range(1, 8); k--;) pool.push_back(w.make(c.s.pick(w.spaces)));
  std::vector<container::svector<Index>> rng(n);
  for (auto& i : pool) {
    // in one, two or more of them
    const int copies = std::min(n, (int)c.s.weighted({0, 3, 6, 2, 1}));
    std::vector<int> at(n);
    for (int k = 0; k < n; ++k) at[k] = k;
    c.s.shuffle(at);
    for (int k = 0; k < copies; ++k) rng[at[k]].push_back(i);
  }
  container::svector<Index> tixs;
  for (auto& i : pool) {
    int cnt = 0;
    for (auto& r : rng) cnt += std::count(r.begin(), r.end(), i);
    if (cnt == 1 || (cnt > 1 && c.s.chance(1, 4))) tixs.push_back(i);
  }
  for (auto& r : rng) { std::string t; for (auto& i : r) t += " " + show(i); c.note("{" + t + " }"); }
  { std::string t; for (auto& i : tixs) t += " " + show(i); c.note("targets" + t); }
  auto in_set = [&](const Index& i, std::size_t m) { int k = 0; for (int t = 0; t < n; ++t) if (m >> t & 1) k += std::count(rng[t].begin(), rng[t].end(), i); return k; };
  const std::size_t full = (std::size_t(1) << n) - 1;
  const auto counts = subset_index_counts(rng);
  const auto got = subset_target_indices(rng, tixs);
  c.require(counts.size() == full + 1 && got.size() == full + 1, "one entry per subset");
  bool hyper = false;
  for (std::size_t m = 1; m <= full; ++m)
    for (auto& i : pool) {
      const int k = in_set(i, m);
      auto it = counts[m].find(i);
      if ((it == counts[m].end() ? 0 : (int)it->second) != k) c.fail("count of " + show(i) + " in subset " + std::to_string(m));
      const bool want = k && (k == 1 || in_set(i, full & ~m) || std::count(tixs.begin(), tixs.end(), i));
      hyper |= k > 1 && want;
      if ((got[m].count(i) > 0) != want) c.fail(show(i) + (want ? " is not" : " is") + " left in subset " + std::to_string(m));
    }
  c.nontrivial = hyper && n > 2;
  // left to right
  using Set = std::set<Index, Index::FullLabelCompare>;
  std::vector<Set> sets;
  for (auto& r : rng) sets.emplace_back(r.begin(), r.end());
  const Set keep(tixs.begin(), tixs.end());
  const auto ltr = left_to_right_binarization_indices<Index, Set>(sets, keep);
  c.require((int)ltr.imed.size() == n && (int)ltr.children.size() == n, "one intermediate per factor");
  for (int t = 0; t < n; ++t)
    for (auto& i : pool) {
      const std::size_t m = (std::size_t(2) << t) - 1;
      const int k = in_set(i, m), rest = in_set(i, full & ~m);
      const bool want = k && (rest || keep.count(i));
      if ((ltr.imed[t].count(i) > 0) != want) c.fail(show(i) + (want ? " is not" : " is") + " in intermediate " + std::to_string(t));
      const bool child = sets[t].count(i) && (in_set(i, full) > 1 || keep.count(i));
      if ((ltr.children[t].count(i) > 0) != child) c.fail(show(i) + (child ? " is not" : " is") + " in factor " + std::to_string(t));
    }
}

// --------------------------------------------------------------- typesetting
std::size_t occurrences(const std::wstring& s, const std::wstring& x) {
  std::size_t n = 0;
  for (auto p = s.find(x); p != s.npos; p = s.find(x, p + 1)) ++n;
  return n;
}
// every node of an expression is visited once, factors and summands before what
// they are part of; leaves are listed in this order
ExprPtr nest(Src& s, ExprPtr e, int depth) {
  if (!e->is<Product>() && !e->is<Sum>()) {
    if (depth > 0 && s.chance(1, 6)) return ex<Product>(ExprPtrList{e}, Product::Flatten::No);
    return e;
  }
  if (e->is<Sum>()) {
    // (sums and products of one operand, too)
    Product r;
    Sum q;
    for (auto& x : *e) q.append(nest(s, x->clone(), depth - 1));
    auto sum = ex<Sum>(std::move(q));
    if (depth > 0 && s.chance(1, 4)) return r.append(1, sum, Product::Flatten::No), ex<Product>(std::move(r));
    return sum;
  }
  Product r;
  r.scale(e->as<Product>().scalar());
  std::vector<ExprPtr> f;
  for (auto& x : *e) f.push_back(nest(s, x->clone(), depth - 1));
  while (depth-- > 0 && f.size() > 1 && s.chance(2, 3)) {
    const auto n = 1 + s.below((std::uint32_t)f.size()), at = s.below((std::uint32_t)(f.size() - n + 1));
    Product q;
    for (auto k = at; k < at + n; ++k) q.append(1, f[k], Product::Flatten::No);
    f.erase(f.begin() + at, f.begin() + at + n);
    f.insert(f.begin() + at, ex<Product>(std::move(q)));
  }
  for (auto& x : f) r.append(1, x, Product::Flatten::No);
  return ex<Product>(std::move(r));
}
struct Walk {
  std::vector<const Expr*> all, leaves;
  bool hollow = false;   // something without operands
  void operator()(const Expr& e) {
    const bool group = e.is<Sum>() || e.is<Product>();
    if (group) {
      std::size_t n = 0;
      for (auto& x : e.is<Sum>() ? std::vector<ExprPtr>(e.as<Sum>().summands().begin(), e.as<Sum>().summands().end())
                                 : std::vector<ExprPtr>(e.as<Product>().factors().begin(), e.as<Product>().factors().end())) (*this)(*x), ++n;
      hollow |= n == 0;
    }
    all.push_back(&e);
    if (!group || e.empty()) leaves.push_back(&e);
  }
};
void walks(Case& c) {
  auto w = world(c, c.s.chance(1, 3));
  AttrMap attrs;
  auto e = nest(c.s, random_expr(c.s, w, attrs, random_ext(c.s, w, 2, true), expr_options(c)), c.s.range(0, 3));
  c.note(show(e));
  Walk want;
  want(*e);
  c.nontrivial = want.all.size() > want.leaves.size() + 1;
  auto same_walk = [&](const std::vector<const Expr*>& got, const std::vector<const Expr*>& w, const char* what) {
    c.require(got.size() == w.size(), std::string(what) + " comes to " + std::to_string(got.size()) + " nodes instead of " + std::to_string(w.size()));
    for (std::size_t k = 0; k < w.size(); ++k) c.require(got[k] == w[k], std::string(what) + " comes to another node at step " + std::to_string(k));
  };
  std::vector<const Expr*> got;
  const bool root = e->visit([&](const ExprPtr& x) { got.push_back(x.get()); });
  same_walk(got, want.all, "visit");
  c.require(root, "visit says it has not visited the expression itself");
  got.clear();
  std::as_const(*e).visit([&](const ExprPtr& x) { got.push_back(x.get()); });
  same_walk(got, want.all, "visit of a constant expression");
  got.clear();
  e->visit([&](const ExprPtr& x) { got.push_back(x.get()); }, true);
  if (!want.hollow) same_walk(got, want.leaves, "visit of leaves");
  auto inner = want.all;
  inner.pop_back();
  got.clear();
  c.require(!e->visit([&](ExprPtr& x) { got.push_back(x.get()); }), "visit says it has changed the expression itself");
  same_walk(got, inner, "changing visit");
  got.clear();
  if (!want.hollow && (e->is<Sum>() || e->is<Product>())) {
    ExprRange r(e);
    long ordinal = 0;
    for (auto it = ranges::begin(r); it != ranges::end(r); ++it, ++ordinal) {
      got.push_back((*it).get());
      c.require(ordinal == ranges::get_cursor(it).ordinal(), "leaf is counted wrongly");
      auto a = ranges::get_cursor(it).address();
      const Expr* at = e.get();
      for (auto& [host, k] : a) {
        c.require(host->get() == at, "address of a leaf leads elsewhere");
        at = (**host)[(std::size_t)k].get();
      }
      c.require(at == (*it).get(), "address of a leaf is that of another");
    }
    same_walk(got, want.leaves, "range of leaves");
  }
}
void typeset(Case& c) {
  auto w = world(c, true);
  AttrMap attrs;
  const auto o = expr_options(c);
  auto e = random_expr(c.s, w, attrs, random_ext(c.s, w, 2, true), o);
  e = with_specials(c, w, e);
  c.note(show(e));
  const auto l = e->to_latex();
  c.note(u8(l));
  int depth = 0;
  for (auto ch : l) {
    if (ch == L'{') ++depth;
    if (ch == L'}' && --depth < 0) c.fail("unbalanced braces in " + u8(l));
  }
  if (depth) c.fail("unbalanced braces in " + u8(l));
  if (e->clone()->to_latex() != l) c.fail("a copy looks different");
  // each slot is there
  std::map<std::wstring, std::size_t> want;
  std::vector<ExprPtr> atoms;
  atoms_of(e, atoms);
  auto add = [&](const Index& i, auto&& self) -> void {
    ++want[i.to_latex()];
    for (auto& p : i.proto_indices()) self(p, self);
  };
  bool any = false;
  for (auto& a : atoms) {
    if (!a->is<AbstractTensor>()) continue;
    for (auto& [i, k] : slots_of(a->as<AbstractTensor>())) add(i, add), any = true;
  }
  c.nontrivial = any && atoms.size() > 2;
  for (auto& [x, n] : want)
    if (occurrences(l, x) != n) c.fail(u8(x) + " is there " + std::to_string(occurrences(l, x)) + " times instead of " + std::to_string(n) + " in " + u8(l));
  // what looks alike is alike, up to symmetries of tensors, which do not show
  const auto f = mutate(c, w, e);
  if (!f) return;
  auto plain = [](const ExprPtr& x) {
    return subst(x, [](const ExprPtr& y) -> ExprPtr {
      if (!y->is<Tensor>()) return y->clone();
      const auto& t = y->as<Tensor>();
      // trailing empty slots do not show either
      std::vector<Index> b(t.bra().begin(), t.bra().end()), k(t.ket().begin(), t.ket().end());
      for (auto* v : {&b, &k})
        while (!v->empty() && !v->back().nonnull()) v->pop_back();
      return ex<Tensor>(t.label(), bra(b), ket(k),
                        aux(std::vector<Index>(t.aux().begin(), t.aux().end())), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
    });
  };
  const auto pe = plain(e), pf = plain(f);
  if (!(*pe == *pf) && pe->to_latex() == pf->to_latex()) c.fail("looks the same as " + show(pf) + ": " + u8(pe->to_latex()));
}
/// labels: every character is typeset, in order
void labels(Case& c) {
  auto& s = c.s;
  static const std::vector<std::pair<wchar_t, const wchar_t*>> marks = {{0x303, L"tilde"}, {0x301, L"acute"}, {0x300, L"grave"}, {0x30C, L"check"}, {0x302, L"hat"}};
  static const std::vector<std::pair<wchar_t, const wchar_t*>> greek = {{L'α', L"\\alpha"}, {L'β', L"\\beta"}, {L'κ', L"\\kappa"}, {L'ο', L"o"}, {L'π', L"\\pi"}, {L'σ', L"\\sigma"}, {L'ς', L"\\varsigma"}, {L'ω', L"\\omega"},
      {L'Α', L"A"}, {L'Γ', L"\\Gamma"}, {L'Κ', L"K"}, {L'Ρ', L"P"}, {L'Σ', L"\\Sigma"}, {L'Ω', L"\\Omega"}, {L'Λ', L"\\Lambda"}, {L'λ', L"\\lambda"}, {L'μ', L"\\mu"}, {L'Ψ', L"\\Psi"}};
  static const std::vector<std::pair<wchar_t, const wchar_t*>> ready = {{L'ã', L"\\tilde{a}"}, {L'ẽ', L"\\tilde{e}"}, {L'ñ', L"\\tilde{n}"}, {L'ũ', L"\\tilde{u}"}, {L'Ã', L"\\tilde{A}"}, {L'Ñ', L"\\tilde{N}"},
      {L'â', L"\\hat{a}"}, {L'ê', L"\\hat{e}"}, {L'î', L"\\hat{i}"}, {L'Ĥ', L"Ĥ"}, {L'Ê', L"\\hat{E}"}, {L'Ŝ', L"\\hat{S}"}, {L'Ô', L"\\hat{O}"}, {L'é', L"é"}, {L'⁺', L"⁺"}};
  std::wstring in, want;
  bool special = false;
  for (int n = s.range(1, 5); n--;) {
    std::wstring x;
    switch (s.range(0, 2)) {
      case 0: x = std::wstring(1, L"abfgtxAHT19"[s.below(11)]); in += x; break;
      case 1: { auto& g = s.pick(greek); in += g.first; x = g.second; special = true; break; }
      default: { auto& g = s.pick(ready); in += g.first; want += g.second; special = true; continue; }
    }
    if (s.chance(1, 3)) {
      auto& m = s.pick(marks);
      in += m.first;
      x = std::wstring(L"\\") + m.second + L"{" + x + L"}";
      special = true;
    }
    want += x;
  }
  c.note(u8(in));
  c.nontrivial = special && in.size() >= 2;
  const auto got = io::latex::utf_to_string(in);
  if (got != want) c.fail("'" + u8(in) + "' is typeset as '" + u8(got) + "' instead of '" + u8(want) + "'");
  const auto got16 = io::latex::utf_to_string(std::u16string(in.begin(), in.end()));
  if (std::wstring(got16.begin(), got16.end()) != want) c.fail("16-bit characters");
  const auto got32 = io::latex::utf_to_string(std::u32string(in.begin(), in.end()));
  if (std::wstring(got32.begin(), got32.end()) != want) c.fail("32-bit characters");
  if (!occurrences(ex<Variable>(in)->to_latex(), want)) c.fail("a variable is typeset as " + u8(ex<Variable>(in)->to_latex()));
  // the labels of normal-ordered operators are not for tensors
  const auto &fop = FNOperator::labels(), &bop = BNOperator::labels();
  if (std::find(fop.begin(), fop.end(), in) != fop.end() || std::find(bop.begin(), bop.end(), in) != bop.end()) return;
  auto w = world(c, true);
  const auto t = ex<Tensor>(in, bra{w.make(w.spaces[0])}, ket{w.make(w.spaces[0])});
  if (!occurrences(t->to_latex(), want)) c.fail("a tensor is typeset as " + u8(t->to_latex()));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C21";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"indices", "at least two open indices, and an expression of several terms or tensors", indices, 6000, 200000},
      {"pairs", "the two tensors have an index in common", pairs, 6000, 200000},
      {"symmetrizer", "several columns, or a sum", symmetrizer, 4000, 100000},
      {"transform", "at least two indices replaced", transform, 4000, 100000},
      {"replacing", "the target is part of a larger expression", replacing, 6000, 200000},
      {"differences", "expressions differ", differences, 5000, 150000},
      {"validity", "broken expression made", validity, 5000, 150000},
      {"blocks", "three or more tensors, two of them with the same block", blocks, 4000, 100000},
      {"subsets", "an index in several tensors of a subset stays", subsets, 6000, 200000},
      {"walks", "brackets in brackets", walks, 5000, 150000},
      {"typeset", "three or more atoms", typeset, 4000, 100000},
      {"labels", "two or more characters, some of them special", labels, 10000, 400000},
  };
  return pbt::run(p, argc, argv);
}
