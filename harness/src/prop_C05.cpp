// Wick's theorem against the Fock space it abbreviates.
#include <SeQuant/core/runtime.hpp>

#include "wickgen.hpp"

namespace {
// ---------------------------------------------------------------------------
template <Statistics S>
void sequence(Case& c, bool full, bool allow_spinfree) {
  auto st = make_setting(c, allow_spinfree);
  const bool connect = !st.spinfree && c.s.chance(1, 2);
  auto v = random_nops(c, st, st.spinfree ? 8 : full ? 10 : 8, !full);
  if (v.empty() || v.size() > 5) throw pbt::Discard{};
  Connect k;
  if (connect) k = random_connect(c.s, v.size());
  const bool topo = full && c.s.coin();
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi") + (st.spinfree ? " spin-free" : "") + (full ? " full " : " all ") + (topo ? "topology " : "") + k.str());
  c.note(u8(::show(v)));
  c.tag(st.vac == Vacuum::Physical ? "physical vacuum" : "fermi vacuum");
  if (st.spinfree) c.tag("spin-free");
  if (!k.need.empty()) c.tag("connections");
  if (!k.avoid.empty()) c.tag("avoided connections");
  guard([&] {
    auto o = st.eval;
    o.vacuum_expectation = full;
    o.externals = indices_of(v);
    install_contractions(st.w);
    auto seq = make_seq<S>(v, st.vac);
    WickTheorem<S> wick(seq);
    wick.full_contractions(full).use_topology(topo);
    if (!k.need.empty()) wick.set_nop_connections(k.need);
    if (!k.avoid.empty()) wick.set_nop_avoided_connections(k.avoid);
    num::F expected;
    ExprPtr result;
    if (k.need.empty() && k.avoid.empty()) {
      container::svector<ExprPtr> f;
      for (auto& n : v) f.push_back(nop_expr<S>(n, st.vac));
      ExprPtr product(std::make_shared<Product>(1, f.begin(), f.end(), Product::Flatten::No));
      expected = num::eval(product, st.w.model, o);
      result = wick.compute();
    } else {
      auto ops = flat(v);
      std::vector<Matching> ms;
      matchings(st, ops, full, ms);
      long nmatch = 0;
      for (auto& m : ms)
        if (k.ok(ops, m)) {
          expected += num::eval(contraction_expr<S>(st, ops, m, {}, 1), st.w.model, o);
          ++nmatch;
        }
      result = wick.compute();
    }
    compare(c, full ? "vacuum expectation value" : "normal-ordered form", expected, num::eval(result, st.w.model, o), result);
  });
}

// number of terms
void count(Case& c) {
  auto st = make_setting(c, false);
  const bool full = c.s.coin();
  auto v = random_nops(c, st, full ? 10 : 8, !full);
  if (v.empty() || v.size() > 5) throw pbt::Discard{};
  Connect k;
  if (c.s.coin()) k = random_connect(c.s, v.size());
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi") + (full ? " full " : " all ") + k.str());
  c.note(u8(::show(v)));
  auto ops = flat(v);
  std::vector<Matching> ms;
  matchings(st, ops, full, ms);
  long n = 0;
  for (auto& m : ms) n += k.ok(ops, m);
  WickTheorem<Statistics::FermiDirac> wick(make_seq<Statistics::FermiDirac>(v, st.vac));
  wick.full_contractions(full).use_topology(false);
  if (!k.need.empty()) wick.set_nop_connections(k.need);
  if (!k.avoid.empty()) wick.set_nop_avoided_connections(k.avoid);
  auto r = wick.compute(true);
  c.nontrivial = n > 1;
  if (!r->is<Constant>() || r->as<Constant>().value() != Constant::scalar_type(n))
    c.fail("number of terms: expected " + std::to_string(n) + ", got " + num::show(r));
}

// ---- tensors times operators, summed over common indices ------------------
// contraction-first operators whose indices are dealt to tensors
OpProduct dealt_product(Case& c, Setting& st, int max_ops) {
  auto& s = c.s;
  OpProduct r;
  r.scalar = random_scalar(s, false);
  r.nops = random_nops(c, st, max_ops, false);
  std::map<Index, int, Index::FullLabelCompare> n;
  for (auto& v : r.nops) {
    for (auto& i : v.cre) ++n[i];
    for (auto& i : v.ann) ++n[i];
  }
  std::vector<Index> b, k;
  for (auto& v : r.nops) {
    const bool keep = s.chance(1, 6);
    for (auto& i : v.cre) if (n[i] == 1 && !keep) b.push_back(i);
    for (auto& i : v.ann) if (n[i] == 1 && !keep) k.push_back(i);
  }
  // an occasional index joining two tensors
  s.shuffle(b);
  s.shuffle(k);
  std::vector<std::pair<std::vector<Index>, std::vector<Index>>> ts;
  while (!b.empty() || !k.empty()) {
    const int rank = 1 + (int)s.below(2);
    ts.emplace_back();
    for (int q = 0; q < rank; ++q) {
      if (!b.empty()) { ts.back().first.push_back(b.back()); b.pop_back(); }
      if (!k.empty()) { ts.back().second.push_back(k.back()); k.pop_back(); }
    }
  }
  if (ts.size() > 1 && s.chance(1, 3)) {
    auto i = st.w.make(common(s, st.w.spaces));
    ts[0].first.push_back(i);
    ts[1].second.push_back(i);
  }
  for (auto& [x, y] : ts) {
    auto a = block_attr(s);
    if (x.size() != y.size()) a.b = BraKetSymmetry::Nonsymm;
    container::svector<Index> bb(x.begin(), x.end()), kk(y.begin(), y.end());
    r.tensors.push_back(ex<Tensor>(std::wstring(s.pick({L"t", L"g"})) + std::to_wstring((int)a.s) + std::to_wstring((int)a.b) + std::to_wstring((int)a.c), bra(bb), ket(kk), a.s, a.b, a.c));
  }
  std::vector<ExprPtr> ops;
  for (auto& v : r.nops) ops.push_back(nop_expr<Statistics::FermiDirac>(v, st.vac));
  r.factors = r.tensors;
  r.factors.insert(r.factors.end(), ops.begin(), ops.end());
  r.ext = externals_of(r.factors);
  for (auto& [i, q] : n) if (q > 1) r.ext.insert(i);
  return r;
}

void expression(Case& c) {
  auto st = make_setting(c, true);
  const bool full = c.s.chance(3, 4);
  const bool topo = full && c.s.chance(2, 3);
  const bool skip = c.s.chance(1, 4);
  const bool sum = c.s.chance(1, 5);
  const bool connect = !sum && !st.spinfree && c.s.chance(1, 3);
  std::vector<Block> blocks;
  std::vector<OpProduct> terms;
  num::IndexSet none;
  if (sum) {
    const int n = 2 + (int)c.s.below(2);
    for (int k = 0; k < n; ++k) {
      auto mark = st.w.next;
      terms.push_back(block_product(c, st, blocks, 6, &none));
      if (c.s.coin()) st.w.next = mark;
    }
  } else if (c.s.chance(1, 3))
    terms.push_back(dealt_product(c, st, 8));
  else
    terms.push_back(block_product(c, st, blocks, full ? 10 : 8, nullptr));
  ExprPtr e;
  if (terms.size() == 1) e = terms[0].expr();
  else {
    container::svector<ExprPtr> v;
    for (auto& t : terms) v.push_back(t.expr());
    e = ex<Sum>(v.begin(), v.end());
  }
  Connect k;
  if (connect) k = random_connect(c.s, terms[0].nops.size());
  bool give_ext = c.s.coin() || terms.size() == 1;
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi") + (st.spinfree ? " spin-free" : "") + (full ? " full " : " all ") +
         (topo ? "topology " : "") + (skip ? "skip " : "") + k.str());
  c.note(num::show(e));
  c.tag(st.vac == Vacuum::Physical ? "physical vacuum" : "fermi vacuum");
  if (st.spinfree) c.tag("spin-free");
  if (topo) c.tag("topology");
  if (sum) c.tag("sum");
  guard([&] {
    auto o = st.eval;
    o.vacuum_expectation = full;
    o.externals = terms[0].ext;
    install_contractions(st.w);
    num::F expected;
    if (k.need.empty() && k.avoid.empty())
      expected = num::eval(e, st.w.model, o);
    else {
      auto ops = flat(terms[0].nops);
      std::vector<Matching> ms;
      matchings(st, ops, full, ms);
      if (ms.size() > 300) throw pbt::Discard{};
      for (auto& m : ms)
        if (k.ok(ops, m)) expected += num::eval(contraction_expr<Statistics::FermiDirac>(st, ops, m, terms[0].tensors, terms[0].scalar), st.w.model, o);
    }
    ExprPtr input = e->clone();
    FWickTheorem wick(input);
    wick.full_contractions(full).use_topology(topo);
    if (give_ext) {
      container::svector<Index> x(terms[0].ext.begin(), terms[0].ext.end());
      wick.set_external_indices(x);
    }
    if (!k.need.empty()) wick.set_nop_connections(k.need);
    if (!k.avoid.empty()) wick.set_nop_avoided_connections(k.avoid);
    auto r = wick.compute(false, skip);
    compare(c, "Wick expansion of an expression", expected, num::eval(r, st.w.model, o), r);
    auto r2 = r->clone();
    CanonicalizeOptions opt = CanonicalizeOptions::default_options();
    container::set<Index> named;
    for (auto& i : terms[0].ext) named.insert(i);
    if (!terms[0].ext.empty()) opt = opt.copy_and_set(std::optional<container::set<Index>>(named));
    if (full) {
      simplify(r2, SimplifyOptions(opt));
      compare(c, "simplified Wick expansion", expected, num::eval(r2, st.w.model, o), r2);
    }
  });
}

// ---- bosons ----------------------------------------------------------------
void bosons(Case& c) {
  Setting st;
  WorldOptions wo;
  wo.aux = false;
  wo.kinds = {0};
  wo.spin = 0;
  wo.vacuum = Vacuum::Physical;
  wo.max_extent = 2;
  st.w = make_world(c.s, wo);
  st.bose = true;
  st.vac = Vacuum::Physical;
  for (auto& [k, n] : st.w.model.extent) st.w.model.bose_universes.insert(k.first);
  st.eval.operators = true;
  st.eval.physical_vacuum = true;
  st.eval.max_work = 3e6;
  st.eval.state_seed = 1 + c.s.below(1000);
  st.w.model.occ_bits = 0;
  const bool full = c.s.coin();
  auto v = random_nops(c, st, full ? 8 : 6, !full);
  if (v.empty() || v.size() > 5) throw pbt::Discard{};
  Connect k;
  if (c.s.chance(1, 3)) k = random_connect(c.s, v.size());
  c.note(st.w.name + (full ? " full " : " all ") + k.str());
  c.note(u8(::show(v)));
  constexpr auto S = Statistics::BoseEinstein;
  guard([&] {
    auto o = st.eval;
    o.vacuum_expectation = full;
    o.externals = indices_of(v);
    install_contractions(st.w);
    num::F expected;
    if (k.need.empty() && k.avoid.empty()) {
      container::svector<ExprPtr> f;
      for (auto& n : v) f.push_back(nop_expr<S>(n, st.vac));
      expected = num::eval(ExprPtr(std::make_shared<Product>(1, f.begin(), f.end(), Product::Flatten::No)), st.w.model, o);
    } else {
      auto ops = flat(v);
      std::vector<Matching> ms;
      matchings(st, ops, full, ms);
      for (auto& m : ms)
        if (k.ok(ops, m)) expected += num::eval(contraction_expr<S>(st, ops, m, {}, 1), st.w.model, o);
    }
    BWickTheorem wick(make_seq<S>(v, st.vac));
    wick.full_contractions(full).use_topology(false);
    if (!k.need.empty()) wick.set_nop_connections(k.need);
    if (!k.avoid.empty()) wick.set_nop_avoided_connections(k.avoid);
    auto r = wick.compute();
    compare(c, "bosonic Wick expansion", expected, num::eval(r, st.w.model, o), r);
  });
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C05";
  p.facets = {
      {"full", "2-5 random normal operators (<=12 elementary), physical/Fermi vacuum, spin-orbital/spin-free, required/avoided connections; full contractions against the vacuum expectation value in Fock space or enumerated contractions; non-trivial: nonzero value", [](Case& c) { sequence<Statistics::FermiDirac>(c, true, true); }, 20000, 600000},
      {"all", "as `full`, all (partial) contractions against the operator product itself acting on Fock states", [](Case& c) { sequence<Statistics::FermiDirac>(c, false, true); }, 8000, 200000},
      {"expression", "products/sums of tensors and normal operators joined by dummies, with and without use of topology", expression, 20000, 600000},
      {"bosons", "bosonic operators", bosons, 10000, 300000},
      {"count", "number of terms against enumeration", count, 10000, 300000},
  };
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
