// C09: integrating out spin. Spin-orbital tensors are made of spatial ones by
// spin conservation of their particles; whatever the tracing functions return
// must have the value of the explicit sum over spins.
#include "spintrace.hpp"

namespace {
// --- facets ------------------------------------------------------------------------
void f_spintrace(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world());
  g.plain_columns = s.chance(1, 3);
  const int k = s.weighted({2, 3, 3, 1});
  const bool A = k > 0 && s.chance(1, 4);
  g.externals(k, true, A);
  auto e = g.expr(k > 2 ? 1 : 3, k > 2 ? 3 : 4, A, true);
  c.note(g.text() + (A ? "; with A" : ""));
  c.note(num::show(e));
  c.nontrivial = g.antisymm;
  const bool free = !s.chance(1, 3);
  auto before = e->clone();
  ExprPtr r;
  if (s.coin()) r = k == 0 && s.coin() ? mb::spintrace(e, {}, free) : mb::spintrace(e, g.groups(), free);
  else r = mb::spintrace(e, g.slotted(), free);
  c.require(*before == *e, "argument changed");
  c.note((free ? "spin-free: " : "spin-resolved: ") + num::show(r));
  const Fp want = traced(e, g, Mode::Closed);
  Fp got;
  if (free) {
    Model m = g.w.model;
    set_weights(m, {});
    got = value(r, m);
  } else {
    // not only the sum but each block of the externals
    for (std::uint32_t b = 0; b < (1u << k); ++b) {
      auto m = spin_model(g.w.model, Mode::Open);
      set_weights(m, g.spins(b));
      const Fp x = value(r, m), y = value(e, m);
      c.require(x == y, "spin-resolved trace: wrong value for external spins " + std::to_string(b));
    }
    got = traced(r, g, Mode::Closed);
  }
  c.require(got == want, "spin trace has a wrong value");
  if (s.chance(1, 3)) {
    simplify(r);
    Model m = g.w.model;
    set_weights(m, {});
    c.require((free ? value(r, m) : traced(r, g, Mode::Closed)) == want, "simplified spin trace has a wrong value: " + num::show(r));
  }
  c.tag(free ? "spin-free" : "spin-resolved");
  if (A) c.tag("with antisymmetrizer");
  if (g.aux) c.tag("with auxiliary indices");
}

void f_closed(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world());
  const int k = s.weighted({2, 3, 4, 2});
  const bool A = k > 0 && s.chance(2, 3);
  g.externals(k, A || s.coin(), A);
  auto e = g.expr(k > 2 ? 2 : 3, k > 2 ? 4 : 5, A, true);
  c.note(g.text() + (A ? "; with A" : ""));
  c.note(num::show(e));
  c.nontrivial = g.antisymm && (k > 0 || g.dummies);
  const bool full = s.coin();
  auto before = e->clone();
  ExprPtr r;
  if (s.coin()) r = k == 0 && s.coin() ? mb::closed_shell_spintrace(e, {}, full) : mb::closed_shell_spintrace(e, g.groups(), full);
  else r = mb::closed_shell_spintrace(e, g.slotted(), full);
  c.require(*before == *e, "argument changed");
  c.note(std::string(full ? "full" : "partial") + " expansion: " + num::show(r));
  const Fp want = traced(e, g, Mode::Closed);
  Model m = g.w.model;
  set_weights(m, {});
  c.require(value(r, m) == want, "closed-shell spin trace has a wrong value");
  if (!full && A && k > 1) {
    auto x = mb::S_maps(r);
    bool left = false;
    x->visit([&](ExprPtr& y) { left |= is_projector(y); }, false);
    c.require(!left, "symmetrizer left");
    c.require(value(x, m) == want, "expanded symmetrizer: wrong value of " + num::show(x));
    c.tag("symmetrizer expanded");
  }
  c.tag(full ? "full expansion" : "partial expansion");
  if (A) c.tag("with antisymmetrizer");
  if (g.aux) c.tag("with auxiliary indices");
}

void f_result(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world(false));
  const int k = 1 + s.weighted({1, 4, 2});
  const bool mixed = s.chance(3, 4);
  g.externals(k, !mixed, true);
  auto tens = [&](const std::vector<Index>& b, const std::vector<Index>& kt, Symmetry sy) {
    return Tensor(L"R", sequant::bra(b), sequant::ket(kt), sequant::aux{}, sy, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm);
  };
  // an antisymmetric right-hand side: A, or one tensor
  ExprPtr e;
  if (!mixed && (s.coin() || k == 1)) e = g.expr(2, k > 2 ? k : k + 1, true, false);
  else if (k == 1) e = g.expr(2, 2, false, false);
  else e = ex<Tensor>(L"h", sequant::bra(g.bra), sequant::ket(g.ket), sequant::aux{}, Symmetry::Antisymm, BraKetSymmetry::Nonsymm);
  Symmetry sy = k == 1 ? Symmetry::Nonsymm : Symmetry::Antisymm;
  auto b = g.bra, kt = g.ket;
  if (!e->is<Product>() && !e->is<Sum>()) {
    if (s.coin()) s.shuffle(b);
    if (s.coin()) s.shuffle(kt);
  }
  ResultExpr res(tens(b, kt, sy), e);
  const int how = s.below(3);
  c.note(g.w.name + "; " + num::show(ex<Tensor>(res.result_as_tensor())) + " = " + num::show(e));
  std::vector<ResultExpr> out;
  auto before = res.clone();
  for (auto& x : how == 0 ? mb::spintrace(res, true) : how == 1 ? mb::closed_shell_spintrace(res, false) : mb::closed_shell_spintrace(res, true)) out.push_back(x);
  c.require(before == res, "argument changed");
  c.nontrivial = k > 1;
  // pairings of spaces, as multisets, that different columns can have
  using Pairing = std::multiset<std::pair<std::wstring, std::wstring>>;
  auto pairing = [](const auto& bb, const auto& kk) {
    Pairing r;
    for (std::size_t i = 0; i < bb.size(); ++i) r.emplace(std::wstring(bb[i].space().base_key()), std::wstring(kk[i].space().base_key()));
    return r;
  };
  std::set<Pairing> all, got;
  {
    std::vector<int> p(k);
    std::iota(p.begin(), p.end(), 0);
    do {
      std::vector<Index> x;
      for (int i : p) x.push_back(b[i]);
      all.insert(pairing(x, kt));
    } while (std::next_permutation(p.begin(), p.end()));
  }
  for (auto& x : out) {
    std::vector<Index> bb(x.bra().begin(), x.bra().end()), kk(x.ket().begin(), x.ket().end());
    c.note("gives " + num::show(ex<Tensor>(x.result_as_tensor())) + " = " + num::show(x.expression()));
    c.require(bb.size() == b.size() && kk.size() == kt.size(), "rank changed");
    c.require(std::is_permutation(bb.begin(), bb.end(), b.begin()) && std::is_permutation(kk.begin(), kk.end(), kt.begin()), "other externals");
    c.require(x.symmetry() == Symmetry::Nonsymm, "symmetry of a traced result");
    c.require(x.has_label() && x.label() == L"R", "label lost");
    c.require(got.insert(pairing(bb, kk)).second, "pairing of spaces occurs twice");
    auto sgn = [](const std::vector<Index>& a, const std::vector<Index>& b) {
      std::vector<int> p;
      for (auto& i : a) p.push_back((int)(std::find(b.begin(), b.end(), i) - b.begin()));
      return sign_of(p);
    };
    const int sign = sgn(bb, b) * sgn(kk, kt);
    g.pairs.clear();
    for (int i = 0; i < k; ++i) g.pairs.emplace_back(bb[i], kk[i]);
    const Fp want = traced(e, g, Mode::Closed);
    Model m = g.w.model;
    set_weights(m, {});
    c.require(value(x.expression(), m) == (sign > 0 ? want : -want), "wrong value of a traced result");
  }
  c.require(got == all, std::to_string(got.size()) + " of " + std::to_string(all.size()) + " different pairings");
  if (all.size() > 1) c.tag("several pairings");
  c.tag(how == 0 ? "spintrace" : how == 1 ? "closed shell, partial expansion" : "closed shell, full expansion");
}

void f_open(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world());
  const int k = s.weighted({1, 3, 4, 2});
  const bool A = k > 0 && s.chance(1, 2);
  g.externals(k, A || s.coin(), A);
  auto e = g.expr(k > 2 ? 1 : 2, k > 2 ? 3 : 4, A, true);
  const int how = A && k > 0 ? s.below(2) : 0;
  c.note(g.text() + (A ? "; with A" : "") + (how ? "; partial expansion" : ""));
  c.note(num::show(e));
  c.nontrivial = g.antisymm || A;
  auto before = e->clone();
  std::optional<int> target;
  std::vector<ExprPtr> r;
  if (how == 0) {
    if (s.chance(1, 3)) target = (int)s.below(k + 1);
    r = s.coin() ? mb::open_shell_spintrace(e, g.groups(), target) : mb::open_shell_spintrace(e, g.slotted(), target);
  } else {
    if (!e->is<Product>() && !e->is<Sum>()) throw pbt::Discard{};
    r = mb::open_shell_CC_spintrace(e);
  }
  c.require(*before == *e, "argument changed to " + num::show(e) + " from " + num::show(before));
  if (e->is<Constant>() || e->is<Variable>()) throw pbt::Discard{};
  c.require(r.size() == (target ? 1u : k + 1u), std::to_string(r.size()) + " spin cases");
  for (std::size_t i = 0; i < r.size(); ++i) {
    const int nb = target ? *target : (int)i;  // the last nb groups have spin β
    std::uint32_t bits = 0;
    for (int j = k - nb; j < k; ++j) bits |= 1u << j;
    auto m = spin_model(g.w.model, Mode::Open);
    set_weights(m, g.spins(bits));
    const Fp want = value(e, m);
    Fp got;
    if (how == 0) got = value(r[i], m);
    else {
      // antisymmetrizers over externals of the same spin are left out
      auto project = [&](const std::vector<Index>& ix, auto&& f) {
        std::vector<int> p(ix.size());
        std::iota(p.begin(), p.end(), 0);
        do {
          gen::IndexMap mp;
          for (std::size_t j = 0; j < p.size(); ++j) mp[ix[j]] = ix[p[j]];
          f(sign_of(p), fact(p.size()), mp);
        } while (std::next_permutation(p.begin(), p.end()));
      };
      std::vector<Index> q[4];
      // with more than two particles canonicalization names externals, β ones anew
      std::map<std::wstring, std::wstring> alias;
      auto add = [&](std::vector<Index>& v, const Index& i, int j, bool beta) {
        auto x = beta ? mb::make_spinbeta(i) : mb::make_spinalpha(i);
        if (beta && k > 2 && nb < k) {
          const Index y(x.space(), 1 + j - (k - nb));
          alias[std::wstring(y.full_label())] = std::wstring(x.full_label());
          x = y;
        }
        v.push_back(x);
      };
      for (int j = 0; j < k; ++j) {
        const bool beta = j >= k - nb;
        add(q[beta], g.bra[j], j, beta);
        add(q[2 + beta], g.ket[j], j, beta);
      }
      set_weights(m, g.spins(bits), false, alias);
      std::vector<std::pair<rational, ExprPtr>> terms{{rational(1), r[i]}};
      for (auto& ix : q) {
        if (ix.size() < 2) continue;
        std::vector<std::pair<rational, ExprPtr>> n;
        project(ix, [&](int sg, long f, const gen::IndexMap& mp) { for (auto& [cc, x] : terms) n.emplace_back(cc * rational(sg, f), gen::map_expr(x, mp)); });
        terms = std::move(n);
      }
      for (auto& [cc, x] : terms) got += m.constant(Constant(cc)) * value(x, m);
    }
    c.require(got == want, "wrong value of spin case " + std::to_string(nb) + ": " + num::show(r[i]));
  }
  c.tag(how ? "partial expansion" : target ? "one spin case" : "all spin cases");
  if (A) c.tag("with antisymmetrizer");
  if (g.aux) c.tag("with auxiliary indices");
}

void f_projectors(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world());
  const int k = 1 + s.weighted({1, 4, 3, 1});
  g.externals(k, s.chance(2, 3));
  int what = s.below(4);  // A, A symmetrized, S, P
  if (what == 2 && k < 2) what = 0;
  const int n = 1 + (int)s.below(2);
  std::vector<ExprPtr> terms;
  bool unequal = false;
  for (int i = 0; i < n; ++i) {
    auto x = g.term(k + 1, true);
    std::vector<ExprPtr> ops;
    if (what < 2) {
      auto b = g.ket, kt = g.bra;
      if (s.chance(1, 3)) s.shuffle(b);
      if (s.chance(1, 3)) s.shuffle(kt);
      // particle non-conserving
      if (k > 2 && s.chance(1, 5)) { (s.coin() ? b : kt).pop_back(); unequal = true; }
      ops.push_back(ex<Tensor>(std::wstring(reserved::antisymm_label()), sequant::bra(b), sequant::ket(kt), sequant::aux{}, Symmetry::Antisymm));
    } else if (what == 2) {
      auto b = g.ket, kt = g.bra;
      if (s.chance(1, 3)) s.shuffle(b);
      ops.push_back(ex<Tensor>(std::wstring(reserved::symm_label()), sequant::bra(b), sequant::ket(kt), sequant::aux{}, Symmetry::Nonsymm));
    } else {
      // disjoint transpositions
      auto b = g.ket, kt = g.bra;
      s.shuffle(b), s.shuffle(kt);
      b.resize(b.size() / 2 * 2), kt.resize(kt.size() / 2 * 2);
      if (b.size() > 2 && s.coin()) b.resize(2);
      const int split = s.below(3);
      if (split == 0) kt.clear();
      auto P = [](std::vector<Index> b, std::vector<Index> k) { return ex<Tensor>(std::wstring(reserved::transposition_label()), sequant::bra(b), sequant::ket(k), sequant::aux{}, Symmetry::Symm); };
      if (b.empty() && kt.empty()) throw pbt::Discard{};
      if (split == 2 && !b.empty() && !kt.empty()) ops.push_back(P(b, {})), ops.push_back(P({}, kt)), c.tag("two transpositions");
      else ops.push_back(P(b, kt));
    }
    Constant::scalar_type cf{1};
    std::vector<ExprPtr> f;
    if (x->is<Product>()) { cf = x->as<Product>().scalar(); for (auto& y : x->as<Product>().factors()) f.push_back(y); }
    else f.push_back(x);
    f.insert(f.begin(), ops.begin(), ops.end());
    terms.push_back(ex<Product>(cf, f.begin(), f.end()));
  }
  auto e = terms.size() == 1 ? terms[0] : ex<Sum>(terms.begin(), terms.end());
  if (s.chance(1, 8)) e = e + (s.coin() ? ex<Variable>(L"E") : ex<Constant>(2)), g.pairs.clear();
  c.note(g.w.name + " " + num::show(e));
  c.nontrivial = k > 1;
  Model m = g.w.model;
  set_weights(m, {});
  const Fp want = value(e, m);
  auto before = e->clone();
  ExprPtr r;
  static const char* names[] = {"expand_A_op", "symmetrize_expr", "S_maps", "expand_P_op"};
  switch (what) {
    case 0: r = mb::expand_A_op(e); break;
    case 1: r = mb::symmetrize_expr(e); break;
    case 2: r = mb::S_maps(e); break;
    default: r = mb::expand_P_op(e); break;
  }
  c.note(std::string(names[what]) + " gives " + num::show(r));
  c.require(*before == *e, "argument changed");
  bool left = false;
  auto look = [&](const ExprPtr& y, auto& self) -> void {
    if (is_projector(y) && (what != 1 || y->as<Tensor>().label() != reserved::symm_label())) left = true;
    if (y->is<Product>()) for (auto& z : y->as<Product>().factors()) self(z, self);
    if (y->is<Sum>()) for (auto& z : y->as<Sum>().summands()) self(z, self);
  };
  look(r, look);
  c.require(!left, "projector left");
  c.require(value(r, m) == want, "wrong value");
  c.tag(names[what]);
  if (unequal) c.tag("particle non-conserving");
}

void f_antisymm(Case& c) {
  auto& s = c.s;
  SpinGen g(s, world());
  g.plain_columns = true;
  g.externals(s.below(3), false);
  auto e = g.expr(3, 4, false, true);
  // random spin of every index
  container::map<Index, Index> spin;
  for (auto& i : num::all_indices(e)) {
    if (!(i.space().qns().to_int32() & 3)) continue;
    const int x = s.below(5);
    spin.emplace(i, x < 2 ? mb::make_spinalpha(i) : x < 4 ? mb::make_spinbeta(i) : i);
  }
  const bool mixed = std::any_of(spin.begin(), spin.end(), [](auto& p) { return p.first == p.second; });
  auto before = e->clone();
  auto sp = mb::append_spin(e, spin);
  c.require(*before == *e, "append_spin changed its argument");
  c.note(g.w.name + " " + num::show(sp));
  c.nontrivial = g.antisymm;
  // append_spin is a renaming
  {
    gen::IndexMap mp;
    for (auto& [a, b] : spin) mp[a] = b;
    auto ref = gen::map_expr(e, mp);
    c.require(num::show(ref) == num::show(sp) || *ref == *sp, "append_spin gives other than " + num::show(ref));
    // and remove_spin takes it back
    auto back = mb::remove_spin(sp);
    c.require(*back == *e, "remove_spin gives " + num::show(back));
    auto same = [&](const ExprPtr& x, const ExprPtr& y, auto& self) -> void {
      if (x->is<Tensor>()) {
        auto &p = x->as<Tensor>(), &q = y->as<Tensor>();
        c.require(p.symmetry() == q.symmetry() && p.braket_symmetry() == q.braket_symmetry() && p.column_symmetry() == q.column_symmetry(), "remove_spin changes symmetries of " + num::show(x));
      }
      for (std::size_t i = 0; i < x->size(); ++i) self(x->at(i), y->at(i), self);
    };
    same(back, e, same);
  }
  Spins none;
  auto plain = [&](Twist t = {}) { auto m = spin_model(g.w.model, Mode::Open, t); set_weights(m, none, t.flip); return m; };
  const Fp v = value(sp, plain());
  if (!mixed) {
    c.tag("expand_antisymm");
    for (bool skip : {false, true}) {
      auto r = mb::expand_antisymm(sp, skip);
      c.require(value(r, plain()) == v, std::string("expand_antisymm") + (skip ? ", uniform ones skipped" : "") + ": wrong value of " + num::show(r));
      auto look = [&](const ExprPtr& y, auto& self) -> void {
        if (y->is<Tensor>() && y->as<Tensor>().symmetry() == Symmetry::Antisymm) {
          bool a = false, b = false;
          for (auto& i : y->as<Tensor>().const_braket_indices()) (mb::to_spin(i.space().qns()) == mb::Spin::alpha ? a : b) = true;
          c.require(skip && !(a && b), "antisymmetric tensor left: " + num::show(y));
        }
        if (y->is<Product>()) for (auto& z : y->as<Product>().factors()) self(z, self);
        if (y->is<Sum>()) for (auto& z : y->as<Sum>().summands()) self(z, self);
      };
      look(r, look);
    }
    auto fl = mb::swap_spin(sp);
    c.require(value(fl, plain({true, false})) == v, "swap_spin: wrong value of " + num::show(fl));
    c.require(*mb::swap_spin(fl) == *sp, "swap_spin is not its own inverse");
  }
  auto sw = mb::swap_bra_ket(sp);
  c.require(value(sw, plain({false, true})) == v, "swap_bra_ket: wrong value of " + num::show(sw));
  c.require(*mb::swap_bra_ket(sw) == *sp, "swap_bra_ket is not its own inverse");
  // predicates
  auto look = [&](const ExprPtr& y, auto& self) -> void {
    if (y->is<Tensor>()) {
      auto& t = y->as<Tensor>();
      bool conserving = true, uniform = true, all = true;
      std::set<mb::Spin> seen;
      int ab = 0, ak = 0;
      for (std::size_t i = 0; i < t.bra_rank(); ++i) {
        const auto p = mb::to_spin(t.bra()[i].space().qns()), q = mb::to_spin(t.ket()[i].space().qns());
        conserving &= p == q;
        seen.insert(p), seen.insert(q);
        ab += p == mb::Spin::alpha, ak += q == mb::Spin::alpha;
      }
      uniform = seen.size() == 1;
      all = !seen.count(mb::Spin::any);
      c.require(mb::ms_conserving_columns(t) == conserving, "ms_conserving_columns of " + num::show(y));
      c.require(mb::ms_uniform_tensor(t) == uniform, "ms_uniform_tensor of " + num::show(y));
      if (all) c.require(mb::can_expand(t) == (ab == ak), "can_expand of " + num::show(y));
    }
    if (y->is<Product>()) for (auto& z : y->as<Product>().factors()) self(z, self);
    if (y->is<Sum>()) for (auto& z : y->as<Sum>().summands()) self(z, self);
  };
  look(sp, look);
  // single indices
  for (auto& [i, j] : spin) {
    const auto a = mb::make_spinalpha(i), b = mb::make_spinbeta(i), f = mb::make_spinfree(j);
    c.require(f == i, "make_spinfree of " + num::show(j));
    c.require(mb::make_spinalpha(j) == a && mb::make_spinbeta(j) == b, "spin of " + num::show(j));
    c.require(mb::to_spin(a.space().qns()) == mb::Spin::alpha && mb::to_spin(b.space().qns()) == mb::Spin::beta, "spin quantum number");
    c.require(a.space().type() == i.space().type() && a.ordinal() == i.ordinal() && b.ordinal() == i.ordinal(), "space or ordinal changed");
    const auto* reg = g.w.isr->retrieve_ptr(a.space().base_key());
    c.require(reg && *reg == a.space(), "space " + gen::u8(std::wstring(a.space().base_key())) + " is not the registered one");
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C09";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"spintrace", "random sums of particle-conserving tensor networks with 0-3 pairs of externals; non-trivial: an antisymmetric tensor of rank >= 2", f_spintrace, 2500, 40000},
      {"closed", "as above, mostly with an antisymmetrizer; non-trivial: antisymmetric tensors and something to sum over", f_closed, 1500, 30000},
      {"result", "tensor-valued results with externals of several spaces; non-trivial: more than one particle", f_result, 1500, 20000},
      {"open", "spin cases of random sums with 0-3 pairs of externals; non-trivial: antisymmetrizer or antisymmetric tensor", f_open, 1500, 20000},
      {"projectors", "random terms with (anti)symmetrizers and transpositions of up to 4 externals; non-trivial: more than one particle", f_projectors, 2000, 30000},
      {"edits", "random spin assignments to random sums; non-trivial: an antisymmetric tensor", f_antisymm, 2500, 40000},
  };
  return pbt::run(p, argc, argv);
}
