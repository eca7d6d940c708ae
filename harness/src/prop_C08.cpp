// C08: the equations of coupled-cluster models are those of their definitions.
#include "mb.hpp"

#include <SeQuant/domain/mbpt/models/cc.hpp>

namespace {
using namespace sequant;
using namespace sequant::mbpt;
using mb::World;
using pbt::Case;
using pbt::Src;
using Fp = num::F;
using fock::Vec;
using Op = std::function<Vec(const Vec&)>;

Fp ratio(int s, int k) {
  Fp r = Fp::of(s);
  for (int j = 2; j <= k; ++j) r = r * Fp::of(j).inv();
  return r;
}
bool none(const Vec& v) {
  for (auto& x : v) if (!x.zero()) return false;
  return true;
}

struct Model {
  World W;
  fock::Space& f;
  int N;
  CC::Options o;
  std::vector<Index> ext;   // external indices, weighted
  std::string text;
  Model(Src& s, const mb::WorldOptions& wo, int maxN, int unitary_weight, bool allow_oo) : W(mb::make_world(s, wo)), f(*W.f) {
    // highest excitations there are orbitals for
    N = 1 + (int)s.below(maxN);
    const int u = unitary_weight, n = u < 0 ? 0 : 1;  // < 0: unitary only
    const int a = s.weighted({4 * n, allow_oo ? n : 0, u ? 4 : 0, u && allow_oo ? 1 : 0});
    o.ansatz = CC::Ansatz(a);
    const bool oo = a == 1 || a == 3;
    if (oo && N < 2) N = 2;
    if (oo ? s.coin() : N > 1 && s.chance(1, 4)) o.skip_singles = true;
    else if (!oo && s.chance(1, 4)) o.skip_singles = false;
    o.screen = N > 2 || !s.chance(1, N > 1 ? 14 : 3);
    o.use_topology = !s.chance(1, 4);
    if (unitary()) {
      o.hbar_comm_rank = s.below(N > 1 ? 2 : 3);
      if (N == 1 || s.chance(1, 8)) *o.hbar_comm_rank += 1;
      o.pertbar_comm_rank = s.below(3);
    } else {
      if (s.chance(1, 3)) o.hbar_comm_rank = 1 + s.below(4);
      if (s.chance(1, 3)) o.pertbar_comm_rank = s.below(3);
    }
    text = W.w.name + (W.spinfree ? " spin-free " : " ") + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt) + " N=" + std::to_string(N) + " ansatz " + std::to_string(a) + (skip() ? " skip" : "") +
           (o.screen ? "" : " unscreened") + (o.use_topology ? "" : " no-topology") + (o.hbar_comm_rank ? " hbar " + std::to_string(*o.hbar_comm_rank) : "") + (o.pertbar_comm_rank ? " pertbar " + std::to_string(*o.pertbar_comm_rank) : "");
  }
  bool unitary() const { return o.ansatz == CC::Ansatz::U || o.ansatz == CC::Ansatz::oU; }
  bool skip() const { return o.skip_singles.value_or(o.ansatz == CC::Ansatz::oT || o.ansatz == CC::Ansatz::oU); }
  Op op(const ExprPtr& x) {
    return [this, x](const Vec& v) { return f.act(x, v); };
  }
  // operators that differ by an external index value are rebuilt at each
  Op sigma() {
    auto t = T(N, skip());
    if (!unitary()) return op(t);
    auto td = adjoint(t);
    return [this, t, td](const Vec& v) { return fock::add(f.act(t, v), f.act(td, v), Fp::of(-1)); };
  }
  /// e^-S A e^S, or its expansion in commutators to `order`
  Op bar(Op A, Op S, std::optional<std::size_t> order) {
    return [=, this](const Vec& v) {
      Vec out(f.dim());
      std::vector<Vec> pw{v};
      const int top = order ? (int)*order : 2 * (int)f.modes.size();
      while ((int)pw.size() <= top && !none(pw.back())) pw.push_back(S(pw.back()));
      for (int j = 0; j < (int)pw.size(); ++j) {
        auto x = A(pw[j]);
        for (int i = 0; order ? i + j <= top : !none(x); ++i) {
          out = fock::add(out, x, ratio(i & 1 ? -1 : 1, i) * ratio(1, j));
          if (none(x)) break;
          x = S(x);
        }
      }
      return out;
    };
  }
  Op commute(Op a, Op b) {
    return [=](const Vec& v) { return fock::add(a(b(v)), b(a(v)), Fp::of(-1)); };
  }
  Op plus(Op a, Op b) {
    return [=](const Vec& v) { return fock::add(a(v), b(v)); };
  }
  Op times(Op a, Op b) {
    return [=](const Vec& v) { return a(b(v)); };
  }
  Fp vev(Op a) { return a(f.ket(f.vacuum()))[f.vacuum()]; }
  /// value of an equation, with weighted externals
  Fp of(const ExprPtr& e) {
    if (!e) return Fp();
    num::EvalOptions eo;
    eo.externals = num::IndexSet{};
    for (auto& i : ext) eo.externals->insert(i);
    eo.max_work = 1e8;
    return num::eval(e, W.w.model, eo);
  }
  /// the same sum of values of Fock space
  template <class Fn>
  Fp each(Fn fn) {
    Fp r;
    auto rec = [&](auto& self, std::size_t k, Fp w) -> void {
      if (k == ext.size()) {
        f.clear();
        r += w * fn();
        return;
      }
      for (auto orb : W.w.model.orbitals(ext[k].space())) {
        f.fixed[ext[k]] = orb;
        self(self, k + 1, w * W.w.model.weight(ext[k], orb));
      }
      f.fixed.erase(ext[k]);
    };
    rec(rec, 0, Fp(1, 0));
    f.clear();
    return r;
  }
};

struct Checker {
  Case& c;
  Model& m;
  bool seen = false;
  void operator()(const std::string& what, const ExprPtr& got, Fp want) {
    const Fp v = m.of(got);
    if (!want.zero()) seen = true;
    if (!(v == want)) c.fail(what + " is " + v.str() + ", defined as " + want.str() + "\n" + (got ? num::show(got) : "(null)"));
  }
};

ExprPtr one_plus(const ExprPtr& x) { return ex<Constant>(1) + x; }

void amplitudes(Case& c) {
  auto& s = c.s;
  Model m(s, {.kinds = {0, 1}}, s.chance(1, 12) ? 3 : 2, 0, true);
  c.note(m.text);
  if (m.o.hbar_comm_rank && s.chance(1, 4)) m.o.hbar_comm_rank = 0, c.note("hbar 0");
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto hb = m.bar(m.op(H()), m.sigma(), m.o.hbar_comm_rank);
  if (s.chance(1, 3)) {
    std::optional<std::size_t> r;
    if (s.coin()) r = s.below(5);
    check("energy", cc.energy(r), m.vev(r ? m.bar(m.op(H()), m.sigma(), r) : hb));
  } else {
    std::size_t pmax = m.N, pmin = 0;
    if (s.chance(1, 3)) pmax = m.N == 1 ? s.below(5) : s.below(m.N == 2 ? 4 : 3);
    // the number of terms explodes without screening
    if (m.N > 1 && (!m.o.screen || m.W.spinfree)) pmax = std::min<std::size_t>(pmax, 2);
    if (s.chance(1, 3)) pmin = s.below((std::uint32_t)pmax + 1);
    c.note("t " + std::to_string(pmin) + ".." + std::to_string(pmax));
    auto got = pmax == (std::size_t)m.N && !pmin ? cc.t() : cc.t(pmax, pmin);
    c.require(got.size() == pmax + 1, "t() has " + std::to_string(got.size()) + " elements");
    auto v = hb(m.f.ket(m.f.vacuum()));
    for (std::size_t p = 0; p <= pmax; ++p) {
      if (p < pmin) {
        c.require(!got[p], "t() has an equation below pmin");
        continue;
      }
      c.require(got[p] != nullptr, "t() misses an equation");
      check("t[" + std::to_string(p) + "]", got[p], (p ? m.f.act(P(nₚ(p)), v) : v)[m.f.vacuum()]);
    }
  }
  c.nontrivial = check.seen;
}

void lambda(Case& c) {
  auto& s = c.s;
  Model m(s, {.kinds = {0, 1}}, 2, 0, true);
  c.note(m.text);
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto got = cc.λ();
  c.require(got.size() == (std::size_t)m.N + 1, "λ() has " + std::to_string(got.size()) + " elements");
  const auto r = m.o.hbar_comm_rank;
  auto L = Λ(m.N, m.skip());
  check("λ[0]", got[0], m.vev(m.bar(m.op(H()), m.op(adjoint(L)), r)));
  // with r commutators in all, the last with the projector
  auto hb = m.bar(m.op(H()), m.sigma(), r ? std::optional<std::size_t>(*r - 1) : std::nullopt);
  for (int p = 1; p <= m.N; ++p) check("λ[" + std::to_string(p) + "]", got[p], m.vev(m.times(m.op(one_plus(L)), m.commute(hb, m.op(P(nₚ(-p)))))));
  c.nontrivial = check.seen;
}

void unitary(Case& c) {
  auto& s = c.s;
  Model m(s, {.kinds = {0, 1}}, 2, -1, true);
  c.note(m.text);
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto hb = m.bar(m.op(H()), m.sigma(), *m.o.hbar_comm_rank);
  if (s.chance(1, 3)) check("energy", cc.energy(), m.vev(hb));
  else {
    auto got = cc.t();
    auto v = hb(m.f.ket(m.f.vacuum()));
    for (int p = 0; p <= m.N; ++p) check("t[" + std::to_string(p) + "]", got.at(p), (p ? m.f.act(P(nₚ(p)), v) : v)[m.f.vacuum()]);
  }
  c.nontrivial = check.seen;
}

void response(Case& c) {
  auto& s = c.s;
  const bool batch = s.chance(1, 3);
  Model m(s, {.kinds = {0, 1}, .batch = batch}, 2, s.chance(1, 4), true);
  const bool left = m.o.ansatz == CC::Ansatz::T && s.chance(1, 3);
  std::optional<std::size_t> nbatch;
  if (batch) {
    nbatch = 1 + s.below(2);
    for (std::size_t k = 1; k <= *nbatch; ++k) m.ext.emplace_back(m.W.w.isr->retrieve(L"z"), k);
  }
  c.note(m.text + (left ? " λʼ" : " tʼ") + (nbatch ? " batch " + std::to_string(*nbatch) : ""));
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto got = left ? cc.λʼ(1, 1, nbatch) : cc.tʼ(1, 1, nbatch);
  c.require(got.size() == (std::size_t)m.N + 1, "wrong number of elements");
  const OpParams par{.order = 1, .nbatch = nbatch};
  const auto w = ex<Variable>(L"ω");
  auto S = m.sigma();
  // the expansions end at rank 2 for one-body perturbations and at 3 (4) for H̄ (Λʼ H̄)
  const auto pr = m.o.pertbar_comm_rank, hr = m.o.hbar_comm_rank;
  auto V = m.bar(m.op(Hʼ(1, par)), S, pr);
  for (int p = 1; p <= m.N; ++p) {
    Fp want;
    if (!left) {
      auto hb = m.bar(m.op(H()), S, hr);
      auto pert = m.commute(hb, m.op(Tʼ(m.N, par)));
      auto proj = m.op(P(nₚ(p)));
      auto freq = m.op(tʼ(p, par));
      want = m.each([&] { return m.vev(m.times(proj, m.plus(V, pert))) - m.vev(m.times(m.op(w), m.times(proj, freq))); });
    } else {
      auto hb3 = m.bar(m.op(H()), S, 3), hb = m.bar(m.op(H()), S, hr);
      auto L = m.op(one_plus(Λ(m.N, m.skip())));
      auto proj = m.op(P(nₚ(-p)));
      auto pert = m.commute(hb3, m.op(Tʼ(m.N, par)));
      auto L1 = m.op(Λʼ(m.N, par));
      auto freq = m.op(λʼ(p, par));
      want = m.each([&] {
        return m.vev(m.times(L, m.commute(m.plus(V, pert), proj))) + m.vev(m.times(L1, m.commute(hb, proj))) + m.vev(m.times(m.op(w), m.times(freq, proj)));
      });
    }
    check("[" + std::to_string(p) + "]", got[p], want);
  }
  c.nontrivial = check.seen;
}

void eom(Case& c) {
  auto& s = c.s;
  Model m(s, {.kinds = {0, 1}}, 2, s.chance(1, 5), true);
  const bool left = !m.unitary() && s.coin();
  int np = 1 + s.below(2), nh = np;
  if (!m.W.spinfree && s.chance(1, 2)) {
    nh = s.below(3);
    if (s.coin()) std::swap(np, nh);
  }
  if (np + nh == 0) np = nh = 1;
  if (m.N + np + nh > 5) m.o.screen = m.o.use_topology = true;  // too many terms
  c.note(m.text + (left ? " left " : " right ") + std::to_string(np) + "," + std::to_string(nh));
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto got = left ? cc.eom_l(nₚ(np), nₕ(nh)) : cc.eom_r(nₚ(np), nₕ(nh));
  c.require(got.size() == (std::size_t)std::min(np, nh) + 1, "wrong number of elements");
  auto hb = m.bar(m.op(H()), m.sigma(), m.o.hbar_comm_rank);
  auto X = m.op(left ? L(nₚ(np), nₕ(nh), Normalization::SquareRoot) : R(nₚ(np), nₕ(nh), Normalization::SquareRoot));
  for (int p = np, h = nh; p >= 0 && h >= 0 && p + h > 0; --p, --h) {
    const Fp want = left ? m.vev(m.times(X, m.commute(hb, m.op(δr(nₚ(p), nₕ(h)))))) : m.vev(m.times(m.op(δl(nₚ(p), nₕ(h))), m.commute(hb, X)));
    check("sigma " + std::to_string(p) + "," + std::to_string(h), got.at(std::min(p, h)), want);
  }
  if (np == nh) c.require(!got[0], "element 0 is not null");
  c.nontrivial = check.seen;
}

void density(Case& c) {
  auto& s = c.s;
  Model m(s, {.kinds = {0, 1}}, 2, s.chance(1, 4), true);
  const int rank = s.chance(1, 5) ? 2 : 1;
  std::optional<std::size_t> r;
  if (s.chance(1, 4)) r = s.below(3);
  if (m.unitary() && rank > 1 && m.N > 1) throw pbt::Discard{};
  c.note(m.text + " rank " + std::to_string(rank) + (r ? " order " + std::to_string(*r) : ""));
  CC cc(m.N, m.o);
  Checker check{c, m};
  auto got = cc.rdm(rank, r);
  const auto complete = m.W.w.isr->complete_space(Spin::any);
  for (int k = 1; k <= 2 * rank; ++k) m.ext.emplace_back(complete, k);
  auto order = r;
  if (!order && m.unitary()) order = m.o.hbar_comm_rank;
  auto a = ã(rank);
  auto S = m.sigma();
  const Fp want = m.each([&] {
    auto x = m.bar(m.op(a), S, order);
    return m.vev(m.unitary() ? x : m.times(m.op(one_plus(Λ(m.N, m.skip()))), x));
  });
  check("rdm", got, want);
  c.nontrivial = check.seen;
}

template <void (*Fn)(Case&)>
void guarded(Case& c) {
  try {
    Fn(c);
  } catch (const num::Undefined& e) {
    c.tag(std::string("undefined: ") + e.what());
    throw pbt::Discard{};
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C08";
  p.init = [] { mb::init(); };
  p.facets = {
      {"amplitudes", "energy and amplitude equations of a random model (rank, ansatz, singles, screening, topology, truncation, projection manifold, spaces): <P|e^-T H e^T|0>, or its truncated expansion, in Fock space; non-trivial: a nonzero equation", guarded<amplitudes>, 90, 8000, 60},
      {"lambda", "Lagrange multiplier equations and pseudoenergy: <0|(1+L)[Hbar,tau]|0>; non-trivial: a nonzero equation", guarded<lambda>, 40, 5000, 60},
      {"unitary", "energy and amplitudes of unitary models: commutator expansion with T-T+; non-trivial: a nonzero equation", guarded<unitary>, 200, 5000, 60},
      {"response", "perturbed amplitudes and multipliers, with frequency term, batched or not; non-trivial: a nonzero equation", guarded<response>, 40, 4000, 60},
      {"eom", "right and left sigma equations of any ranks: <0|dl [Hbar,R]|0>, <0|L [Hbar,dr]|0>; non-trivial: a nonzero equation", guarded<eom>, 48, 4000, 60},
      {"density", "reduced density matrices: <0|(1+L) e^-S a e^S|0> for each value of the free indices; non-trivial: nonzero", guarded<density>, 120, 4000, 60},
  };
  return pbt::run(p, argc, argv);
}
