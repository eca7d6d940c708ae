// Many-body operators (mbpt::Operator): expectation values, screening,
// rewriting, adjoints and transformations against matrices in Fock space.
#include "mb.hpp"

using namespace sequant;
using namespace sequant::mbpt;
using mb::OpGen;
using mb::World;
using Fp = num::F;
using pbt::Case;
using pbt::Src;

namespace {
ExprPtr random_product(Src& s, OpGen& g, int max_ops, int max_rank, bool bra_ket) {
  const int n = 1 + (int)s.below(max_ops);
  std::vector<ExprPtr> f;
  int left = max_rank;
  for (int k = 0; k < n && left > 0; ++k) {
    f.push_back(mb::random_op(s, g, std::min(left, 3)));
    int used = 1;
    auto count = [&](const ExprPtr& x) {
      int m = 0;
      ExprPtr tf = x->is<op_t>() ? x->as<op_t>().tensor_form() : nullptr;
      if (!tf) return 2;
      auto visit = [&](const ExprPtr& y, auto& self) -> void {
        if (y->is<FNOperator>()) m = std::max(m, (int)std::max(y->as<FNOperator>().ncreators(), y->as<FNOperator>().nannihilators()));
        else if (y->is<Product>()) for (auto& z : y->as<Product>().factors()) self(z, self);
      };
      visit(tf, visit);
      return m;
    };
    if (f.back()->is<Sum>()) { used = 0; for (auto& x : f.back()->as<Sum>().summands()) used = std::max(used, count(x)); }
    else used = count(f.back());
    left -= used;
  }
  (void)bra_ket;
  if (!g.no_scalars && s.chance(1, 6)) f.insert(f.begin() + s.below((std::uint32_t)f.size() + 1), ex<Variable>(L"ω"));
  if (f.size() == 1 && s.coin()) return f[0];
  return ex<Product>(g.no_scalars ? Constant::scalar_type{1} : gen::random_scalar(s, s.chance(1, 4)), f.begin(), f.end(), Product::Flatten::No);
}
ExprPtr random_expr(Src& s, OpGen& g, int max_terms, int max_ops, int max_rank) {
  const int n = 1 + (int)s.below(max_terms);
  if (n == 1) return random_product(s, g, max_ops, max_rank, false);
  std::vector<ExprPtr> t;
  for (int k = 0; k < n; ++k) t.push_back(random_product(s, g, max_ops, max_rank, false));
  if (!g.no_scalars && s.chance(1, 8)) t.push_back(ex<Constant>(gen::random_scalar(s, false)));
  return ex<Sum>(t.begin(), t.end());
}
std::set<std::size_t> ordinals(const ExprPtr& e) {
  std::set<std::size_t> r;
  e->visit([&](const ExprPtr& x) {
    if (x->is<op_t>() && x->as<op_t>().batch_ordinals())
      for (auto o : *x->as<op_t>().batch_ordinals()) r.insert(o);
  }, true);
  if (e->is<op_t>() && e->as<op_t>().batch_ordinals())
    for (auto o : *e->as<op_t>().batch_ordinals()) r.insert(o);
  return r;
}
struct Ev {
  World& W;
  num::IndexSet ext;
  num::EvalOptions o;
  std::vector<Index> zs;
  Ev(World& w, const ExprPtr& e) : W(w) {
    for (auto k : ordinals(e)) {
      zs.emplace_back(W.w.isr->retrieve(L"z"), k);
      ext.insert(zs.back());
    }
    o.externals = ext;
    o.max_work = 3e7;
  }
  // sum over batches, weighted
  template <class Fn>
  Fp each(Fn fn) const {
    Fp r;
    auto rec = [&](auto& self, std::size_t k, Fp w) -> void {
      if (k == zs.size()) {
        W.f->clear();
        r += w * fn();
        return;
      }
      for (auto orb : W.w.model.orbitals(zs[k].space())) {
        W.f->fixed[zs[k]] = orb;
        self(self, k + 1, w * W.w.model.weight(zs[k], orb));
      }
      W.f->fixed.erase(zs[k]);
    };
    rec(rec, 0, Fp(1, 0));
    W.f->clear();
    return r;
  }
  Fp of(const ExprPtr& tensors) const { return num::eval(tensors, W.w.model, o); }
  Fp vev(const ExprPtr& x) const { return each([&] { return W.f->vev(x); }); }
  Fp element(const ExprPtr& x, const fock::Vec& a, const fock::Vec& b) const {
    return each([&] { return fock::dot(a, W.f->act(x, b)); });
  }
};
std::string fs(Fp x) { return x.str(); }

int legs(const ExprPtr& e, World&) {  // over-estimate of the elementary operators in a term
  int m = 0;
  std::function<int(const ExprPtr&)> count = [&](const ExprPtr& x) -> int {
    if (x->is<op_t>()) return count(x->as<op_t>().tensor_form());
    if (x->is<FNOperator>()) return (int)x->as<FNOperator>().size();
    int r = 0;
    if (x->is<Product>()) for (auto& y : x->as<Product>().factors()) r += count(y);
    if (x->is<Sum>()) for (auto& y : x->as<Sum>().summands()) r = std::max(r, count(y));
    return r;
  };
  m = count(e);
  return m;
}

void vev(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {.physical = true, .batch = s.chance(1, 4)});
  OpGen g{W};
  g.batched = W.batch;
  ExprPtr x;
  if (W.batch) {
    // one batched operator per term
    OpGen g0{W};
    auto one = [&] {
      auto p = ex<Constant>(1) * mb::random_op(s, g, 2);
      if (s.coin()) p = mb::random_op(s, g0, 2) * p;
      if (s.coin()) p = p * mb::random_op(s, g0, 2);
      return p;
    };
    x = one();
    if (s.coin()) x = x + one();
  } else x = random_expr(s, g, 3, 4, 6);
  c.note(W.w.name + (W.spinfree ? " spin-free" : "") + (W.physical ? " physical vacuum" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  c.note(mb::show(x));
  if (legs(x, W) > 16) throw pbt::Discard{};
  Ev ev(W, x);
  const Fp want = ev.vev(x);
  c.nontrivial = !want.zero();
  const bool screen = s.coin(), topo = s.coin();
  auto check = [&](const char* what, const ExprPtr& r) {
    const Fp got = ev.of(r);
    if (!(got == want)) c.fail(std::string(what) + " is " + fs(got) + ", in Fock space " + fs(want) + "\n" + num::show(r));
  };
  const auto before = x->clone();
  auto r = op::vac_av(x, {.connect = {}, .screen = screen, .use_topology = topo});
  check(screen ? "vac_av (screened)" : "vac_av", r);
  c.require(*x == *before, "vac_av changed its argument");
  if (s.chance(1, 3)) check("vac_av of the screened expression", op::vac_av(screen_vac_av(x), {.connect = {}, .use_topology = topo}));
  // a sum given to the tensor-level function term by term
  if (s.chance(1, 3)) {
    auto y = x->clone();
    if (y->is<op_t>()) y = y->as<op_t>().tensor_form();
    else lower_to_tensor_form(y);
    check("tensor::vac_av", op::tensor::vac_av(y, {.use_topology = topo}));
  }
  // vacuum = reference
  if ((W.kind < 2) && s.chance(1, 3)) check("ref_av", op::ref_av(x, {.connect = {}, .screen = screen, .use_topology = topo}));
}

// quantum numbers of a determinant relative to the vacuum
qns_t qns_of(World& W, std::uint64_t det) {
  qns_t q;
  auto& f = *W.f;
  std::vector<int> cre(32), ann(32);
  int nc = 0;
  for (std::size_t k = 0; k < f.modes.size(); ++k) {
    const int b = f.modes[k] >> 16 & 0xff;
    const bool now = det >> k & 1, vac = f.vacuum() >> k & 1;
    if (now && !vac) ++cre[b], ++nc;
    if (!now && vac) ++ann[b];
  }
  if (W.physical) {
    q[0] = {nc, nc};
    q[1] = {0, 0};
    return q;
  }
  const auto& base = W.w.isr->base_spaces();
  for (std::size_t i = 0; i < base.size(); ++i) {
    if (base[i].qns() != IndexSpace::QuantumNumbers(Spin::any)) continue;
    int b = 0;
    while (!(base[i].type().to_int32() >> b & 1)) ++b;
    q[2 * i] = {cre[b], cre[b]};
    q[2 * i + 1] = {ann[b], ann[b]};
  }
  return q;
}
// excitation rank of a determinant within the hole and particle spaces, -1 if none
int rank_of(World& W, std::uint64_t det) {
  auto& f = *W.f;
  const auto h = W.w.isr->hole_space(Spin::any).type().to_int32(), p = W.w.isr->particle_space(Spin::any).type().to_int32();
  int nh = 0, np = 0;
  for (std::size_t k = 0; k < f.modes.size(); ++k) {
    const int b = f.modes[k] >> 16 & 0xff;
    const bool now = det >> k & 1, vac = f.vacuum() >> k & 1;
    if (now && !vac) { if (!(p >> b & 1)) return -1; ++np; }
    if (!now && vac) { if (!(h >> b & 1)) return -1; ++nh; }
  }
  return np == nh ? np : -1;
}

void screening(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {.spinfree = false, .physical = true});
  OpGen g{W};
  g.sums = false;
  g.no_scalars = true;
  auto x = random_product(s, g, 4, 7, false);
  if (!x->is<op_t>() && !x->is<Product>()) throw pbt::Discard{};
  c.note(W.w.name + (W.physical ? " physical vacuum" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  c.note(mb::show(x));
  auto& f = *W.f;
  int seen = 0;
  const std::uint64_t from = s.coin() ? f.vacuum() : s.below((std::uint32_t)f.dim());
  const auto src = qns_of(W, from);
  auto out = f.act(x, f.ket(from));
  std::set<std::vector<std::pair<long, long>>> done;
  for (std::size_t d = 0; d < f.dim(); ++d)
    if (!out[d].zero()) {
      ++seen;
      auto q = qns_of(W, d);
      std::vector<std::pair<long, long>> key;
      for (auto& i : q) key.emplace_back(i.lower(), i.upper());
      if (!done.insert(key).second) continue;
      const bool ok = from == f.vacuum() && s.coin() ? can_change_qns(x, q) : can_change_qns(x, q, src);
      if (!ok) c.fail("can_change_qns says the operator cannot take determinant " + std::to_string(from) + " to " + std::to_string(d) + ", vacuum is " + std::to_string(f.vacuum()));
      if (from == f.vacuum() && !W.physical) {
        const int k = rank_of(W, d);
        if (k >= 0) {
          c.require(k == 0 || raises_vacuum_to_rank(x, k), "raises_vacuum_to_rank(" + std::to_string(k) + ") is false");
          const int u = k + (int)s.below(2);
          c.require(raises_vacuum_up_to_rank(x, u), "raises_vacuum_up_to_rank(" + std::to_string(u) + ") is false");
        }
      }
      if (d == f.vacuum() && !W.physical) {
        const int k = rank_of(W, from);
        if (k >= 0) {
          c.require(k == 0 || lowers_rank_to_vacuum(x, k), "lowers_rank_to_vacuum(" + std::to_string(k) + ") is false");
          const int u = k + (int)s.below(2);
          c.require(lowers_rank_or_lower_to_vacuum(x, u), "lowers_rank_or_lower_to_vacuum(" + std::to_string(u) + ") is false");
        }
      }
    }
  // both kinds of answers must be possible for the check to mean something
  c.nontrivial = seen > 0;
}

void rewriting(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {});
  OpGen g{W};
  auto x = random_expr(s, g, 4, 4, 8);
  if (s.chance(1, 3)) {
    // again, with factors in another order
    auto y = x->clone();
    if (y->is<Product>()) {
      std::vector<ExprPtr> f(y->as<Product>().factors().begin(), y->as<Product>().factors().end());
      s.shuffle(f);
      y = ex<Product>(gen::random_scalar(s, false), f.begin(), f.end(), Product::Flatten::No);
    }
    x = ex<Sum>(ExprPtrList{y, x});
  }
  c.note(W.w.name + (W.spinfree ? " spin-free" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  c.note(mb::show(x));
  Ev ev(W, x);
  auto a = W.f->random(s.below(1000) + 1), b = W.f->random(s.below(1000) + 2000);
  const Fp want = ev.element(x, a, b);
  auto y = x->clone();
  std::string how;
  switch (s.below(5)) {
    case 0: how = "simplify"; simplify(y); break;
    case 1: how = "canonicalize"; canonicalize(y); break;
    case 2: how = "expand"; y = expand(y); break;
    case 3: how = "non_canon_simplify"; non_canon_simplify(y); break;
    default: how = "rapid_simplify"; rapid_simplify(y); break;
  }
  c.tag(how);
  const Fp got = ev.element(y, a, b);
  c.nontrivial = !want.zero() && !(*x == *y);
  if (!(got == want)) c.fail(how + " changed the operator: " + fs(want) + " -> " + fs(got) + "\n" + mb::show(y));
}

std::map<std::vector<std::pair<int, bool>>, Fp> matrix(const World& W, const ExprPtr& o) {
  std::map<std::vector<std::pair<int, bool>>, Fp> r;
  for (auto& e : W.f->table(o->as<op_t>().tensor_form())) r[e.ops] = e.x;
  return r;
}

void equality(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {.batch = s.chance(1, 4)});
  OpGen g{W};
  g.sums = false;
  g.batched = W.batch;
  std::vector<ExprPtr> ops;
  const int n = 2 + (int)s.below(6);
  for (int k = 0; k < n; ++k) {
    auto o = mb::random_op(s, g, 3);
    if (o->is<op_t>()) ops.push_back(o);
  }
  if (ops.size() < 2) throw pbt::Discard{};
  c.note(W.w.name + (W.spinfree ? " spin-free" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  std::set<Index, Index::FullLabelCompare> zs;
  for (auto& o : ops) {
    c.note(mb::show(o));
    for (auto k : ordinals(o)) zs.insert(Index(W.w.isr->retrieve(L"z"), k));
  }
  for (auto& z : zs) W.f->fixed[z] = W.w.model.orbitals(z.space())[s.below(2) % W.w.model.orbitals(z.space()).size()];
  std::vector<std::map<std::vector<std::pair<int, bool>>, Fp>> m;
  for (auto& o : ops) {
    m.push_back(matrix(W, o));
    // every lowering gives the same operator in fresh indices
    if (!(matrix(W, o) == m.back())) c.fail("two tensor forms of an operator differ: " + mb::show(o));
    auto cl = o->clone();
    c.require(*cl == *o && cl->hash_value() == o->hash_value(), "clone is not equal");
  }
  for (std::size_t i = 0; i < ops.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (*ops[i] == *ops[j]) {
        c.nontrivial = true;
        c.require(ops[i]->hash_value() == ops[j]->hash_value(), "equal operators have different hashes");
        if (!(m[i] == m[j])) c.fail("operators " + std::to_string(j) + " and " + std::to_string(i) + " are equal but act differently");
      }
}

void adjoints(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {});
  OpGen g{W};
  g.sums = s.coin();
  auto x = random_expr(s, g, 2, 3, 6);
  c.note(W.w.name + (W.spinfree ? " spin-free" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  c.note(mb::show(x));
  // roots of 3 are imaginary in the numeric model
  bool root3 = false;
  std::function<void(const ExprPtr&)> look = [&](const ExprPtr& y) {
    if (y->is<Power>()) root3 |= !(num::distribute(y, W.w.model)[0].coeff.im == 0);
    if (y->is<op_t>()) look(y->as<op_t>().tensor_form());
    if (y->is<Product>()) for (auto& z : y->as<Product>().factors()) look(z);
    if (y->is<Sum>()) for (auto& z : y->as<Sum>().summands()) look(z);
  };
  look(x);
  if (root3) throw pbt::Discard{};
  const auto seed = s.below(1000);
  auto a = W.f->random(seed + 1), b = W.f->random(seed + 2000);
  auto conj = [](fock::Vec v) { for (auto& y : v) y = y.conj(); return v; };
  auto y = adjoint(x);
  const Fp want = fock::dot(conj(b), W.f->act(x, conj(a))).conj();
  const Fp got = fock::dot(a, W.f->act(y, b));
  c.nontrivial = !want.zero();
  if (!(got == want)) c.fail("the adjoint does not act as the conjugate transpose: " + fs(got) + " vs " + fs(want) + "\n" + mb::show(y));
  auto z = adjoint(y);
  if (!(fock::dot(a, W.f->act(z, b)) == fock::dot(a, W.f->act(x, b)))) c.fail("the adjoint of the adjoint is another operator\n" + mb::show(z));
  if (x->is<op_t>()) {
    const auto& o = x->as<op_t>();
    const auto& p = y->as<op_t>();
    c.require(p.order() == o.order() && p.batch_ordinals() == o.batch_ordinals(), "adjoint changed the perturbation order or the batches");
    c.require(*z == *x && z->hash_value() == x->hash_value(), "the adjoint of the adjoint is not equal to the operator");
    c.require(sequant::adjoint(sequant::adjoint(o())) == o(), "quantum numbers of the adjoint");
  }
}

// what the makers are documented to make
void makers(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {.batch = s.chance(1, 3)});
  auto ctx = get_default_mbpt_context();
  const auto& isr = W.w.isr;
  const auto hole = isr->hole_space(Spin::any), part = isr->particle_space(Spin::any), all = isr->complete_space(Spin::any);
  const bool sf = W.spinfree;
  auto herm = [&](const std::wstring& l) { return op_hermiticity(l); };
  int counter = 0;
  // documented operator: norm * sum over all indices of tensor * normal operator
  auto build = [&](const std::wstring& label, std::vector<IndexSpace> cr, std::vector<IndexSpace> an, Normalization n, const std::vector<std::size_t>& z = {}) -> ExprPtr {
    std::vector<Index> ci, ai, zi;
    for (auto& x : cr) ci.emplace_back(x, 31 + counter++);
    for (auto& x : an) ai.emplace_back(x, 31 + counter++);
    for (auto k : z) zi.emplace_back(isr->retrieve(L"z"), k);
    auto base = label;
    while (!base.empty() && (base.back() == L'¹' || base.back() == L'²')) base.pop_back();
    auto fact = [](std::size_t k) { long r = 1; for (; k > 1; --k) r *= k; return r; };
    const long mult = sf ? fact(cr.size()) : fact(cr.size()) * fact(an.size());
    ExprPtr r = ex<Tensor>(label, bra(ci), ket(ai), aux(zi), sf ? Symmetry::Nonsymm : Symmetry::Antisymm, herm(base)) *
                ex<FNOperator>(cre(ci), ann(ai), Vacuum::SingleProduct);
    if (n == Normalization::Default) r = ex<Constant>(rational(1, mult)) * r;
    if (n == Normalization::SquareRoot) r = ex<Power>(ex<Constant>(rational(1, mult)), rational(1, 2)) * r;
    return r;
  };
  auto rep = [](const IndexSpace& x, int n) { return std::vector<IndexSpace>(n, x); };
  auto norm = s.pick({Normalization::Default, Normalization::SquareRoot, Normalization::Implicit});
  std::vector<std::size_t> z;
  OpParams par;
  if (W.batch) {
    if (s.coin()) {
      par.nbatch = 1 + s.below(2);
      for (std::size_t k = 1; k <= *par.nbatch; ++k) z.push_back(k);
    } else {
      z.push_back(1 + s.below(3));
      if (s.coin()) z.push_back(z.back() + 1);
      for (auto k : z) par.batch_ordinals.push_back(k);
    }
  }
  par.order = 1;
  const int k = 1 + (int)s.below(3), skip = k > 1 && s.chance(1, 3);
  int np = k, nh = k;
  if (!sf && s.coin()) { nh = (int)s.below(4); if (s.coin()) std::swap(np, nh); if (!np && !nh) np = 1; }
  ExprPtr got, got_t, want;
  std::string what;
  auto plus = [&](const ExprPtr& x) { want = want ? want + x : x; };
  auto ex_ = [&](const std::wstring& l, int p, int h, Normalization n, bool zz = false) { return build(l, rep(part, p), rep(hole, h), n, zz ? z : std::vector<std::size_t>{}); };
  auto de_ = [&](const std::wstring& l, int p, int h, Normalization n, bool zz = false) { return build(l, rep(hole, h), rep(part, p), n, zz ? z : std::vector<std::size_t>{}); };
  auto gen_ = [&](const std::wstring& l, int r, bool zz = false) { return build(l, rep(all, r), rep(all, r), Normalization::Default, zz ? z : std::vector<std::size_t>{}); };
  const auto ranks = " " + std::to_string(np) + "," + std::to_string(nh) + " skip " + std::to_string(skip) + " norm " + std::to_string(int(norm));
  std::wstring proj = sf ? reserved::symm_label() : reserved::antisymm_label();
  std::optional<Normalization> pn;
  if (s.coin()) pn = norm;
  const Normalization pnn = pn ? *pn : Normalization::Implicit;
  const auto D = Normalization::Default;
  switch (W.batch ? 20 + s.below(5) : s.below(15)) {
    case 0: what = "t"; got = t(k); got_t = tensor::t(k); plus(ex_(L"t", k, k, D)); break;
    case 1: what = "T"; got = T(k, skip); got_t = tensor::T(k, skip); for (int r = skip ? 2 : 1; r <= k; ++r) plus(ex_(L"t", r, r, D)); break;
    case 2: what = "λ"; got = λ(k); got_t = tensor::λ(k); plus(de_(L"λ", k, k, D)); break;
    case 3: what = "Λ"; got = Λ(k, skip); got_t = tensor::Λ(k, skip); for (int r = skip ? 2 : 1; r <= k; ++r) plus(de_(L"λ", r, r, D)); break;
    case 4: what = "h"; got = h(k > 1 ? 2 : 1); got_t = tensor::h(k > 1 ? 2 : 1); plus(gen_(k > 1 ? L"g" : L"f", k > 1 ? 2 : 1)); break;
    case 5: what = "H"; got = H(k > 1 ? 2 : 1); got_t = tensor::H(k > 1 ? 2 : 1); plus(gen_(L"f", 1)); if (k > 1) plus(gen_(L"g", 2)); break;
    case 6: what = "F"; got = F(); got_t = tensor::F(); plus(gen_(L"f", 1)); break;
    case 7: what = "θ"; got = θ(std::min(k, 2)); got_t = tensor::θ(std::min(k, 2)); plus(gen_(L"θ", std::min(k, 2))); break;
    case 8: what = "r"; got = r(nₚ(np), nₕ(nh), norm); got_t = tensor::r(nₚ(np), nₕ(nh), norm); plus(ex_(L"R", np, nh, norm)); break;
    case 9: what = "l"; got = l(nₚ(np), nₕ(nh), norm); got_t = tensor::l(nₚ(np), nₕ(nh), norm); plus(de_(L"L", np, nh, norm)); break;
    case 10: what = "R"; got = R(nₚ(np), nₕ(nh), norm); for (int p = np, h = nh; p >= 0 && h >= 0 && p + h > 0; --p, --h) plus(ex_(L"R", p, h, norm)); break;
    case 11: what = "L"; got = L(nₚ(np), nₕ(nh), norm); for (int p = np, h = nh; p >= 0 && h >= 0 && p + h > 0; --p, --h) plus(de_(L"L", p, h, norm)); break;
    case 12: {
      what = "P";
      const int sg = s.coin() ? 1 : -1;
      got = P(nₚ(sg * np), nₕ(sg * nh), pn);
      got_t = tensor::P(nₚ(sg * np), nₕ(sg * nh), pn);
      // P(+) projects on an excited bra: deexcitation
      plus(sg > 0 ? de_(proj, np, nh, pnn) : ex_(proj, np, nh, pnn));
      break;
    }
    case 13: {
      what = "δ";
      if (s.coin()) { got = δr(nₚ(np), nₕ(nh)); got_t = tensor::δr(nₚ(np), nₕ(nh)); plus(ex_(proj, np, nh, Normalization::SquareRoot)); }
      else { got = δl(nₚ(np), nₕ(nh)); got_t = tensor::δl(nₚ(np), nₕ(nh)); plus(de_(proj, np, nh, Normalization::SquareRoot)); }
      break;
    }
    case 14: {
      const int sg = s.coin() ? 1 : -1;
      if (sf) { what = "S"; got = S(sg * k, pn); got_t = tensor::S(sg * k, pn); plus(sg < 0 ? de_(proj, k, k, pnn) : ex_(proj, k, k, pnn)); }
      else { what = "A"; got = A(nₚ(sg * np), nₕ(sg * nh), pn); got_t = tensor::A(nₚ(sg * np), nₕ(sg * nh), pn); plus(sg < 0 ? de_(proj, np, nh, pnn) : ex_(proj, np, nh, pnn)); }
      break;
    }
    case 20: what = "Hʼ"; got = Hʼ(std::min(k, 2), par); got_t = tensor::Hʼ(std::min(k, 2), par); plus(gen_(L"h¹", std::min(k, 2), true)); break;
    case 21: what = "tʼ"; got = tʼ(k, par); got_t = tensor::tʼ(k, par); plus(ex_(L"t¹", k, k, D, true)); break;
    case 22: what = "λʼ"; got = λʼ(k, par); got_t = tensor::λʼ(k, par); plus(de_(L"λ¹", k, k, D, true)); break;
    case 23: par.skip1 = skip; what = "Tʼ"; got = Tʼ(k, par); got_t = tensor::Tʼ(k, par); for (int r = skip ? 2 : 1; r <= k; ++r) plus(ex_(L"t¹", r, r, D, true)); break;
    default: par.skip1 = skip; what = "Λʼ"; got = Λʼ(k, par); got_t = tensor::Λʼ(k, par); for (int r = skip ? 2 : 1; r <= k; ++r) plus(de_(L"λ¹", r, r, D, true)); break;
  }
  c.note(W.w.name + (sf ? " spin-free " : " ") + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt) + " " + what + ranks);
  c.tag(what);
  for (auto k : z) {
    Index zi(isr->retrieve(L"z"), k);
    auto orb = W.w.model.orbitals(zi.space());
    W.f->fixed[zi] = orb[s.below((std::uint32_t)orb.size())];
  }
  using Mat = std::map<std::vector<std::pair<int, bool>>, Fp>;
  auto lower = [&](const ExprPtr& x) {
    auto y = x->clone();
    if (y->is<op_t>()) return y->as<op_t>().tensor_form();
    return lower_to_tensor_form(y);
  };
  auto mat = [&](const ExprPtr& x) {
    Mat m;
    for (auto& e : W.f->table(x)) m[e.ops] = e.x;
    return m;
  };
  const Mat w = mat(want);
  c.nontrivial = !w.empty();
  const ExprPtr lo = lower(got);
  if (!(mat(lo) == w)) c.fail(what + " is " + num::show(lo) + ", documented " + num::show(want));
  if (got_t && !(mat(got_t) == w)) c.fail("tensor::" + what + " is " + num::show(got_t) + ", documented " + num::show(want));
  // quantum numbers of the operator cover all of its elements
  auto each = [&](const ExprPtr& o) {
    auto q = o->as<op_t>()();
    for (auto& [ops, x] : mat(o->as<op_t>().tensor_form())) {
      const auto& base = isr->base_spaces();
      for (std::size_t i = 0; i < base.size(); ++i) {
        if (base[i].qns() != IndexSpace::QuantumNumbers(Spin::any)) continue;
        int nc = 0, na = 0;
        for (auto& [m, cr] : ops)
          if (base[i].type().to_int32() >> (W.f->modes[m] >> 16 & 0xff) & 1) ++(cr ? nc : na);
        auto in = [](int n, const qninterval_t& v) { return v.lower() <= n && n <= v.upper(); };
        if (!in(nc, q[2 * i]) || !in(na, q[2 * i + 1])) c.fail("quantum numbers of " + mb::show(o) + " do not admit one of its elements");
      }
    }
  };
  if (got->is<op_t>()) each(got);
  else for (auto& o : got->as<Sum>().summands()) if (o->is<op_t>()) each(o);
}

// nested commutators and their connected form
void transform(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {});
  OpGen g{W};
  g.projectors = g.adjoints = false;
  g.conserving = true;
  auto& f = *W.f;
  const int n = (int)s.below(4);
  const bool unitary = s.chance(1, 3);
  const int order = unitary ? std::min(n, 2) : n;
  auto tk = [&] { const int k = 1 + (int)s.below(2); return s.coin() ? T(k) : t(k); };
  ExprPtr B = tk();
  ExprPtr A;
  // the connected form is that of single-reference methods
  const bool connected = W.kind < 2 && s.coin();
  if (connected) A = s.coin() ? H(1 + s.below(2)) : h(1 + s.below(2));
  else A = random_expr(s, g, 2, 2, 4);
  c.note(W.w.name + (W.spinfree ? " spin-free" : "") + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt) + " order " + std::to_string(order) + (unitary ? " unitary" : "") + (connected ? " connected" : ""));
  c.note("A " + mb::show(A));
  c.note("B " + mb::show(B));
  auto Bd = adjoint(B);
  auto sigma = [&](const fock::Vec& v) {
    auto r = f.act(B, v);
    if (unitary) r = fock::add(r, f.act(Bd, v), Fp::of(-1));
    return r;
  };
  // sum_k 1/k! [..[A,S]..,S] v = sum_k sum_j (-1)^(k-j) / ((k-j)! j!) S^(k-j) A S^j v
  auto inv_fact = [](int k) { Fp r(1, 0); for (int j = 2; j <= k; ++j) r *= Fp::of(j); return r.inv(); };
  auto reference = [&](const fock::Vec& v) {
    fock::Vec out(f.dim());
    std::vector<fock::Vec> pw{v};
    for (int j = 1; j <= order; ++j) pw.push_back(sigma(pw.back()));
    for (int j = 0; j <= order; ++j) {
      auto x = f.act(A, pw[j]);
      for (int i = 0; i + j <= order; ++i) {
        out = fock::add(out, x, (i & 1 ? Fp::of(-1) : Fp(1, 0)) * inv_fact(i) * inv_fact(j));
        x = sigma(x);
      }
    }
    return out;
  };
  if (!connected) {
    auto a = f.random(s.below(1000) + 1), b = f.random(s.below(1000) + 2000);
    auto before = A->clone();
    auto got = lst(A, B, order, {.unitary = unitary});
    c.require(*A == *before, "lst changed its argument");
    const Fp w = fock::dot(a, reference(b)), v = fock::dot(a, f.act(got, b));
    c.nontrivial = !w.zero() && order > 0;
    if (!(v == w)) c.fail("lst differs from the nested commutators: " + fs(v) + " vs " + fs(w) + "\n" + mb::show(got));
    return;
  }
  // <0|P (A S..S)_c|0> with connections = <0|P [..[A,S]..]|0>
  if (unitary) {
    // connected form of a unitary transformation has no exact counterpart
    auto got = lst(A, B, order, {.unitary = true});
    auto v = op::vac_av(got, {.connect = {}});
    const Fp w = reference(f.ket(f.vacuum()))[f.vacuum()];
    Ev ev(W, got);
    c.nontrivial = !w.zero() && order > 0;
    if (!(ev.of(v) == w)) c.fail("<0|lst|0> is " + fs(ev.of(v)) + ", in Fock space " + fs(w) + "\n" + num::show(v));
    return;
  }
  const int k = (int)s.below(4);
  auto got = lst(A, B, order, {.use_connected_form = true});
  if (k) got = P(nₚ(k)) * got;
  c.note("P " + std::to_string(k));
  const bool screen = s.coin(), topo = s.coin();
  auto v = op::vac_av(got, {.connect = default_op_connections(), .screen = screen, .use_topology = topo});
  auto out = reference(f.ket(f.vacuum()));
  if (k) out = f.act(P(nₚ(k)), out);
  const Fp w = out[f.vacuum()];
  Ev ev(W, got);
  c.nontrivial = !w.zero() && order > 0;
  if (!(ev.of(v) == w)) c.fail("connected <P|lst|0> is " + fs(ev.of(v)) + ", commutators in Fock space " + fs(w) + "\n" + num::show(v));
}

// reference with partially occupied orbitals: density matrices
void reference(Case& c) {
  auto& s = c.s;
  World W = mb::make_world(s, {.kinds = {2, 3}, .spinfree = false});
  OpGen g{W};
  g.conserving = true;
  auto x = random_expr(s, g, 2, 3, 5);
  c.note(W.w.name + " " + std::to_string(W.nocc) + "/" + std::to_string(W.nvirt));
  c.note(mb::show(x));
  if (legs(x, W) > 12) throw pbt::Discard{};
  auto& f = *W.f;
  // a state with the vacuum orbitals occupied and n electrons in the active ones
  const auto act = W.w.isr->intersection(W.w.isr->hole_space(Spin::any), W.w.isr->particle_space(Spin::any)).type().to_int32();
  std::uint64_t active = 0;
  for (std::size_t k = 0; k < f.modes.size(); ++k)
    if (act >> (f.modes[k] >> 16 & 0xff) & 1) active |= 1ull << k;
  const int na = __builtin_popcountll(active);
  if (!na) throw pbt::Discard{};
  const int n = (int)s.below(na + 1);
  fock::Vec psi(f.dim());
  Fp nrm;
  const auto seed = s.below(1000);
  for (std::uint64_t d = 0; d < f.dim(); ++d)
    if ((d & ~active) == f.vacuum() && __builtin_popcountll(d & active) == n) {
      psi[d] = W.w.model.random(num::mix(seed * 77 + d), true);
      nrm += psi[d] * psi[d];
    }
  if (nrm.zero()) throw pbt::Discard{};
  const Fp inv = nrm.inv();
  auto rdm = [&](const std::vector<std::uint64_t>& bra, const std::vector<std::uint64_t>& ket) {
    // <a+_k1 a+_k2 .. a_b2 a_b1>
    fock::Entry e;
    auto mode = [&](std::uint64_t o) { auto it = std::lower_bound(f.modes.begin(), f.modes.end(), num::Orb(o - 1)); return it == f.modes.end() || *it + 1 != o ? -1 : int(it - f.modes.begin()); };
    for (auto o : ket) e.ops.emplace_back(mode(o), true);
    for (auto it = bra.rbegin(); it != bra.rend(); ++it) e.ops.emplace_back(mode(*it), false);
    for (auto& [m, cr] : e.ops) if (m < 0 || !(active >> m & 1)) return Fp();
    e.x = Fp(1, 0);
    return inv * fock::dot(psi, f.act(fock::Table{e}, psi));
  };
  num::Model m = W.w.model;
  m.tensor_override = [&](const num::Model&, const AbstractTensor& t, const std::vector<std::uint64_t>& bra, const std::vector<std::uint64_t>& ket, const std::vector<std::uint64_t>&) -> std::optional<Fp> {
    if (t._label() != L"γ") return std::nullopt;
    return rdm(bra, ket);
  };
  const Fp want = inv * fock::dot(psi, f.act(x, psi));
  c.nontrivial = !want.zero() && n > 0;
  const bool screen = s.coin(), topo = s.coin();
  auto r = op::ref_av(x, {.connect = {}, .screen = screen, .use_topology = topo});
  num::EvalOptions o;
  o.externals = num::IndexSet{};
  o.max_work = 3e7;
  const Fp got = num::eval(r, m, o);
  if (!(got == want)) c.fail("ref_av is " + fs(got) + ", in Fock space " + fs(want) + "\n" + num::show(r));
}
template <void (*Fn)(Case&)>
void guarded(Case& c) {
  try {
    Fn(c);
  } catch (const num::Undefined& e) {
    c.tag(std::string("undefined: ") + e.what());
    throw pbt::Discard{};
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C07";
  p.init = [] { mb::init(); };
  p.facets = {
      {"vev", "random sums of products of 1-4 many-body operators (hamiltonians, cluster, general, projectors, replacement between any spaces, perturbed, adjoints), spin-orbital or spin-free, over up to 6 spin orbitals; vac_av, ref_av with and without screening and topology, tensor level, against <0|X|0> in Fock space; non-trivial: nonzero value", guarded<vev>, 3000, 100000},
      {"screening", "products of up to 4 operators; whenever they take a determinant to another one in Fock space the screening functions must admit that change; non-trivial: some matrix element is nonzero", guarded<screening>, 4000, 100000},
      {"rewriting", "sums of products of operators through simplify, canonicalize, expand: same matrix; non-trivial: nonzero and changed", guarded<rewriting>, 4000, 100000},
      {"equality", "2-7 random operators: equal ones hash equally and have equal matrices; non-trivial: some pair is equal", guarded<equality>, 4000, 100000},
      {"adjoint", "sums of products of operators: the adjoint is the conjugate transpose, twice the identity; non-trivial: nonzero", guarded<adjoints>, 4000, 100000},
      {"makers", "every maker of operators with random ranks, normalization, batching: operator and tensor level equal the documented tensor times normal operator; quantum numbers cover its elements; non-trivial: nonzero operator", guarded<makers>, 4000, 100000},
      {"transform", "lst(A,B,n), n<=3, explicit, unitary and connected, against nested commutators in Fock space; non-trivial: nonzero and n>0", guarded<transform>, 700, 40000},
      {"reference", "ref_av in multireference spaces: density matrices of a random active-space state, against its expectation value; non-trivial: nonzero, active electrons", guarded<reference>, 700, 40000},
  };
  return pbt::run(p, argc, argv);
}
