// Random sequences of normal operators and products of tensors and operators.
#pragma once
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/core/wick.hpp>

#include "gen.hpp"
#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
struct Nop {
  std::vector<Index> cre, ann;
  std::size_t size() const { return cre.size() + ann.size(); }
};
struct Setting {
  World w;
  Vacuum vac = Vacuum::SingleProduct;
  bool spinfree = false, bose = false;
  num::EvalOptions eval;
};

std::wstring show(const std::vector<Nop>& v) {
  std::wstring r;
  for (auto& n : v) {
    r += L"{";
    for (auto& i : n.cre) r += std::wstring(i.full_label()) + L"+ ";
    for (auto k = n.ann.size(); k-- > 0;) r += std::wstring(n.ann[k].full_label()) + L" ";
    r += L"} ";
  }
  return r;
}

Setting make_setting(Case& c, bool allow_spinfree, int max_extent = 2) {
  Setting s;
  WorldOptions wo;
  wo.aux = false;
  wo.max_extent = max_extent;
  wo.kinds = {0, 0, 1, 2, 3};
  wo.spin = c.s.weighted({5, 1, 1});
  s.spinfree = allow_spinfree && wo.spin < 2 && c.s.chance(1, 3);
  s.vac = c.s.chance(1, 4) ? Vacuum::Physical : Vacuum::SingleProduct;
  wo.vacuum = s.vac;
  s.w = make_world(c.s, wo);
  if (s.spinfree) {
    auto ctx = get_default_context();
    ctx.set(SPBasis::Spinfree);
    set_default_context(ctx);
  }
  s.eval.operators = true;
  s.eval.physical_vacuum = s.vac == Vacuum::Physical;
  s.eval.spinfree = s.spinfree;
  s.eval.max_work = 3e6;
  s.eval.state_seed = 1 + c.s.below(1000);
  return s;
}

// spaces that have orbitals of one kind
std::vector<IndexSpace> spaces_with(const World& w, bool occ) {
  std::vector<IndexSpace> r;
  for (auto& sp : w.spaces)
    for (auto o : w.model.orbitals(sp))
      if (!!(w.model.occ_bits >> (o >> 16 & 0xff) & 1) == occ) {
        r.push_back(sp);
        break;
      }
  return r;
}
const IndexSpace& common(Src& s, const std::vector<IndexSpace>& v) {
  return s.chance(1, 3) ? v[s.below(v.size())] : v[0];
}

// number of (spin-)orbitals both spaces have
bool overlap(const World& w, const Index& a, const Index& b, int kind /*0 any, 1 occ, 2 unocc*/) {
  auto x = w.model.orbitals(a.space()), y = w.model.orbitals(b.space());
  for (auto o : x)
    if (std::find(y.begin(), y.end(), o) != y.end()) {
      const bool occ = w.model.occ_bits >> (o >> 16 & 0xff) & 1;
      if (kind == 0 || (kind == 1) == occ) return true;
    }
  return false;
}

/// operators of which at least one full contraction exists (unless extras are added)
std::vector<Nop> random_nops(Case& c, Setting& st, int max_ops, bool extras) {
  auto& s = c.s;
  const int n = 2 + s.weighted({4, 3, 2, 1});
  const int pairs = 1 + (int)s.below(max_ops / 2);
  std::vector<Nop> v(n);
  auto occ = spaces_with(st.w, true), un = spaces_with(st.w, false);
  std::vector<Index> used;
  for (int k = 0; k < pairs; ++k) {
    int x = (int)s.below(n), y = (int)s.below(n - 1);
    if (y >= x) ++y;
    if (x > y) std::swap(x, y);
    const bool hole = !st.bose && st.vac == Vacuum::SingleProduct && s.coin();
    const auto& sp = st.vac == Vacuum::SingleProduct && !st.bose ? (hole ? occ : un) : st.w.spaces;
    Index a = st.w.make(common(s, sp)), b = st.w.make(common(s, sp));
    if (!st.spinfree && !used.empty() && s.chance(1, 12)) a = used[s.below(used.size())];
    used.push_back(b);
    if (hole) { v[x].cre.push_back(a); v[y].ann.push_back(b); }
    else { v[x].ann.push_back(a); v[y].cre.push_back(b); }
  }
  if (extras) {
    const int m = (int)s.below(3);
    for (int k = 0; k < m; ++k) {
      auto& nop = v[s.below(n)];
      (s.coin() ? nop.cre : nop.ann).push_back(st.w.make(common(s, st.w.spaces)));
    }
  }
  if (st.spinfree) {  // number-conserving operators only
    for (auto& nop : v) {
      while (nop.cre.size() < nop.ann.size()) nop.cre.push_back(st.w.make(common(s, s.coin() ? occ : un)));
      while (nop.ann.size() < nop.cre.size()) nop.ann.push_back(st.w.make(common(s, s.coin() ? occ : un)));
    }
  }
  std::vector<Nop> r;
  for (auto& nop : v) {
    if (!nop.size()) continue;
    s.shuffle(nop.cre);
    s.shuffle(nop.ann);
    r.push_back(nop);
  }
  // an index may not occur twice with the same action
  std::set<std::wstring> sc, sa;
  for (auto& nop : r) {
    for (auto& i : nop.cre) if (!sc.insert(std::wstring(i.full_label())).second) throw pbt::Discard{};
    for (auto& i : nop.ann) if (!sa.insert(std::wstring(i.full_label())).second) throw pbt::Discard{};
  }
  std::size_t tot = 0;
  for (auto& nop : r) tot += nop.size();
  if ((int)tot > max_ops + 2) throw pbt::Discard{};
  return r;
}

template <Statistics S>
NormalOperator<S> make_nop(const Nop& n, Vacuum v) {
  container::svector<Index> c(n.cre.begin(), n.cre.end()), a(n.ann.begin(), n.ann.end());
  return NormalOperator<S>(cre(c), ann(a), v);
}
template <Statistics S>
std::shared_ptr<NormalOperatorSequence<S>> make_seq(const std::vector<Nop>& v, Vacuum vac) {
  std::vector<NormalOperator<S>> n;
  for (auto& x : v) n.push_back(make_nop<S>(x, vac));
  using Q = NormalOperatorSequence<S>;
  switch (n.size()) {
    case 1: return std::make_shared<Q>(n[0]);
    case 2: return std::make_shared<Q>(n[0], n[1]);
    case 3: return std::make_shared<Q>(n[0], n[1], n[2]);
    case 4: return std::make_shared<Q>(n[0], n[1], n[2], n[3]);
    case 5: return std::make_shared<Q>(n[0], n[1], n[2], n[3], n[4]);
  }
  throw pbt::Discard{};
}
template <Statistics S>
ExprPtr nop_expr(const Nop& n, Vacuum v) { return ex<NormalOperator<S>>(make_nop<S>(n, v)); }

num::IndexSet indices_of(const std::vector<Nop>& v) {
  num::IndexSet r;
  for (auto& n : v) {
    for (auto& i : n.cre) r.insert(i);
    for (auto& i : n.ann) r.insert(i);
  }
  return r;
}

// ---- contractions enumerated one by one -----------------------------------
struct MOp { Index i; bool create; int nop; };
struct Matching {
  int sign = 1;
  std::vector<std::pair<int, int>> pairs;
  std::vector<int> rest;
};
std::vector<MOp> flat(const std::vector<Nop>& v) {
  std::vector<MOp> r;
  for (int k = 0; k < (int)v.size(); ++k) {
    for (auto& i : v[k].cre) r.push_back({i, true, k});
    for (auto q = v[k].ann.size(); q-- > 0;) r.push_back({v[k].ann[q], false, k});
  }
  return r;
}
// every (full, or also partial) contraction between different operators
void matchings(const Setting& st, const std::vector<MOp>& ops, bool full, std::vector<Matching>& out) {
  std::vector<int> state(ops.size(), 0);  // 0 free, 1 paired, 2 left
  Matching cur;
  auto can = [&](int x, int y) {
    if (ops[x].nop == ops[y].nop || ops[x].create == ops[y].create) return false;
    if (st.vac == Vacuum::Physical || st.bose) return !ops[x].create && overlap(st.w, ops[x].i, ops[y].i, 0);
    return overlap(st.w, ops[x].i, ops[y].i, ops[x].create ? 1 : 2);
  };
  auto rec = [&](auto& self, std::size_t k) -> void {
    while (k < ops.size() && state[k]) ++k;
    if (k == ops.size()) {
      Matching m = cur;
      m.rest.clear();
      for (std::size_t q = 0; q < ops.size(); ++q) if (state[q] == 2) m.rest.push_back((int)q);
      if (!st.bose) {
        // parity of x1 y1 x2 y2 ... rest
        std::vector<int> p;
        for (auto& [a, b] : m.pairs) p.push_back(a), p.push_back(b);
        p.insert(p.end(), m.rest.begin(), m.rest.end());
        for (std::size_t a = 0; a < p.size(); ++a)
          for (std::size_t b = a + 1; b < p.size(); ++b) if (p[a] > p[b]) m.sign = -m.sign;
      }
      out.push_back(std::move(m));
      if (out.size() > 4000) throw pbt::Discard{};
      return;
    }
    if (!full) {
      state[k] = 2;
      self(self, k + 1);
      state[k] = 0;
    }
    for (std::size_t y = k + 1; y < ops.size(); ++y) {
      if (state[y] || !can((int)k, (int)y)) continue;
      state[k] = state[y] = 1;
      cur.pairs.emplace_back((int)k, (int)y);
      self(self, k + 1);
      cur.pairs.pop_back();
      state[k] = state[y] = 0;
    }
  };
  rec(rec, 0);
}

// the contraction as an expression: `part`, `hole`: delta restricted to
// unoccupied / occupied orbitals
template <Statistics S>
ExprPtr contraction_expr(const Setting& st, const std::vector<MOp>& ops, const Matching& m, const std::vector<ExprPtr>& tensors,
                         Constant::scalar_type scalar) {
  auto p = std::make_shared<Product>();
  p->scale(scalar * Constant::scalar_type(m.sign));
  for (auto& t : tensors) p->append(1, t->clone(), Product::Flatten::No);
  for (auto& [x, y] : m.pairs) {
    container::svector<Index> b{ops[x].i}, k{ops[y].i};
    p->append(1, ex<Tensor>(st.bose || st.vac == Vacuum::Physical ? L"any" : ops[x].create ? L"hole" : L"part", bra(b), ket(k),
                            Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
  }
  if (!m.rest.empty()) {
    std::vector<int> order;
    Nop n;
    for (int q : m.rest) if (ops[q].create) { order.push_back(q); n.cre.push_back(ops[q].i); }
    for (int q : m.rest) if (!ops[q].create) { order.push_back(q); n.ann.insert(n.ann.begin(), ops[q].i); }
    int sign = 1;
    if (!st.bose)
      for (std::size_t a = 0; a < order.size(); ++a)
        for (std::size_t b = a + 1; b < order.size(); ++b) if (order[a] > order[b]) sign = -sign;
    p->scale(Constant::scalar_type(sign));
    p->append(1, nop_expr<S>(n, st.vac), Product::Flatten::No);
  }
  return ExprPtr(p);
}
void install_contractions(World& w) {
  w.model.tensor_override = [](const num::Model& m, const AbstractTensor& t, const std::vector<std::uint64_t>& b,
                               const std::vector<std::uint64_t>& k, const std::vector<std::uint64_t>&) -> std::optional<num::F> {
    auto l = t._label();
    const bool hole = l == L"hole", part = l == L"part";
    if (!hole && !part && l != L"any") return std::nullopt;
    if (b[0] != k[0]) return num::F();
    const bool occ = m.occ_bits >> ((b[0] - 1) >> 16 & 0xff) & 1;
    return (hole && !occ) || (part && occ) ? num::F() : num::F(1, 0);
  };
}

struct Connect {
  std::vector<std::pair<std::size_t, std::size_t>> need, avoid;
  bool ok(const std::vector<MOp>& ops, const Matching& m) const {
    auto joined = [&](std::size_t a, std::size_t b) {
      for (auto& [x, y] : m.pairs)
        if ((ops[x].nop == (int)a && ops[y].nop == (int)b) || (ops[x].nop == (int)b && ops[y].nop == (int)a)) return true;
      return false;
    };
    for (auto& [a, b] : need) if (!joined(a, b)) return false;
    for (auto& [a, b] : avoid) if (joined(a, b)) return false;
    return true;
  }
  std::string str() const {
    std::string r = "connect";
    for (auto& [a, b] : need) r += " " + std::to_string(a) + "-" + std::to_string(b);
    r += " avoid";
    for (auto& [a, b] : avoid) r += " " + std::to_string(a) + "-" + std::to_string(b);
    return r;
  }
};
Connect random_connect(Src& s, std::size_t n) {
  Connect k;
  for (std::size_t a = 0; a < n; ++a)
    for (std::size_t b = a + 1; b < n; ++b) {
      const int w = s.weighted({5, 2, 1});
      auto p = s.coin() ? std::make_pair(a, b) : std::make_pair(b, a);
      if (w == 1) k.need.push_back(p);
      if (w == 2) k.avoid.push_back(p);
    }
  return k;
}

template <class E> void guard(E&& e) {
  try { e(); } catch (const num::Undefined&) { throw pbt::Discard{}; }
}
void compare(Case& c, const char* what, num::F expected, num::F got, const ExprPtr& r) {
  if (!expected.zero()) c.nontrivial = true;
  if (!(expected == got)) c.fail(std::string(what) + ": expected " + expected.str() + ", got " + got.str() + "\nresult: " + num::show(r));
}


struct Block {
  std::wstring label;
  Attr attr;
  std::vector<IndexSpace> cre, ann;
  int scalar = 1;
};
struct OpProduct {
  std::vector<ExprPtr> factors;   // in order
  std::vector<ExprPtr> tensors;
  std::vector<Nop> nops;
  num::IndexSet ext;
  Constant::scalar_type scalar = 1;
  ExprPtr expr() const { return ex<Product>(scalar, factors.begin(), factors.end(), Product::Flatten::No); }
};

Attr block_attr(Src& s) {
  Attr a;
  a.s = s.pick({Symmetry::Antisymm, Symmetry::Antisymm, Symmetry::Nonsymm, Symmetry::Symm});
  a.b = s.pick({BraKetSymmetry::Conjugate, BraKetSymmetry::Nonsymm, BraKetSymmetry::Symm});
  a.c = ColumnSymmetry::Symm;
  if (a.s == Symmetry::Nonsymm && s.chance(1, 3)) a.c = ColumnSymmetry::Nonsymm;
  return a;
}

OpProduct block_product(Case& c, Setting& st, std::vector<Block>& blocks, int max_ops, const num::IndexSet* fixed_ext) {
  auto& s = c.s;
  auto occ = spaces_with(st.w, true), un = spaces_with(st.w, false);
  const IndexSpace &i = occ[0], &a = un[0];
  OpProduct r;
  r.scalar = random_scalar(s, false);
  const int n = 1 + s.weighted({1, 5, 4, 2});
  int ops = 0;
  for (int q = 0; q < n; ++q) {
    const bool reuse = !blocks.empty() && s.chance(2, 5);
    if (!reuse) {
      Block b;
      const int rank = 1 + s.weighted({3, 4});
      b.attr = block_attr(s);
      const int kind = s.weighted({3, 3, 2, 1, 1});
      for (int k = 0; k < rank; ++k) {
        auto pick = [&](const IndexSpace& d) -> IndexSpace { return s.chance(1, 8) ? common(s, st.w.spaces) : d; };
        switch (kind) {
          case 0: b.cre.push_back(pick(a)); b.ann.push_back(pick(i)); break;    // excitation
          case 1: b.cre.push_back(pick(i)); b.ann.push_back(pick(a)); break;    // deexcitation
          case 2: { auto& g = common(s, st.w.spaces); auto& h = common(s, st.w.spaces); b.cre.push_back(g); b.ann.push_back(s.coin() ? g : h); break; }
          case 3: b.cre.push_back(s.coin() ? a : i); b.ann.push_back(s.coin() ? a : i); break;
          default: if (st.spinfree || s.coin()) { b.cre.push_back(pick(a)); b.ann.push_back(pick(a)); } else { b.cre.push_back(pick(a)); }
        }
      }
      b.label = s.pick({L"t", L"u", L"g", L"f"}) + std::to_wstring(blocks.size());
      if (b.cre.size() != b.ann.size()) { b.attr.b = BraKetSymmetry::Nonsymm; }
      blocks.push_back(b);
    }
    const Block& b = reuse ? blocks[s.below(blocks.size())] : blocks.back();
    if (ops + (int)(b.cre.size() + b.ann.size()) > max_ops) break;
    ops += (int)(b.cre.size() + b.ann.size());
    Nop nop;
    for (auto& sp : b.cre) nop.cre.push_back(st.w.make(sp));
    for (auto& sp : b.ann) nop.ann.push_back(st.w.make(sp));
    const bool free = !fixed_ext && s.chance(1, 8);   // no tensor: external indices
    if (!free) {
      container::svector<Index> bb(nop.cre.begin(), nop.cre.end()), kk(nop.ann.begin(), nop.ann.end());
      r.tensors.push_back(ex<Tensor>(b.label, bra(bb), ket(kk), b.attr.s, b.attr.b, b.attr.c));
      r.factors.push_back(r.tensors.back());
    } else {
      for (auto& x : nop.cre) r.ext.insert(x);
      for (auto& x : nop.ann) r.ext.insert(x);
    }
    r.nops.push_back(nop);
    r.factors.push_back(nop_expr<Statistics::FermiDirac>(nop, st.vac));
  }
  return r;
}

}  // namespace
