// C20: cumulant decompositions. The substitutes for products of operators and the
// relations between cumulants and density matrices must be those of the
// generalized normal order, whatever (antisymmetric) values its ingredients have.
#include "gen.hpp"

#include <SeQuant/core/op.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/domain/mbpt/antisymmetrizer.hpp>
#include <SeQuant/domain/mbpt/rdm.hpp>

#include <algorithm>
#include <numeric>

namespace {
using namespace sequant;
namespace mb = sequant::mbpt;
namespace dec = sequant::mbpt::decompositions;
using Fp = num::F;
using gen::World;
using pbt::Case;
using pbt::Src;
using Orbs = std::vector<int>;
using Indices = std::vector<Index>;
using Array = std::function<Fp(const Orbs&, const Orbs&)>;

std::uint64_t mix(std::uint64_t a, std::uint64_t b) { return num::mix(a * 0x9e3779b97f4a7c15ull + b + 1); }
Fp random_value(std::uint64_t h) { return Fp::of((long long)(num::mix(h) % 2000000)); }
std::string show(const ExprPtr& e) { return num::show(e); }
Fp scalar(const Constant::scalar_type& c) { return num::Model{}.constant(Constant(c)); }

/// sorts, returns the sign, 0 when an orbital is repeated
int sort_sign(Orbs& v) {
  int s = 1;
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t j = i + 1; j < v.size(); ++j) {
      if (v[i] == v[j]) return 0;
      if (v[i] > v[j]) std::swap(v[i], v[j]), s = -s;
    }
  return s;
}
/// arbitrary antisymmetric array
Array antisymmetric(std::uint64_t seed) {
  return [seed](Orbs b, Orbs k) {
    const int s = sort_sign(b) * sort_sign(k);
    if (!s) return Fp();
    auto h = mix(seed, b.size());
    for (auto x : b) h = mix(h, (std::uint64_t)x);
    for (auto x : k) h = mix(h, (std::uint64_t)x);
    return s > 0 ? random_value(h) : -random_value(h);
  };
}
/// antisymmetrized product with every distinct arrangement taken once
Array wedge(Array f, std::size_t m, Array g) {
  return [f, m, g](const Orbs& b, const Orbs& k) {
    const auto n = b.size();
    Fp r;
    auto split = [&](const Orbs& v, unsigned mask, Orbs& a, Orbs& c) {
      int s = 1;
      for (std::size_t i = 0; i < n; ++i)
        if (mask >> i & 1) {
          if (c.size() % 2) s = -s;
          a.push_back(v[i]);
        } else c.push_back(v[i]);
      return s;
    };
    for (unsigned x = 0; x < (1u << n); ++x) {
      if ((std::size_t)__builtin_popcount(x) != m) continue;
      for (unsigned y = 0; y < (1u << n); ++y) {
        if ((std::size_t)__builtin_popcount(y) != m) continue;
        Orbs b1, b2, k1, k2;
        const int s = split(b, x, b1, b2) * split(k, y, k1, k2);
        const auto v = f(b1, k1) * g(b2, k2);
        r += s > 0 ? v : -v;
      }
    }
    return r;
  };
}
Array plus(Array f, Array g) { return [f, g](const Orbs& b, const Orbs& k) { return f(b, k) + g(b, k); }; }
Array minus(Array f, Array g) { return [f, g](const Orbs& b, const Orbs& k) { return f(b, k) - g(b, k); }; }
Array times(Fp c, Array f) { return [f, c](const Orbs& b, const Orbs& k) { return c * f(b, k); }; }
Array nothing() { return [](const Orbs&, const Orbs&) { return Fp(); }; }

/// values of labelled arrays; operators have label "a"
using Arrays = std::map<std::pair<std::wstring, std::size_t>, Array>;
using Where = std::map<Index, int>;

void gather(const ExprPtr& e, Where& w) {
  if (e->is<Tensor>())
    for (auto& i : e->as<Tensor>().const_braket_indices()) w[i] = 0;
  else if (e->is<FNOperator>()) {
    for (auto& o : e->as<FNOperator>().creators()) w[o.index()] = 0;
    for (auto& o : e->as<FNOperator>().annihilators()) w[o.index()] = 0;
  } else if (e->is<Product>())
    for (auto& x : e->as<Product>().factors()) gather(x, w);
  else if (e->is<Sum>())
    for (auto& x : e->as<Sum>().summands()) gather(x, w);
}
Fp value_at(Case& c, const ExprPtr& e, const Arrays& t, const Where& w) {
  auto get = [&](const std::wstring& l, const Orbs& b, const Orbs& k) {
    if (l == L"h") {
      std::uint64_t x = b.size();
      for (auto o : b) x = mix(x, (std::uint64_t)o);
      x = mix(x, 77);
      for (auto o : k) x = mix(x, (std::uint64_t)o);
      return random_value(x);
    }
    c.require(b.size() == k.size(), "unequal ranks in " + show(e));
    auto i = t.find({l, b.size()});
    if (i == t.end()) c.fail("unexpected " + gen::u8(l) + " of rank " + std::to_string(b.size()) + " in the result");
    return i->second(b, k);
  };
  Orbs b, k;
  if (e->is<Constant>()) return scalar(e->as<Constant>().value());
  if (e->is<Tensor>()) {
    for (auto& i : e->as<Tensor>().bra()) b.push_back(w.at(i));
    for (auto& i : e->as<Tensor>().ket()) k.push_back(w.at(i));
    return get(std::wstring(e->as<Tensor>().label()), b, k);
  }
  if (e->is<FNOperator>()) {
    for (auto& o : e->as<FNOperator>().annihilators()) b.push_back(w.at(o.index()));
    for (auto& o : e->as<FNOperator>().creators()) k.push_back(w.at(o.index()));
    return get(L"a", b, k);
  }
  if (e->is<Product>()) {
    auto r = scalar(e->as<Product>().scalar());
    for (auto& x : e->as<Product>().factors()) r *= value_at(c, x, t, w);
    return r;
  }
  if (e->is<Sum>()) {
    Fp r;
    for (auto& x : e->as<Sum>().summands()) r += value_at(c, x, t, w);
    return r;
  }
  c.fail("unexpected " + show(e));
}
/// value with the indices that have no value yet summed over, in each summand
Fp value(Case& c, const ExprPtr& e, const Arrays& t, const Where& w, int n) {
  if (e->is<Sum>()) {
    Fp r;
    for (auto& x : e->as<Sum>().summands()) r += value(c, x, t, w, n);
    return r;
  }
  Where all;
  gather(e, all);
  Indices free;
  for (auto& [i, x] : all)
    if (auto j = w.find(i); j != w.end()) x = j->second;
    else free.push_back(i);
  Fp r;
  std::size_t todo = 1;
  for (std::size_t i = 0; i < free.size(); ++i) todo *= n;
  for (std::size_t k = 0; k < todo; ++k) {
    auto rest = k;
    for (auto& i : free) all[i] = (int)(rest % n), rest /= n;
    r += value_at(c, e, t, all);
  }
  return r;
}

struct Setup {
  World w;
  std::uint64_t seed;
  std::vector<IndexSpace> spaces;
};
Setup make(Case& c, bool spinfree = false) {
  Setup s;
  gen::WorldOptions o;
  o.spin = 0;
  s.w = gen::make_world(c.s, o);
  auto ctx = get_default_context();
  ctx.set(spinfree ? SPBasis::Spinfree : SPBasis::Spinor);
  set_default_context(ctx);
  s.seed = c.s.bits();
  s.spaces.push_back(c.s.pick(s.w.spaces));
  while (s.spaces.size() < 3 && c.s.coin()) s.spaces.push_back(c.s.pick(s.w.spaces));
  c.note(s.w.name);
  return s;
}
Indices indices(Src& s, Setup& st, std::size_t n) {
  Indices r;
  for (std::size_t i = 0; i < n; ++i) r.push_back(st.w.make(s.pick(st.spaces)));
  s.shuffle(r);
  return r;
}
template <class V> container::svector<Index> list(const V& v) { return {v.begin(), v.end()}; }
ExprPtr op(const Indices& annihilators, const Indices& creators) { return ex<FNOperator>(cre(list(creators)), ann(list(annihilators))); }
ExprPtr tensor(const std::wstring& l, const Indices& b, const Indices& k) { return ex<Tensor>(l, bra(list(b)), ket(list(k))); }
Orbs at(const Indices& v, const Where& w) {
  Orbs r;
  for (auto& i : v) r.push_back(w.at(i));
  return r;
}
Where somewhere(Src& s, const Indices& a, const Indices& b, int n) {
  Where w;
  // mostly different orbitals in either set
  for (auto* v : {&a, &b}) {
    Orbs o(n);
    std::iota(o.begin(), o.end(), 0);
    s.shuffle(o);
    for (std::size_t i = 0; i < v->size(); ++i) w[(*v)[i]] = s.chance(1, 20) ? (int)s.below(n) : o[i % n];
  }
  return w;
}

// --- antisymmetrization ----------------------------------------------------------------
void f_antisymmetrize(Case& c) {
  auto& s = c.s;
  auto st = make(c);
  auto one_term = [&](ExprPtr& e, Array& f, const Indices& b, const Indices& k) {
    auto p = std::make_shared<Product>();
    std::size_t pos = 0, nf = 0;
    f = nullptr;
    const auto scale = s.chance(1, 3) ? gen::random_scalar(s) : Constant::scalar_type(1);
    auto total = scalar(scale);
    bool has_op = false;
    std::map<std::pair<std::wstring, std::size_t>, int> same;
    if (s.chance(1, 5)) {
      const auto x = gen::random_scalar(s);
      total *= scalar(x);
      p->append(1, ex<Constant>(x), Product::Flatten::No);
    }
    std::size_t m = 0;
    while (pos < b.size()) {
      const auto r = 1 + s.below((std::uint32_t)std::min<std::size_t>(b.size() - pos, 2));
      Indices b1(b.begin() + pos, b.begin() + pos + r), k1(k.begin() + pos, k.begin() + pos + r);
      pos += r;
      Array g;
      if (!has_op && s.chance(1, 3)) {
        has_op = true;
        p->append(1, op(b1, k1));
        g = antisymmetric(mix(st.seed, 1));
      } else {
        const std::wstring l = s.pick({L"κ", L"γ", L"t"});
        p->append(1, tensor(l, b1, k1));
        g = antisymmetric(mix(st.seed, num::hash(l)));
        total *= Fp::of(++same[{l, r}]).inv();
      }
      f = f ? wedge(f, m, g) : g;
      m += r, ++nf;
    }
    p->scale(scale);
    f = times(total, f);
    e = p;
    return nf;
  };
  const auto n = 1 + s.below(4);
  auto i = indices(s, st, 2 * n);
  const Indices b(i.begin(), i.begin() + n), k(i.begin() + n, i.end());
  ExprPtr e;
  Array f = nothing();
  const int nt = n > 3 ? 1 : 1 + (int)s.below(3);
  if (nt == 1) c.nontrivial = one_term(e, f, b, k) > 1;
  else {
    // same orders of indices in all terms
    auto sum = std::make_shared<Sum>();
    for (int t = 0; t < nt; ++t) {
      ExprPtr x;
      Array g;
      if (one_term(x, g, b, k) > 1) c.nontrivial = true;
      sum->append(x);
      f = plus(f, g);
    }
    e = sum;
    if (!e->is<Sum>()) throw pbt::Discard{};
  }
  c.note(show(e));
  Arrays t;
  for (std::size_t r = 1; r <= 4; ++r) {
    t[{L"a", r}] = antisymmetric(mix(st.seed, 1));
    for (auto l : {L"κ", L"γ", L"t"}) t[{l, r}] = antisymmetric(mix(st.seed, num::hash(l)));
  }
  auto before = e->clone();
  const auto got = mb::antisymmetrize(e).result;
  c.require(*before == *e, "the argument was changed to " + show(e));
  for (int r = 0; r < 4; ++r) {
    auto w = somewhere(s, b, k, 6);
    c.require(value_at(c, got, t, w) == f(at(b, w), at(k, w)), "not antisymmetrized: " + show(got));
  }
}

// --- cumulants and density matrices ----------------------------------------------------
struct Ingredients {
  Array k1, k2, k3, a1, a2;
};
Array gamma2(const Ingredients& x) { return plus(x.k2, times(Fp::of(2).inv(), wedge(x.k1, 1, x.k1))); }
Array gamma3(const Ingredients& x) {
  return plus(x.k3, plus(wedge(x.k1, 1, x.k2), times(Fp::of(6).inv(), wedge(x.k1, 1, wedge(x.k1, 1, x.k1)))));
}
/// one-body operator in generalized normal order
Array normal1(const Ingredients& x) { return minus(x.a1, x.k1); }
Array normal2(const Ingredients& x) { return minus(minus(x.a2, wedge(x.k1, 1, normal1(x))), gamma2(x)); }
/// three-body operator less the one in normal order
Array rest3(const Ingredients& x) { return plus(plus(wedge(x.k1, 1, normal2(x)), wedge(gamma2(x), 2, normal1(x))), gamma3(x)); }

Ingredients arbitrary(std::uint64_t seed) {
  return {antisymmetric(mix(seed, 11)), antisymmetric(mix(seed, 12)), antisymmetric(mix(seed, 13)), antisymmetric(mix(seed, 14)), antisymmetric(mix(seed, 15))};
}
Arrays named(const Ingredients& x) {
  return {{{L"κ", 1}, x.k1}, {{L"κ", 2}, x.k2}, {{L"κ", 3}, x.k3}, {{L"γ", 1}, x.k1}, {{L"γ", 2}, gamma2(x)}, {{L"γ", 3}, gamma3(x)}, {{L"a", 1}, x.a1}, {{L"a", 2}, x.a2}};
}
void without(Arrays& t, std::initializer_list<std::pair<std::wstring, std::size_t>> l) {
  for (auto& x : l) t.erase(x);
}

void f_cumulants(Case& c) {
  auto& s = c.s;
  auto st = make(c);
  const auto n = 1 + s.below(3);
  auto i = indices(s, st, 2 * n);
  const Indices b(i.begin(), i.begin() + n), k(i.begin() + n, i.end());
  const auto e = tensor(L"κ", b, k);
  c.note(show(e));
  c.nontrivial = n > 1;
  const auto before = e->clone();
  const auto got = n == 1 ? dec::cumu_to_density(e) : n == 2 ? dec::cumu2_to_density(e) : dec::cumu3_to_density(e);
  c.require(*before == *e, "the argument was changed to " + show(e));
  const auto x = arbitrary(st.seed);
  auto t = named(x);
  without(t, {{L"κ", 1}, {L"κ", 2}, {L"κ", 3}, {L"a", 1}, {L"a", 2}});
  const auto f = n == 1 ? x.k1 : n == 2 ? x.k2 : x.k3;
  for (int r = 0; r < 4; ++r) {
    auto w = somewhere(s, b, k, 6);
    c.require(value_at(c, got, t, w) == f(at(b, w), at(k, w)), "not the cumulant: " + show(got));
  }
}

// --- operators in normal order ---------------------------------------------------------
void f_operators(Case& c) {
  auto& s = c.s;
  auto st = make(c);
  const auto n = (std::size_t)s.pick({3, 2, 1, 3, 3});
  auto i = indices(s, st, 2 * n);
  const Indices b(i.begin(), i.begin() + n), k(i.begin() + n, i.end());
  const auto e = op(b, k);
  c.nontrivial = n > 1;
  auto x = arbitrary(st.seed);
  auto t = named(x);
  t[{L"a", 1}] = x.a1;
  ExprPtr got;
  Array f;
  const auto what = n < 3 ? 0 : s.below(4);
  c.note(show(e) + " " + std::to_string(what));
  const auto before = e->clone();
  if (n == 1) got = dec::one_body_sub(e), f = normal1(x), without(t, {{L"γ", 1}});
  else if (n == 2) {
    // the one-body operators in it are the normal-ordered ones
    got = dec::two_body_decomp(e), f = normal2(x), without(t, {{L"γ", 1}, {L"γ", 2}});
    t[{L"a", 1}] = normal1(x);
  } else if (what == 0 || what == 3) {
    const bool approximate = what == 3 || s.coin();
    if (approximate) x.k3 = nothing();
    f = rest3(x);
    std::pair<std::vector<Index>, std::vector<Index>> p;
    if (what == 0) {
      std::tie(got, p) = dec::three_body_decomp(e, approximate);
      without(t, {{L"γ", 1}, {L"γ", 2}, {L"γ", 3}});
    } else {
      std::tie(got, p) = dec::three_body_decomposition(e, 2);
      without(t, {{L"κ", 1}, {L"κ", 2}, {L"κ", 3}, {L"γ", 3}});
    }
    if (approximate) without(t, {{L"κ", 3}});
    c.require(p.first == b && p.second == k, "wrong pairing of indices");
  } else if (what == 1) {
    x.k2 = x.k3 = nothing();
    f = rest3(x);
    got = dec::three_body_decomposition(e, 1).first;
    without(t, {{L"κ", 1}, {L"κ", 2}, {L"κ", 3}, {L"γ", 2}, {L"γ", 3}});
  } else {
    // the terms with operators only, as tensors for sums of like terms
    x.k3 = nothing();
    auto y = x;
    y.a1 = y.a2 = nothing();
    f = minus(rest3(x), rest3(y));
    got = dec::three_body_decomposition(e, 2, true).first;
    t.clear();
    t[{L"DE2", 3}] = wedge(x.k1, 1, x.a2);
    t[{L"D2E", 3}] = wedge(gamma2(x), 2, x.a1);
    t[{L"DDE", 3}] = times(Fp::of(2).inv(), wedge(x.k1, 1, wedge(x.k1, 1, x.a1)));
  }
  c.require(*before == *e, "the argument was changed to " + show(e));
  for (int r = 0; r < 3; ++r) {
    auto w = somewhere(s, b, k, 6);
    c.require(value_at(c, got, t, w) == f(at(b, w), at(k, w)), "wrong: " + show(got));
  }
}

// --- pairing of indices ------------------------------------------------------------------
void f_pairing(Case& c) {
  auto& s = c.s;
  auto st = make(c, true);
  const auto n = 2 + s.below(4);
  auto i = indices(s, st, 2 * n);
  const Indices up(i.begin(), i.begin() + n), lo(i.begin() + n, i.end());
  // loops of some of the pairs of a permutation
  std::vector<int> pi(n), order(n);
  std::iota(pi.begin(), pi.end(), 0);
  std::iota(order.begin(), order.end(), 0);
  s.shuffle(pi), s.shuffle(order);
  const auto m = s.coin() ? n : 1 + s.below((std::uint32_t)n);
  Indices nu, nl;
  std::vector<bool> in(n), seen(n);
  for (std::size_t j = 0; j < m; ++j) nu.push_back(up[order[j]]), nl.push_back(lo[pi[order[j]]]), in[order[j]] = true;
  int loops = 0;
  for (std::size_t j = 0; j < n; ++j) {
    if (seen[j]) continue;
    bool all = true;
    for (int k = (int)j; !seen[k]; k = pi[k]) seen[k] = true, all = all && in[k];
    loops += all;
  }
  std::string text;
  for (std::size_t j = 0; j < m; ++j) text += std::to_string(order[j]) + ">" + std::to_string(pi[order[j]]) + " ";
  c.note("pairs " + text);
  c.nontrivial = n > 2 && m > 1;
  const auto got = mb::antisymm::num_closed_loops(up, lo, nu, nl);
  c.require(got == loops, std::to_string(got) + " loops, not " + std::to_string(loops));
  // bringing factors into the original pairing
  auto sum = std::make_shared<Sum>();
  const int nt = 1 + (int)s.below(3);
  for (int k = 0; k < nt; ++k) {
    auto p = std::make_shared<Product>();
    p->scale(gen::random_scalar(s, false));
    auto u = up, l = lo;
    s.shuffle(u), s.shuffle(l);
    for (std::size_t pos = 0; pos < n;) {
      const auto r = n - pos > 1 && s.coin() ? 2 : 1;
      Indices b(l.begin() + pos, l.begin() + pos + r), x(u.begin() + pos, u.begin() + pos + r);
      p->append(1, s.chance(1, 3) ? op(b, x) : tensor(s.pick({L"γ", L"κ"}), b, x));
      pos += r;
    }
    sum->append(p);
  }
  if (!sum->is<Sum>()) throw pbt::Discard{};
  const ExprPtr e = sum;
  c.note(show(e));
  Arrays t;
  for (std::size_t r = 1; r <= 2; ++r)
    for (auto l : {L"γ", L"κ", L"a"}) t[{l, r}] = antisymmetric(mix(st.seed, num::hash(l)));
  std::vector<Where> ws;
  std::vector<Fp> before;
  for (int r = 0; r < 3; ++r) ws.push_back(somewhere(s, lo, up, 6)), before.push_back(value_at(c, e, t, ws.back()));
  const auto out = mb::antisymm::max_similarity(up, lo, e);
  for (int r = 0; r < 3; ++r) c.require(value_at(c, out, t, ws[r]) == before[r], "value changed: " + show(out));
  auto paired = [&](const Index& l, const Index& u) { return std::find(up.begin(), up.end(), u) - up.begin() == std::find(lo.begin(), lo.end(), l) - lo.begin(); };
  auto check = [&](const ExprPtr& y, auto& self) -> void {
    Indices l, u;
    if (y->is<Tensor>()) {
      for (auto& q : y->as<Tensor>().bra()) l.push_back(q);
      for (auto& q : y->as<Tensor>().ket()) u.push_back(q);
    } else if (y->is<FNOperator>()) {
      for (auto& q : y->as<FNOperator>().annihilators()) l.push_back(q.index());
      for (auto& q : y->as<FNOperator>().creators()) u.push_back(q.index());
    } else if (y->is<Product>() || y->is<Sum>()) {
      for (auto& z : *y) self(z, self);
      return;
    }
    if (l.size() != 2) return;
    const int now = paired(l[0], u[0]) + paired(l[1], u[1]), other = paired(l[0], u[1]) + paired(l[1], u[0]);
    c.require(now >= other, "could be more similar: " + show(y));
  };
  check(out, check);
}

// --- substitution in expressions, summed over the spins of a singlet -------------------
/// orbital 2k+spin; invariant under rotations of spin
Array singlet(std::uint64_t seed, std::size_t rank) {
  auto spatial = [seed](std::vector<std::pair<int, int>> p) {
    std::sort(p.begin(), p.end());
    auto h = mix(seed, p.size());
    for (auto [x, y] : p) h = mix(mix(h, (std::uint64_t)x), (std::uint64_t)y);
    return random_value(h);
  };
  if (rank == 1) return [=](const Orbs& b, const Orbs& k) { return b[0] % 2 == k[0] % 2 ? spatial({{b[0] / 2, k[0] / 2}}) : Fp(); };
  return [=](const Orbs& b, const Orbs& k) {
    Fp r;
    if (b[0] % 2 == k[0] % 2 && b[1] % 2 == k[1] % 2) r += spatial({{b[0] / 2, k[0] / 2}, {b[1] / 2, k[1] / 2}});
    if (b[0] % 2 == k[1] % 2 && b[1] % 2 == k[0] % 2) r += -spatial({{b[0] / 2, k[1] / 2}, {b[1] / 2, k[0] / 2}});
    return r;
  };
}
Array spin_summed(Array f) {
  return [f](const Orbs& b, const Orbs& k) {
    Fp r;
    for (unsigned m = 0; m < (1u << b.size()); ++m) {
      Orbs x, y;
      for (std::size_t i = 0; i < b.size(); ++i) x.push_back(2 * b[i] + (m >> i & 1)), y.push_back(2 * k[i] + (m >> i & 1));
      r += f(x, y);
    }
    return r;
  };
}
/// an operator with a coefficient contracted with some or all of its indices
ExprPtr operator_term(Case& c, Setup& st, int& three, bool closed) {
  auto& s = c.s;
  const auto n = (std::size_t)s.pick({3, 3, 3, 2, 1});
  auto i = indices(s, st, 2 * n);
  const Indices b(i.begin(), i.begin() + n), k(i.begin() + n, i.end());
  if (n == 3) ++three;
  auto p = std::make_shared<Product>();
  p->scale(gen::random_scalar(s, false));
  Indices cb, ck;
  for (auto& j : b) if (closed || s.coin()) ck.push_back(j);
  for (auto& j : k) if (closed || s.coin()) cb.push_back(j);
  if (!cb.empty() || !ck.empty()) p->append(1, ex<Tensor>(L"h", bra(list(cb)), ket(list(ck)), aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
  p->append(1, op(b, k));
  return p;
}
/// an operator of the given indices
ExprPtr open_term(Case& c, Indices b, Indices k, int& three) {
  auto& s = c.s;
  s.shuffle(b), s.shuffle(k);
  if (s.chance(1, 4)) {
    auto p = std::make_shared<Product>();
    p->append(1, ex<Tensor>(L"h", bra(list(Indices{b[0]})), ket(list(Indices{k[0]})), aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
    p->append(1, op({b[1], b[2]}, {k[1], k[2]}));
    return p;
  }
  ++three;
  if (s.coin()) return op(b, k);
  auto p = std::make_shared<Product>();
  p->scale(gen::random_scalar(s, false));
  p->append(1, op(b, k));
  return p;
}
void f_substitution(Case& c) {
  auto& s = c.s;
  const bool fast = s.chance(1, 3);
  auto st = make(c, !fast);
  int three = 0;
  ExprPtr e;
  const auto how = s.below(3);
  const auto six = indices(s, st, 6);
  const Indices ob(six.begin(), six.begin() + 3), ok(six.begin() + 3, six.end());
  if (how == 0) e = op(ob, ok), ++three;
  else if (how == 1) e = operator_term(c, st, three, false);
  else {
    auto sum = std::make_shared<Sum>();
    const int n = 1 + (int)s.below(3);
    const bool open = s.coin();
    for (int i = 0; i < n; ++i) sum->append(open ? open_term(c, ob, ok, three) : operator_term(c, st, three, true));
    e = sum;
  }
  c.note(show(e) + (fast ? " fast" : ""));
  c.nontrivial = three > 0 && how > 0;
  const int n = 2;
  // every index has a value or is summed over; the ones in a single place keep theirs
  std::map<Index, int> uses;
  auto count = [&](const ExprPtr& x, auto& self) -> void {
    if (x->is<Tensor>()) for (auto& i : x->as<Tensor>().const_braket_indices()) ++uses[i];
    else if (x->is<FNOperator>()) {
      for (auto& o : x->as<FNOperator>().creators()) ++uses[o.index()];
      for (auto& o : x->as<FNOperator>().annihilators()) ++uses[o.index()];
    } else if (x->is<Sum>()) self(*x->begin(), self);
    else for (auto& y : *x) self(y, self);
  };
  count(e, count);
  Where w;
  for (auto& [i, u] : uses) if (u == 1) w[i] = (int)s.below(n);
  Arrays before, after;
  if (fast) {
    auto x = arbitrary(st.seed);
    x.k3 = nothing();
    auto y = x;
    y.a1 = y.a2 = nothing();
    before[{L"a", 3}] = minus(rest3(x), rest3(y));
    for (auto* t : {&before, &after}) (*t)[{L"a", 1}] = x.a1, (*t)[{L"a", 2}] = x.a2;
    after[{L"DE2", 3}] = wedge(x.k1, 1, x.a2);
    after[{L"D2E", 3}] = wedge(gamma2(x), 2, x.a1);
    after[{L"DDE", 3}] = times(Fp::of(2).inv(), wedge(x.k1, 1, wedge(x.k1, 1, x.a1)));
  } else {
    Ingredients x{singlet(mix(st.seed, 11), 1), singlet(mix(st.seed, 12), 2), nothing(), singlet(mix(st.seed, 14), 1), singlet(mix(st.seed, 15), 2)};
    before[{L"a", 3}] = spin_summed(rest3(x));
    for (auto* t : {&before, &after}) (*t)[{L"a", 1}] = spin_summed(x.a1), (*t)[{L"a", 2}] = spin_summed(x.a2);
    after[{L"Γ", 1}] = spin_summed(x.k1);
    after[{L"Γ", 2}] = spin_summed(gamma2(x));
  }
  const auto want = [&] {
    Fp r;
    auto all = e->is<Sum>() ? std::vector<ExprPtr>(e->as<Sum>().summands().begin(), e->as<Sum>().summands().end()) : std::vector<ExprPtr>{e};
    for (auto& x : all) r += value(c, x, before, w, n);
    return r;
  };
  const auto expected = want();
  auto input = e->clone();
  const auto got = dec::three_body_substitution(input, 2, fast);
  c.require(value(c, got, after, w, n) == expected, "wrong: " + show(got));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C20";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"antisymmetrize", "products of up to 4 tensors and an operator; non-trivial: more than one factor", f_antisymmetrize, 2000, 40000},
      {"cumulants", "cumulants of ranks 1-3 as density matrices; non-trivial: rank above 1", f_cumulants, 1000, 10000},
      {"operators", "operators of ranks 1-3 in generalized normal order, exact and approximate; non-trivial: rank above 1", f_operators, 1000, 10000},
      {"pairing", "loops of up to 5 pairs and sums of products in which pairs are permuted; non-trivial: more than two pairs", f_pairing, 2000, 40000},
      {"substitution", "three-body operators in sums of products with coefficients, spin-summed for singlets or in terms of sums of like terms; non-trivial: one in a product or sum", f_substitution, 500, 10000},
  };
  return pbt::run(p, argc, argv);
}
