#include "numeric.hpp"

#include <sstream>

#include <SeQuant/core/expressions/abstract_tensor.hpp>
#include <SeQuant/core/reserved.hpp>

#include <algorithm>
#include <array>
#include <cmath>

#include "pbt.hpp"

namespace num {
using namespace sequant;

std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
std::uint64_t hash(const std::wstring_view s) {
  std::uint64_t h = 1469598103934665603ull;
  for (wchar_t c : s) h = (h ^ (std::uint64_t)c) * 1099511628211ull;
  return mix(h);
}
static std::uint64_t comb(std::uint64_t a, std::uint64_t b) { return mix(a * 3 + mix(b + 0x1234567)); }

F F::inv() const {
  if (zero()) throw Undefined("division by zero");
  std::uint64_t n = ((std::uint64_t)re * re + (std::uint64_t)im * im) % P;
  F ni = F((std::uint32_t)n, 0).pow(P - 2);
  return conj() * ni;
}
std::string F::str() const { return "(" + std::to_string(re) + "," + std::to_string(im) + ")"; }

std::vector<Orb> Model::orbitals(const IndexSpace& s) const {
  std::vector<Orb> r;
  const std::uint32_t qns = (std::uint32_t)s.qns().to_int32();
  const std::uint32_t type = (std::uint32_t)s.type().to_int32();
  const std::uint32_t sp = qns & 3u, uni = (qns & ~3u) & 0x7f;
  if (s.attr() == IndexSpace::Attr::reserved || type == 0x80000000u) {  // unregistered space: by label
    const int n = default_extent;
    std::uint32_t u = 0x80 | (std::uint32_t)(hash(s.base_key()) & 0x3f);
    for (int k = 0; k < n; ++k) r.push_back(u << 24 | 0xff0000 | k);
    return r;
  }
  for (int b = 0; b < 31; ++b) {
    if (!(type >> b & 1)) continue;
    auto it = extent.find({(int)uni, b});
    const int n = it == extent.end() ? default_extent : it->second;
    for (int sigma = 0; sigma < 2; ++sigma) {
      if (spin && sp != 0 && !(sp >> sigma & 1)) continue;
      if ((!spin || sp == 0) && sigma == 1) continue;
      for (int k = 0; k < n; ++k)
        r.push_back(uni << 24 | (std::uint32_t)b << 16 | (spin && sp ? sigma + 1 : 0) << 8 | k);
    }
  }
  return r;
}

F Model::random(std::uint64_t h, bool real) const {
  std::uint64_t a = mix(h ^ seed * 0x9e3779b97f4a7c15ull);
  return F((std::uint32_t)(a % P), real ? 0 : (std::uint32_t)(mix(a) % P));
}
F Model::variable(const std::wstring& label) const {
  if (variable_override)
    if (auto v = variable_override(label)) return *v;
  return random(comb(hash(label), 0x5661));
}
F Model::weight(const Index& ext, Orb o) const {
  if (weight_override) return weight_override(*this, ext, o);
  return random(comb(comb(hash(ext.full_label()), 0x77), o));
}

static F rat(const rational& r) {
  auto md = [](const auto& big) {
    auto v = big % static_cast<long long>(P);
    long long x = static_cast<long long>(v);
    return F::of(x);
  };
  return md(numerator(r)) * md(denominator(r)).inv();
}
F Model::constant(const Constant& c) const {
  F re = rat(c.value().real()), im = rat(c.value().imag());
  return F(re.re, im.re);
}

static int sort_sign(std::vector<std::uint64_t>& v, bool& repeated) {
  int sign = 1;
  repeated = false;
  for (std::size_t i = 1; i < v.size(); ++i)
    for (std::size_t j = i; j > 0 && v[j - 1] >= v[j]; --j) {
      if (v[j - 1] == v[j]) { repeated = true; break; }
      std::swap(v[j - 1], v[j]);
      sign = -sign;
    }
  return sign;
}

F Model::tensor(const AbstractTensor& t, std::wstring label, Symmetry s, BraKetSymmetry b, ColumnSymmetry c,
                std::vector<std::uint64_t> bra, std::vector<std::uint64_t> ket,
                const std::vector<std::uint64_t>& aux) const {
  bool conj = false;
  if (b == BraKetSymmetry::Nonsymm && !label.empty() && label.back() == sequant::adjoint_label) {
    // t⁺{bra;ket} is the conjugate of t{ket;bra}
    label.pop_back();
    std::swap(bra, ket);
    conj = true;
  }
  if (tensor_override)
    if (auto v = tensor_override(*this, t, bra, ket, aux)) return conj ? v->conj() : *v;
  int sign = 1;
  if (s == Symmetry::Antisymm) {
    bool r1, r2;
    sign *= sort_sign(bra, r1);
    sign *= sort_sign(ket, r2);
    if (r1 || r2) return F();
  } else if (s == Symmetry::Symm) {
    std::sort(bra.begin(), bra.end());
    std::sort(ket.begin(), ket.end());
  }
  auto columns = [&](const std::vector<std::uint64_t>& x, const std::vector<std::uint64_t>& y) {
    std::vector<std::pair<std::uint64_t, std::uint64_t>> col;
    for (std::size_t i = 0; i < std::max(x.size(), y.size()); ++i)
      col.emplace_back(i < x.size() ? x[i] : 0, i < y.size() ? y[i] : 0);
    if (s == Symmetry::Nonsymm && c == ColumnSymmetry::Symm) {
      // empty columns do not count
      std::sort(col.begin(), col.end());
    }
    return col;
  };
  auto c1 = columns(bra, ket);
  bool real = false;
  if (b != BraKetSymmetry::Nonsymm) {
    auto c2 = columns(ket, bra);
    if (b == BraKetSymmetry::Symm) {
      c1 = std::min(c1, c2);
      real = true;
    } else {
      if (c1 == c2) real = true;
      if (c2 < c1) { c1 = c2; conj = !conj; }
    }
  }
  std::uint64_t h = hash(label);
  for (auto& [x, y] : c1) h = comb(comb(h, x), y);
  h = comb(h, 0xabc);
  for (auto x : aux) h = comb(h, x);
  F v = random(h, real);
  if (conj) v = v.conj();
  return sign < 0 ? -v : v;
}

// ---------------------------------------------------------------------------
std::vector<Term> distribute(const ExprPtr& e, const Model& m) {
  if (!e) throw Undefined("null expression");
  if (e->is<Constant>()) {
    F v = m.constant(e->as<Constant>());
    if (v.zero()) return {};
    return {Term{v, {}}};
  }
  if (e->is<Variable>()) {
    const auto& v = e->as<Variable>();
    F x = m.variable(std::wstring(v.label()));
    return {Term{v.conjugated() ? x.conj() : x, {}}};
  }
  if (e->is<Power>()) {
    const auto& p = e->as<Power>();
    auto base = distribute(p.base(), m);
    F b{0, 0};
    for (auto& t : base) {
      if (!t.atoms.empty()) throw Undefined("power of non-scalar");
      b += t.coeff;
    }
    const auto& ex = p.exponent();
    long long n = static_cast<long long>(numerator(ex)), d = static_cast<long long>(denominator(ex));
    if (d == 1) {
      if (n == 0) return {Term{F(1, 0), {}}};
      F r = b.pow(n < 0 ? -n : n);
      if (n < 0) r = r.inv();
      return {Term{p.conjugated() ? r.conj() : r, {}}};
    }
    if (d == 2) {
      // multiplicative square root of positive rationals: a root for each
      // prime; real whenever there is a real one
      if (!m.roots) throw Undefined("fractional power");
      if (!p.base()->is<Constant>()) throw Undefined("root of a variable");
      const auto& bv = p.base()->as<Constant>().value();
      if (bv.imag() != 0 || bv.real() <= 0) throw Undefined("root of a non-positive number");
      auto root = [](unsigned long long q) {
        F r(1, 0);
        for (unsigned long long k = 2; q > 1; ++k) {
          if (k > 1000) throw Undefined("root of a big number");
          for (; q % k == 0; q /= k) {
            F x = F::of((long long)k).pow((P + 1) / 4);
            if (!(x * x == F::of((long long)k))) x = F(0, (-F::of((long long)k)).pow((P + 1) / 4).re);
            r *= x;
          }
        }
        return r;
      };
      const F rb = root(static_cast<unsigned long long>(numerator(bv.real()))) * root(static_cast<unsigned long long>(denominator(bv.real()))).inv();
      F r = rb.pow(n < 0 ? -n : n);
      if (n < 0) r = r.inv();
      return {Term{r, {}}};
    }
    throw Undefined("fractional power");
  }
  if (e->is<Sum>()) {
    std::vector<Term> r;
    for (auto& s : e->as<Sum>().summands()) {
      auto x = distribute(s, m);
      r.insert(r.end(), x.begin(), x.end());
    }
    return r;
  }
  if (e->is<Product>()) {
    const auto& p = e->as<Product>();
    F c = m.constant(Constant(p.scalar()));
    std::vector<Term> r;
    if (c.zero()) return r;
    r.push_back(Term{c, {}});
    for (auto& f : p.factors()) {
      auto x = distribute(f, m);
      std::vector<Term> n;
      for (auto& a : r)
        for (auto& b : x) {
          Term t = a;
          t.coeff *= b.coeff;
          t.atoms.insert(t.atoms.end(), b.atoms.begin(), b.atoms.end());
          if (!t.coeff.zero()) n.push_back(std::move(t));
        }
      r = std::move(n);
      if (r.size() > 200000) throw Undefined("too many terms");
    }
    return r;
  }
  return {Term{F(1, 0), {e}}};
}

namespace {
struct Dense {
  std::vector<int> ids;  // index ids
  std::vector<F> v;      // row-major in ids
};
struct TermCtx {
  const Model& m;
  const EvalOptions& o;
  std::vector<Index> idx;                       // id -> index
  std::map<Index, int, Index::FullLabelCompare> id;
  std::vector<std::vector<Orb>> orbs;
  std::vector<int> count;
  int id_of(const Index& i) {
    auto it = id.find(i);
    if (it != id.end()) return it->second;
    int k = (int)idx.size();
    id.emplace(i, k);
    idx.push_back(i);
    orbs.push_back(m.orbitals(i.space()));
    count.push_back(0);
    return k;
  }
};

void note_index(TermCtx& c, const Index& i) {
  if (!i.nonnull()) return;
  ++c.count[c.id_of(i)];
  for (auto& p : i.proto_indices()) note_index(c, p);
}

std::uint64_t slot_key(TermCtx& c, const Index& i, const std::vector<int>& val) {
  if (!i.nonnull()) return 0;
  std::uint64_t k = 1 + c.orbs[c.id.at(i)][val[c.id.at(i)]];
  if (i.has_proto_indices()) {
    std::vector<std::uint64_t> ps;
    for (auto& p : i.proto_indices()) ps.push_back(slot_key(c, p, val));
    if (i.symmetric_proto_indices()) std::sort(ps.begin(), ps.end());
    std::uint64_t h = 0x9999;
    for (auto p : ps) h = comb(h, p);
    k |= (h | 1) << 33;
  }
  return k;
}

template <class Fn>
void for_all(TermCtx& c, const std::vector<int>& ids, std::vector<int>& val, const Fn& f) {
  std::size_t n = ids.size();
  for (int i : ids) {
    val[i] = 0;
    if (c.orbs[i].empty()) return;
  }
  for (;;) {
    f();
    std::size_t k = n;
    while (k > 0) {
      --k;
      if (++val[ids[k]] < (int)c.orbs[ids[k]].size()) break;
      val[ids[k]] = 0;
      if (k == 0) return;
    }
    if (n == 0) return;
  }
}
double volume(TermCtx& c, const std::vector<int>& ids) {
  double r = 1;
  for (int i : ids) r *= c.orbs[i].size();
  return r;
}

Dense tensor_values(TermCtx& c, const AbstractTensor& t, double& work) {
  Dense d;
  auto use = [&](const Index& i, auto& self) -> void {
    if (!i.nonnull()) return;
    int k = c.id_of(i);
    if (std::find(d.ids.begin(), d.ids.end(), k) == d.ids.end()) d.ids.push_back(k);
    for (auto& p : i.proto_indices()) self(p, self);
  };
  std::vector<Index> bra, ket, aux;
  for (const Index& i : t._bra()) bra.push_back(i);
  for (const Index& i : t._ket()) ket.push_back(i);
  for (const Index& i : t._aux()) aux.push_back(i);
  for (auto* v : {&bra, &ket, &aux})
    for (auto& i : *v) use(i, use);
  std::sort(d.ids.begin(), d.ids.end());
  work += volume(c, d.ids);
  if (work > c.o.max_work) throw Undefined("too much work");
  std::vector<int> val(c.idx.size(), 0);
  std::wstring label(t._label());
  const bool is_delta = label == reserved::kronecker_label() ||
                        (label == reserved::overlap_label() && c.m.orthonormal);
  for_all(c, d.ids, val, [&] {
    std::vector<std::uint64_t> b, k, a;
    for (auto& i : bra) b.push_back(slot_key(c, i, val));
    for (auto& i : ket) k.push_back(slot_key(c, i, val));
    for (auto& i : aux) a.push_back(slot_key(c, i, val));
    if (is_delta && b.size() == 1 && k.size() == 1 && a.empty()) {
      // same proto-indexed basis: orthonormal; different: random overlaps
      if ((b[0] >> 33) == (k[0] >> 33)) {
        d.v.push_back(b[0] == k[0] ? F(1, 0) : F());
        return;
      }
    }
    d.v.push_back(c.m.tensor(t, label, t._symmetry(), t._braket_symmetry(), t._column_symmetry(), b, k, a));
  });
  return d;
}

}  // namespace

std::vector<F> elements(const AbstractTensor& t, const Model& m, const std::vector<Index>& ids, double max_work) {
  EvalOptions o;
  o.max_work = max_work;
  TermCtx c{m, o};
  std::set<int> listed;
  for (auto& i : ids) listed.insert(c.id_of(i));
  if (listed.size() != ids.size()) throw Undefined("index listed twice");
  double work = 0;
  Dense d = tensor_values(c, t, work);   // ids sorted = in the order listed
  if (d.ids.size() != ids.size() || c.idx.size() != ids.size()) throw Undefined("not the indices of the tensor");
  return d.v;
}

namespace {
// contract the factors, summing over every index not in `keep`
Dense contract(TermCtx& c, std::vector<Dense> fs, const std::set<int>& keep, double& work) {
  auto multiply = [&](const std::vector<Dense>& in, const std::vector<int>& out_ids) {
    // out = sum over (union - out_ids) of the product of `in`
    std::vector<int> all = out_ids;
    for (auto& f : in)
      for (int i : f.ids)
        if (std::find(all.begin(), all.end(), i) == all.end()) all.push_back(i);
    work += volume(c, all);
    if (work > c.o.max_work) throw Undefined("too much work");
    Dense r;
    r.ids = out_ids;
    r.v.assign((std::size_t)volume(c, out_ids), F());
    std::vector<int> val(c.idx.size(), 0);
    auto offset = [&](const std::vector<int>& ids) {
      std::size_t o = 0;
      for (int i : ids) o = o * c.orbs[i].size() + val[i];
      return o;
    };
    if (volume(c, all) > 0)
      for_all(c, all, val, [&] {
        F x(1, 0);
        for (auto& f : in) {
          F y = f.v[offset(f.ids)];
          if (y.zero()) return;
          x *= y;
        }
        r.v[offset(out_ids)] += x;
      });
    return r;
  };
  for (;;) {
    // choose the index whose elimination gives the smallest loop
    std::set<int> cand;
    for (auto& f : fs)
      for (int i : f.ids)
        if (!keep.count(i)) cand.insert(i);
    if (cand.empty()) break;
    int best = -1;
    double bv = 1e300;
    for (int i : cand) {
      std::set<int> u;
      for (auto& f : fs)
        if (std::find(f.ids.begin(), f.ids.end(), i) != f.ids.end()) u.insert(f.ids.begin(), f.ids.end());
      double v = volume(c, std::vector<int>(u.begin(), u.end()));
      if (v < bv) bv = v, best = i;
    }
    std::vector<Dense> in, rest;
    std::set<int> u;
    for (auto& f : fs) {
      if (std::find(f.ids.begin(), f.ids.end(), best) != f.ids.end()) {
        u.insert(f.ids.begin(), f.ids.end());
        in.push_back(std::move(f));
      } else
        rest.push_back(std::move(f));
    }
    u.erase(best);
    // indices occurring nowhere else can be summed at once
    for (auto it = u.begin(); it != u.end();) {
      bool elsewhere = keep.count(*it) > 0;
      for (auto& f : rest) elsewhere |= std::find(f.ids.begin(), f.ids.end(), *it) != f.ids.end();
      it = elsewhere ? std::next(it) : u.erase(it);
    }
    rest.push_back(multiply(in, std::vector<int>(u.begin(), u.end())));
    fs = std::move(rest);
  }
  std::vector<int> out(keep.begin(), keep.end());
  return multiply(fs, out);
}

// Fock states: fermions as bit mask over registered modes, bosons as
// occupation numbers (unnormalised |n>, b^+|n>=|n+1>, b|n>=n|n-1>)
struct FockState {
  std::uint64_t fermi = 0;
  std::array<std::uint8_t, 16> bose{};
};
using FockVec = std::vector<std::pair<FockState, F>>;

struct Modes {
  std::vector<Orb> fermi, bose;
  int pos(Orb o, bool b) const {
    auto& v = b ? bose : fermi;
    auto it = std::lower_bound(v.begin(), v.end(), o);
    if (it == v.end() || *it != o) throw Undefined("operator outside of the mode universe");
    return (int)(it - v.begin());
  }
};
struct COp { bool create; int mode; bool bose; };

void act(FockVec& v, const COp& op) {
  std::size_t n = 0;
  for (std::size_t k = 0; k < v.size(); ++k) {
    auto [s, y] = v[k];
    if (op.bose) {
      if (op.create) ++s.bose[op.mode];
      else {
        if (!s.bose[op.mode]) continue;
        y *= F::of(s.bose[op.mode]);
        --s.bose[op.mode];
      }
    } else {
      std::uint64_t bit = 1ull << op.mode;
      if (op.create == !!(s.fermi & bit)) continue;
      if (__builtin_popcountll(s.fermi & (bit - 1)) & 1) y = -y;
      s.fermi ^= bit;
    }
    v[n++] = {s, y};
  }
  v.resize(n);
}

struct OpString {  // one NormalOperator
  std::vector<std::pair<int, bool>> ops;  // index id, create; as stored, left to right
  bool bose = false;
  Vacuum vac = Vacuum::Physical;
};
}  // namespace

IndexSet open_indices(const ExprPtr& e) {
  Model m;
  auto terms = distribute(e, m);
  IndexSet r;
  for (auto& t : terms) {
    EvalOptions o;
    TermCtx ctx{m, o};
    for (auto& a : t.atoms) {
      auto* at = dynamic_cast<const AbstractTensor*>(a.get());
      if (!at) throw Undefined("unknown atom");
      for (const Index& i : at->_slots()) note_index(ctx, i);
    }
    for (std::size_t k = 0; k < ctx.idx.size(); ++k)
      if (ctx.count[k] == 1) r.insert(ctx.idx[k]);
  }
  return r;
}
IndexSet all_indices(const ExprPtr& e) {
  IndexSet r;
  std::function<void(const Index&)> add = [&](const Index& i) {
    if (!i.nonnull()) return;
    r.insert(i);
    for (auto& p : i.proto_indices()) add(p);
  };
  std::function<void(const ExprPtr&)> walk = [&](const ExprPtr& x) {
    if (auto* at = dynamic_cast<const AbstractTensor*>(x.get())) {
      for (const Index& i : at->_slots()) add(i);
      return;
    }
    if (x->is<Sum>()) for (auto& s : x->as<Sum>().summands()) walk(s);
    if (x->is<Product>()) for (auto& s : x->as<Product>().factors()) walk(s);
  };
  walk(e);
  return r;
}

F eval(const ExprPtr& e, const Model& m, const EvalOptions& o) {
  auto terms = distribute(e, m);
  F total;
  double work = 0;
  // the space operators act on: all orbitals of the model
  Modes md;
  std::uint64_t occ = 0;
  FockVec ket0;
  if (o.operators) {
    for (auto& [ub, n] : m.extent)
      for (int sg = 0; sg < (m.spin || o.spinfree ? 2 : 1); ++sg)
        for (int k = 0; k < n; ++k)
          (m.bose_universes.count(ub.first) ? md.bose : md.fermi)
              .push_back((std::uint32_t)ub.first << 24 | (std::uint32_t)ub.second << 16 | (m.spin || o.spinfree ? sg + 1 : 0) << 8 | k);
    std::sort(md.fermi.begin(), md.fermi.end());
    std::sort(md.bose.begin(), md.bose.end());
    if (md.fermi.size() > 60 || md.bose.size() > 16) throw Undefined("too many modes");
    for (std::size_t k = 0; k < md.fermi.size(); ++k)
      if (m.occ_bits >> (md.fermi[k] >> 16 & 0xff) & 1) occ |= 1ull << k;
    const std::uint64_t all = md.fermi.empty() ? 0 : ~0ull >> (64 - md.fermi.size());
    if (o.vacuum_expectation)
      ket0.emplace_back(FockState{o.physical_vacuum ? 0 : occ, {}}, F(1, 0));
    else
      for (int q = 0; q < o.kets; ++q) {
        FockState s;
        s.fermi = mix(o.state_seed * 5 + q) & all;
        for (std::size_t k = 0; k < md.bose.size(); ++k) s.bose[k] = mix(o.state_seed * 7 + q * 31 + k) % 3;
        ket0.emplace_back(s, m.random(comb(o.state_seed, q)));
      }
  }
  auto bra_of = [&](const FockState& s) {
    if (o.vacuum_expectation)
      return s.fermi == (o.physical_vacuum ? 0 : occ) && s.bose == FockState{}.bose ? F(1, 0) : F();
    std::uint64_t h = comb(o.state_seed + 99, s.fermi);
    for (std::size_t k = 0; k < md.bose.size(); ++k) if (s.bose[k]) h = comb(comb(h, k), s.bose[k]);
    return m.random(h);
  };
  F xy(1, 0);
  if (o.operators) {
    xy = F();
    for (auto& [s, x] : ket0) xy += bra_of(s) * x;
  }
  for (auto& t : terms) {
    TermCtx c{m, o};
    std::vector<OpString> ops;
    std::vector<const AbstractTensor*> ts;
    for (auto& a : t.atoms) {
      auto* at = dynamic_cast<const AbstractTensor*>(a.get());
      if (!at) throw Undefined("unknown atom " + pbt::to_utf8(a->to_latex()));
      for (const Index& i : at->_slots()) note_index(c, i);
      auto take = [&](const auto& nop, bool bose) {
        OpString s;
        s.bose = bose;
        s.vac = nop.vacuum();
        for (auto& op : nop) s.ops.emplace_back(c.id_of(op.index()), op.action() == Action::Create);
        ops.push_back(std::move(s));
      };
      if (auto* f = dynamic_cast<const FNOperator*>(a.get())) take(*f, false);
      else if (auto* b = dynamic_cast<const BNOperator*>(a.get())) take(*b, true);
      else if (at->_is_cnumber()) ts.push_back(at);
      else throw Undefined("unknown operator");
    }
    std::vector<Dense> fs;
    for (auto* at : ts) fs.push_back(tensor_values(c, *at, work));
    for (std::size_t k = 0; k < c.idx.size(); ++k) {
      bool ext = o.externals ? o.externals->count(c.idx[k]) > 0 : c.count[k] == 1;
      if (!ext) continue;
      Dense w;
      w.ids = {(int)k};
      for (Orb x : c.orbs[k]) w.v.push_back(m.weight(c.idx[k], x));
      fs.push_back(std::move(w));
    }
    std::set<int> keep;
    for (auto& s : ops) for (auto& [id, cr] : s.ops) keep.insert(id);
    if (o.externals)
      for (auto& x : *o.externals)
        if (!c.id.count(x)) {
          F w;
          for (Orb q : m.orbitals(x.space())) w += m.weight(x, q);
          t.coeff *= w;
        }
    if (!o.operators && !ops.empty()) throw Undefined("operator where none is expected");
    if (ops.empty()) {
      Dense r = contract(c, std::move(fs), {}, work);
      total += t.coeff * (r.v.empty() ? F() : r.v[0]) * xy;
      continue;
    }
    Dense amp = contract(c, std::move(fs), keep, work);
    std::vector<int> val(c.idx.size(), -1);
    std::vector<std::size_t> stride(c.idx.size(), 0);
    {
      std::size_t st = 1;
      for (auto k = amp.ids.size(); k-- > 0;) {
        stride[amp.ids[k]] = st;
        st *= c.orbs[amp.ids[k]].size();
      }
    }
    F sum;
    // operators from the right; one NormalOperator at a time
    auto rec = [&](auto& self, std::size_t left, const FockVec& v) -> void {
      if (v.empty()) return;
      if (left == 0) {
        std::size_t off = 0;
        for (int i : amp.ids) off += stride[i] * val[i];
        F a = amp.v[off];
        if (a.zero()) return;
        for (auto& [s, x] : v) sum += bra_of(s) * x * a;
        return;
      }
      auto& op = ops[left - 1];
      std::vector<int> loop;
      for (auto& [id, cr] : op.ops)
        if (val[id] < 0 && std::find(loop.begin(), loop.end(), id) == loop.end()) loop.push_back(id);
      for_all(c, loop, val, [&] {
        work += 1 + (double)v.size();
        if (work > o.max_work) throw Undefined("too much work");
        // spin of each particle, if summed over
        const std::size_t np = op.ops.size() / 2;
        if (o.spinfree) {
          std::size_t nc = 0;
          for (auto& [id, cr] : op.ops) nc += cr;
          if (op.bose || nc * 2 != op.ops.size()) throw Undefined("spin-free operator that is not number-conserving");
        }
        const std::uint32_t nspin = o.spinfree ? 1u << np : 1u;
        FockVec total_w;
        for (std::uint32_t spins = 0; spins < nspin; ++spins) {
          std::vector<COp> cs;
          for (std::size_t q = 0; q < op.ops.size(); ++q) {
            auto& [id, cr] = op.ops[q];
            Orb orb = c.orbs[id][val[id]];
            if (o.spinfree) orb |= ((spins >> (q < np ? q : 2 * np - 1 - q) & 1u) + 1) << 8;
            cs.push_back({cr, md.pos(orb, op.bose), op.bose});
          }
          // normal order w.r.t. the operator's own vacuum
          auto qp_create = [&](const COp& x) {
            if (x.bose || op.vac == Vacuum::Physical) return x.create;
            return x.create != !!(occ >> x.mode & 1);
          };
          bool neg = false;
          for (std::size_t i = 1; i < cs.size(); ++i)
            for (std::size_t j = i; j > 0 && qp_create(cs[j]) && !qp_create(cs[j - 1]); --j) {
              std::swap(cs[j], cs[j - 1]);
              if (!op.bose) neg = !neg;
            }
          FockVec w = v;
          for (auto q = cs.rbegin(); q != cs.rend(); ++q) act(w, *q);
          if (neg) for (auto& [s, x] : w) x = -x;
          if (nspin == 1) total_w = std::move(w);
          else total_w.insert(total_w.end(), w.begin(), w.end());
        }
        if (nspin > 1) {  // merge equal states
          std::map<std::uint64_t, F> acc;
          for (auto& [s, x] : total_w) acc[s.fermi] += x;
          total_w.clear();
          for (auto& [k, x] : acc) if (!x.zero()) total_w.emplace_back(FockState{k, {}}, x);
        }
        auto& w = total_w;
        self(self, left - 1, w);
      });
      for (int i : loop) val[i] = -1;
    };
    rec(rec, ops.size(), ket0);
    total += t.coeff * sum;
  }
  return total;
}

std::string show(const Index& i) {
  return pbt::to_utf8(std::wstring(i.full_label()));
}
std::string show(const ExprPtr& e) {
  if (!e) return "null";
  auto sym = [](const AbstractTensor& t) {
    std::string r;
    r += t._symmetry() == Symmetry::Antisymm ? 'A' : t._symmetry() == Symmetry::Symm ? 'S' : 'N';
    r += t._braket_symmetry() == BraKetSymmetry::Symm ? 'S' : t._braket_symmetry() == BraKetSymmetry::Conjugate ? 'C' : 'N';
    r += t._column_symmetry() == ColumnSymmetry::Symm ? 'S' : 'N';
    return r;
  };
  auto list = [](auto&& r) {
    std::string s;
    for (const Index& i : r) {
      if (!s.empty()) s += ",";
      s += i.nonnull() ? show(i) : "-";
    }
    return s;
  };
  if (e->is<Power>()) {
    auto& p = e->as<Power>();
    std::ostringstream o;
    o << p.exponent();
    return "(" + show(p.base()) + ")^(" + o.str() + ")" + (p.conjugated() ? "^*" : "");
  }
  if (e->is<Constant>() || e->is<Variable>()) return pbt::to_utf8(e->to_latex());
  if (e->is<Sum>()) {
    std::string s = "(";
    for (auto& x : e->as<Sum>().summands()) s += (s.size() > 1 ? " + " : "") + show(x);
    return s + ")";
  }
  if (e->is<Product>()) {
    const auto& p = e->as<Product>();
    std::string s = "[" + pbt::to_utf8(Constant(p.scalar()).to_latex());
    for (auto& x : p.factors()) s += " * " + show(x);
    return s + "]";
  }
  if (auto* t = dynamic_cast<const AbstractTensor*>(e.get())) {
    return pbt::to_utf8(std::wstring(t->_label())) + "{" + list(t->_bra()) + ";" + list(t->_ket()) + ";" +
           list(t->_aux()) + "}:" + sym(*t);
  }
  return pbt::to_utf8(e->to_latex());
}

}  // namespace num
