#include "fock.hpp"

#include <algorithm>

namespace fock {
using namespace sequant;
using num::Undefined;

F dot(const Vec& a, const Vec& b) {
  F r;
  for (std::size_t k = 0; k < a.size(); ++k)
    if (!a[k].zero() && !b[k].zero()) r += a[k] * b[k];
  return r;
}
Vec add(const Vec& a, const Vec& b, F f) {
  Vec r = a;
  for (std::size_t k = 0; k < b.size(); ++k)
    if (!b[k].zero()) r[k] += f * b[k];
  return r;
}
Vec scale(Vec a, F f) {
  for (auto& x : a) x *= f;
  return a;
}

Space::Space(const num::Model& m, bool sf, bool phys) : model(m), spinfree(sf), physical(phys) {
  for (auto& [ub, n] : m.extent)
    if (ub.first == 0)
      for (int sg = 0; sg < (sf ? 2 : 1); ++sg)
        for (int k = 0; k < n; ++k) modes.push_back((std::uint32_t)ub.second << 16 | (sf ? sg + 1 : 0) << 8 | k);
  std::sort(modes.begin(), modes.end());
  if (modes.size() > 12) throw Undefined("too many modes");
  for (std::size_t k = 0; k < modes.size(); ++k)
    if (m.occ_bits >> (modes[k] >> 16 & 0xff) & 1) occ |= 1ull << k;
}
Vec Space::random(std::uint64_t seed) const {
  Vec v(dim());
  for (std::size_t k = 0; k < v.size(); ++k) v[k] = model.random(num::mix(seed * 1000003 + k));
  return v;
}

Table Space::table(const ExprPtr& tf) const {
  std::map<std::vector<std::pair<int, bool>>, F> acc;
  for (auto& t : num::distribute(tf, model)) {
    std::vector<std::pair<Index, bool>> ops;
    bool physical_op = false;
    int nnop = 0;
    std::vector<const AbstractTensor*> ts;
    std::vector<Index> ids;
    auto pos = [&](const Index& i) {
      if (!i.proto_indices().empty()) throw Undefined("proto-indices");
      for (std::size_t k = 0; k < ids.size(); ++k)
        if (ids[k] == i) return k;
      ids.push_back(i);
      return ids.size() - 1;
    };
    for (auto& a : t.atoms) {
      if (a->is<FNOperator>()) {
        if (++nnop > 1) throw Undefined("two normal operators");
        const auto& nop = a->as<FNOperator>();
        physical_op = nop.vacuum() == Vacuum::Physical;
        for (auto& op : nop) ops.emplace_back(op.index(), op.action() == Action::Create);
      } else {
        auto* at = dynamic_cast<const AbstractTensor*>(a.get());
        if (!at || !at->_is_cnumber()) throw Undefined("unknown atom");
        ts.push_back(at);
      }
    }
    std::vector<std::size_t> op_pos;
    for (auto& [i, cr] : ops) op_pos.push_back(pos(i));
    std::vector<std::vector<F>> val;
    std::vector<std::vector<std::size_t>> tpos;
    for (auto* at : ts) {
      std::vector<Index> mine;
      for (const Index& i : at->_slots())
        if (i.nonnull() && std::find(mine.begin(), mine.end(), i) == mine.end()) mine.push_back(i);
      val.push_back(num::elements(*at, model, mine));
      tpos.emplace_back();
      for (auto& i : mine) tpos.back().push_back(pos(i));
    }
    std::vector<std::vector<num::Orb>> orbs;
    double vol = 1;
    for (auto& i : ids) {
      orbs.push_back(model.orbitals(i.space()));
      if (!fixed.count(i)) vol *= orbs.back().size();
    }
    if (vol > 3e6) throw Undefined("operator too big");
    std::vector<std::size_t> cur(ids.size(), 0);
    std::vector<bool> fix(ids.size(), false), wgt(ids.size(), false);
    for (std::size_t k = 0; k < ids.size(); ++k) {
      if (orbs[k].empty()) goto next_term;
      if (auto f = fixed.find(ids[k]); f != fixed.end()) {
        fix[k] = true;
        cur[k] = std::find(orbs[k].begin(), orbs[k].end(), f->second) - orbs[k].begin();
        if (cur[k] == orbs[k].size()) throw Undefined("fixed orbital not in space");
      } else wgt[k] = weighted.count(ids[k]) > 0;
    }
    for (;;) {
      F x = t.coeff;
      for (std::size_t k = 0; k < val.size() && !x.zero(); ++k) {
        std::size_t o = 0;
        for (auto p : tpos[k]) o = o * orbs[p].size() + cur[p];
        x *= val[k][o];
      }
      for (std::size_t k = 0; k < ids.size(); ++k)
        if (wgt[k]) x *= model.weight(ids[k], orbs[k][cur[k]]);
      if (!x.zero()) {
        const std::size_t n = ops.size(), np = n / 2;
        if (spinfree) {
          std::size_t nc = 0;
          for (auto& o : ops) nc += o.second;
          if (nc * 2 != n) throw Undefined("spin-free operator that does not conserve particles");
        }
        for (std::uint32_t sp = 0; sp < (spinfree ? 1u << np : 1u); ++sp) {
          std::vector<std::pair<int, bool>> cs;
          for (std::size_t q = 0; q < n; ++q) {
            num::Orb orb = orbs[op_pos[q]][cur[op_pos[q]]];
            if (spinfree) orb |= ((sp >> (q < np ? q : n - 1 - q) & 1u) + 1) << 8;
            auto it = std::lower_bound(modes.begin(), modes.end(), orb);
            if (it == modes.end() || *it != orb) throw Undefined("operator outside of the modes");
            cs.emplace_back(int(it - modes.begin()), ops[q].second);
          }
          // {..} is antisymmetric: order creators and annihilators, then those
          // that create quasiparticles to the left
          auto key = [&](const std::pair<int, bool>& c) {
            const bool qpc = physical_op ? c.second : c.second != !!(occ >> c.first & 1);
            return (qpc ? 0 : 1000) + (c.second ? 0 : 100) + c.first;
          };
          bool neg = false, zero = false;
          for (std::size_t i = 1; i < cs.size(); ++i)
            for (std::size_t j = i; j > 0 && key(cs[j]) <= key(cs[j - 1]); --j) {
              if (cs[j] == cs[j - 1]) { zero = true; break; }
              std::swap(cs[j], cs[j - 1]);
              neg = !neg;
            }
          if (!zero) acc[cs] += neg ? -x : x;
        }
      }
      std::size_t k = ids.size();
      while (k-- > 0) {
        if (fix[k]) continue;
        if (++cur[k] < orbs[k].size()) break;
        cur[k] = 0;
      }
      if (k == std::size_t(-1)) break;
    }
  next_term:;
  }
  Table r;
  for (auto& [ops, x] : acc)
    if (!x.zero()) r.push_back({ops, x});
  return r;
}

Vec Space::act(const Table& t, const Vec& v) const {
  Vec r(dim());
  std::vector<std::uint64_t> nz;
  for (std::size_t d = 0; d < v.size(); ++d)
    if (!v[d].zero()) nz.push_back(d);
  for (auto& e : t)
    for (auto d0 : nz) {
      std::uint64_t d = d0;
      bool neg = false, dead = false;
      for (auto q = e.ops.rbegin(); q != e.ops.rend(); ++q) {
        const std::uint64_t bit = 1ull << q->first;
        if (q->second == !!(d & bit)) { dead = true; break; }
        if (__builtin_popcountll(d & (bit - 1)) & 1) neg = !neg;
        d ^= bit;
      }
      if (dead) continue;
      const F y = e.x * v[d0];
      r[d] += neg ? -y : y;
    }
  return r;
}

Vec Space::act(const ExprPtr& x, const Vec& v) const {
  if (x->is<mbpt::op_t>()) {
    auto& c = cache[x.get()];
    if (!c.second) {
      c.first = x;
      c.second = std::make_shared<Table>(table(x->as<mbpt::op_t>().tensor_form()));
    }
    return act(*c.second, v);
  }
  if (x->is<Sum>()) {
    Vec r(dim());
    for (auto& s : x->as<Sum>().summands()) r = add(r, act(s, v));
    return r;
  }
  if (x->is<Product>()) {
    const auto& p = x->as<Product>();
    Vec r = scale(v, model.constant(Constant(p.scalar())));
    for (auto k = p.factors().size(); k-- > 0;) r = act(p.factors()[k], r);
    return r;
  }
  if (x->is<Constant>() || x->is<Variable>() || x->is<Power>()) {
    F f;
    for (auto& t : num::distribute(x, model)) f += t.coeff;
    return scale(v, f);
  }
  throw Undefined("unknown operator");
}
}  // namespace fock
