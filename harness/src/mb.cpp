#include "mb.hpp"

#include <algorithm>

namespace mb {
using namespace sequant;
using namespace sequant::mbpt;

World make_world(Src& s, const WorldOptions& o) {
  World W;
  gen::WorldOptions wo;
  wo.kinds = {o.kinds[s.below((std::uint32_t)o.kinds.size())]};
  W.kind = wo.kinds[0];
  wo.spin = 1;
  wo.random_first_ordinal = false;
  W.physical = o.physical && s.chance(1, 4);
  wo.vacuum = W.physical ? Vacuum::Physical : Vacuum::SingleProduct;
  W.spinfree = o.spinfree && !W.physical && s.chance(1, 4);
  W.w = gen::make_world(s, wo);
  W.batch = o.batch;
  auto ctx = get_default_context();
  if (W.spinfree) {
    ctx.set(SPBasis::Spinfree);
    set_default_context(ctx);
  }
  W.w.model.roots = true;
  // orbitals
  int left = o.modes / (W.spinfree ? 2 : 1);
  std::vector<std::pair<int, int>> keys;
  for (auto& [ub, n] : W.w.model.extent)
    if (ub.first == 0) {
      n = 1;
      --left;
      keys.push_back(ub);
    }
  if (W.kind == 1 || W.kind == 3) s.shuffle(keys);
  for (; left > 0; --left) {
    if (s.chance(1, 10)) break;
    ++W.w.model.extent[keys[s.below((std::uint32_t)keys.size())]];
  }
  if (W.kind == 0 && o.modes >= 6 && !W.spinfree && s.coin()) W.w.model.extent[keys[0]] = W.w.model.extent[keys[1]] = o.modes / 2;
  for (auto& [ub, n] : W.w.model.extent)
    if (ub.first == 0x40) n = 2;  // batching space
  set_default_mbpt_context({.csv = CSV::No, .op_registry_ptr = s.coin() ? make_minimal_registry() : make_legacy_registry()});
  W.f = std::make_unique<fock::Space>(W.w.model, W.spinfree, W.physical);
  if (!W.physical) {
    const auto h = W.w.isr->hole_space(Spin::any), p = W.w.isr->particle_space(Spin::any);
    for (auto& [ub, n] : W.w.model.extent)
      if (ub.first == 0) {
        if (h.type().to_int32() >> ub.second & 1) W.nocc += n;
        if (p.type().to_int32() >> ub.second & 1) W.nvirt += n;
      }
  }
  return W;
}

std::string show(const ExprPtr& e) {
  if (e->is<Sum>()) {
    std::string s = "(";
    for (auto& x : e->as<Sum>().summands()) s += (s.size() > 1 ? " + " : "") + show(x);
    return s + ")";
  }
  if (e->is<Product>()) {
    const auto& p = e->as<Product>();
    std::string s = "[" + pbt::to_utf8(Constant(p.scalar()).to_latex());
    for (auto& x : p.factors()) s += " * " + show(x);
    return s + "]";
  }
  if (e->is<op_t>()) {
    const auto& o = e->as<op_t>();
    std::string r = pbt::to_utf8(std::wstring(o.label()));
    // ranks and spaces from the tensor form
    ExprPtr tf = o.tensor_form();
    return r + "<" + num::show(tf) + ">";
  }
  return num::show(e);
}

ExprPtr random_op(Src& s, OpGen& g, int max_rank) {
  if (max_rank < 1) max_rank = 1;
  auto rank = [&](int cap) { return 1 + (int)s.below(std::min(max_rank, cap)); };
  const bool cons = g.conserving || g.w.spinfree;
  auto norm = [&] { return s.pick({Normalization::Default, Normalization::Default, Normalization::SquareRoot, Normalization::Implicit}); };
  auto pair = [&](int& np, int& nh) {
    np = rank(3);
    nh = np;
    if (!cons && s.chance(2, 5)) {
      nh = (int)s.below(std::min(max_rank, 3) + 1);
      if (s.coin()) std::swap(np, nh);
      if (!np && !nh) nh = 1;
    }
  };
  auto params = [&](OpParams p) {
    if (g.batched && s.chance(2, 3)) {
      if (s.coin()) p.nbatch = 1 + s.below(2);
      else {
        p.batch_ordinals.push_back(1 + s.below(3));
        if (s.chance(1, 3)) p.batch_ordinals.push_back(p.batch_ordinals.back() + 1 + s.below(2));
      }
    }
    return p;
  };
  ExprPtr r;
  bool leaf = true;
  const bool phys = g.w.physical;
  int np, nh;
  switch (s.weighted({g.general ? 4 : 0, 4, 3, g.sums ? 1 : 0, g.general ? 2 : 0, 3, 3, g.projectors ? 3 : 0, g.batched ? 6 : 1, cons ? 0 : 2})) {
    case 0: {
      const int k = rank(2);
      if (k == 1 && s.chance(1, 4)) r = F();
      else r = h(k);
      break;
    }
    case 1: r = t(rank(3)); break;
    case 2: r = λ(rank(3)); break;
    case 3: {
      leaf = false;
      const int k = rank(3);
      const bool skip = k > 1 && s.chance(1, 3);
      pair(np, nh);
      switch (s.below(5)) {
        case 0: r = T(k, skip); break;
        case 1: r = Λ(k, skip); break;
        case 2: r = H(std::min(k, 2)); break;
        case 3: r = R(nₚ(np), nₕ(nh), norm()); break;
        default: r = L(nₚ(np), nₕ(nh), norm()); break;
      }
      break;
    }
    case 4: r = θ(rank(s.chance(1, 8) ? 3 : 2)); break;
    case 5: pair(np, nh); r = op::r(nₚ(np), nₕ(nh), norm()); break;
    case 6: pair(np, nh); r = op::l(nₚ(np), nₕ(nh), norm()); break;
    case 7: {
      pair(np, nh);
      if (s.coin()) np = -np, nh = -nh;
      std::optional<Normalization> n;
      if (s.chance(1, 3)) n = norm();
      switch (s.below(3)) {
        case 0: r = P(nₚ(np), nₕ(nh), n); break;
        case 1:
          if (cons || !s.chance(1, 2)) r = np < 0 || nh < 0 ? δr(nₚ(-np), nₕ(-nh)) : δl(nₚ(np), nₕ(nh));
          else r = A(nₚ(np), nₕ(nh), n);
          break;
        default: r = cons && g.w.spinfree ? S(np, n) : A(nₚ(np), nₕ(nh), n); break;
      }
      break;
    }
    case 8:
      switch (s.below(g.sums ? 5 : 3)) {
        case 0: r = tʼ(rank(3), params({.order = 1 + s.below(2)})); break;
        case 1: r = λʼ(rank(3), params({.order = 1 + s.below(2)})); break;
        case 2: r = Hʼ(rank(2), params({.order = 1 + s.below(2)})); break;
        case 3: leaf = false; r = Tʼ(rank(3), params({.order = 1})); break;
        default: leaf = false; r = Λʼ(rank(3), params({.order = 1})); break;
      }
      break;
    default: {
      // replacement operators between any two spaces
      auto sp = [&]() { return s.pick(g.w.w.spaces); };
      pair(np, nh);
      if (s.coin()) r = op::r(nann(nh), ncre(np), cre<IndexSpace>(sp()), ann<IndexSpace>(sp()), norm());
      else r = op::l(nann(np), ncre(nh), cre<IndexSpace>(sp()), ann<IndexSpace>(sp()), norm());
      break;
    }
  }
  (void)phys;
  if (g.adjoints && leaf && s.chance(1, 6)) r = adjoint(r);
  return r;
}
}  // namespace mb
