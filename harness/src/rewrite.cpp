#include "rewrite.hpp"

#include <algorithm>

namespace gen {
using namespace sequant;

container::vector<Index> map_protos(const Index& i, const IndexMap& m) {
  container::vector<Index> p;
  for (auto& q : i.proto_indices()) p.push_back(map_index(q, m));
  return p;
}
Index map_index(const Index& i, const IndexMap& m) {
  if (!i.nonnull()) return i;
  auto it = m.find(i);
  if (it != m.end()) return it->second;
  if (!i.has_proto_indices()) return i;
  return Index(i.space(), i.ordinal(), map_protos(i, m), i.symmetric_proto_indices());
}
ExprPtr map_expr(const ExprPtr& e, const IndexMap& m) {
  if (e->is<Tensor>()) {
    auto& t = e->as<Tensor>();
    container::svector<Index> b, k, x;
    for (auto& i : t.bra()) b.push_back(map_index(i, m));
    for (auto& i : t.ket()) k.push_back(map_index(i, m));
    for (auto& i : t.aux()) x.push_back(map_index(i, m));
    return ex<Tensor>(t.label(), bra(b), ket(k), aux(x), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
  }
  if (e->is<Sum>()) {
    auto r = std::make_shared<Sum>();
    for (auto& q : e->as<Sum>().summands()) r->append(map_expr(q, m));
    return r;
  }
  if (e->is<Product>()) {
    auto r = std::make_shared<Product>();
    r->scale(e->as<Product>().scalar());
    for (auto& q : e->as<Product>().factors()) r->append(1, map_expr(q, m), Product::Flatten::No);
    return r;
  }
  if (e->is<FNOperator>()) {
    auto& n = e->as<FNOperator>();
    container::svector<Index> c, a;
    for (auto&& op : n.creators()) c.push_back(map_index(op.index(), m));
    for (auto&& op : n.annihilators()) a.push_back(map_index(op.index(), m));
    return ex<FNOperator>(cre(c), ann(a), n.vacuum());
  }
  return e->clone();
}

static int permute(Src& s, container::svector<Index>& v) {
  int sign = 1;
  for (std::size_t i = v.size(); i > 1; --i) {
    std::size_t j = i - 1 - s.below((std::uint32_t)i);
    if (j != i - 1) std::swap(v[i - 1], v[j]), sign = -sign;
  }
  return sign;
}

Rewritten rewrite(Src& s, const std::vector<ExprPtr>& factors, const num::IndexSet& ext, const RewriteOptions& o) {
  Rewritten r;
  std::vector<Index> ren, keep;
  {
    auto e = std::make_shared<Product>();
    for (auto& f : factors) e->append(1, f, Product::Flatten::No);
    for (auto& i : num::all_indices(ExprPtr(e))) {
      const bool is_ext = ext.count(i) > 0;
      ((is_ext ? o.externals : o.dummies) ? ren : keep).push_back(i);
    }
  }
  // new ordinals: permutation of the old ones, or fresh ones
  std::map<std::wstring, std::vector<long>> pool;
  int how = (int)s.below(3);
  if (how == 2 && 30 + ren.size() >= Index::min_tmp_index()) how = 1;
  int fresh = 30;
  for (auto& i : ren) pool[std::wstring(i.space().base_key())].push_back(how == 2 ? ++fresh : (long)*i.ordinal());
  for (auto& [k, v] : pool) s.shuffle(v);
  if (how == 0) pool.clear();
  std::map<std::wstring, std::size_t> used;
  // plain indices first: protos refer to them
  for (int pass = 0; pass < 2; ++pass)
    for (auto& i : ren) {
      if (i.has_proto_indices() != (pass == 1)) continue;
      std::wstring k(i.space().base_key());
      long ord = how == 0 ? (long)*i.ordinal() : pool[k][used[k]++];
      if (pass == 0) r.map.emplace(i, Index(i.space(), ord));
      else r.map.emplace(i, Index(i.space(), ord, map_protos(i, r.map), i.symmetric_proto_indices()));
    }
  for (auto& i : keep)
    if (i.has_proto_indices()) r.map.emplace(i, map_index(i, r.map));
  for (auto& f : factors) {
    auto g = map_expr(f, r.map);
    if (o.slots && g->is<Tensor>()) {
      auto& t = g->as<Tensor>();
      container::svector<Index> b(t.bra().begin(), t.bra().end()), k(t.ket().begin(), t.ket().end()), x(t.aux().begin(), t.aux().end());
      if (t.symmetry() != Symmetry::Nonsymm) {
        int sg = permute(s, b) * permute(s, k);
        if (t.symmetry() == Symmetry::Antisymm) r.sign *= sg;
      } else if (t.column_symmetry() == ColumnSymmetry::Symm) {
        // permute whole columns; unpaired trailing slots stay last
        const std::size_t nb = b.size(), nk = k.size(), n = std::min(nb, nk);
        std::vector<std::size_t> ord(n);
        for (std::size_t q = 0; q < n; ++q) ord[q] = q;
        s.shuffle(ord);
        auto b0 = b, k0 = k;
        for (std::size_t q = 0; q < n; ++q) b[q] = b0[ord[q]], k[q] = k0[ord[q]];
        // unpaired slots among themselves
        auto& lo = nb > nk ? b : k;
        container::svector<Index> tail(lo.begin() + n, lo.end());
        permute(s, tail);
        std::copy(tail.begin(), tail.end(), lo.begin() + n);
      }
      if (t.braket_symmetry() == BraKetSymmetry::Symm && s.coin()) std::swap(b, k);
      g = ex<Tensor>(t.label(), bra(b), ket(k), aux(x), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
    }
    r.factors.push_back(g);
  }
  if (o.order) s.shuffle(r.factors);
  return r;
}

bool damage(Src& s, std::vector<ExprPtr>& factors) {
  if (factors.empty()) return false;
  auto& f = factors[s.below((std::uint32_t)factors.size())];
  if (!f->is<Tensor>()) return false;
  auto& t = f->as<Tensor>();
  container::svector<Index> v[3] = {{t.bra().begin(), t.bra().end()}, {t.ket().begin(), t.ket().end()}, {t.aux().begin(), t.aux().end()}};
  int k = (int)s.below(3);
  for (int q = 0; q < 3 && v[k].size() < 2; ++q) k = (k + 1) % 3;
  if (v[k].size() < 2) return false;
  auto i = s.below((std::uint32_t)v[k].size()), j = s.below((std::uint32_t)v[k].size());
  if (i == j || !v[k][i].nonnull() || !v[k][j].nonnull() || v[k][i].space() != v[k][j].space()) return false;
  std::swap(v[k][i], v[k][j]);
  f = ex<Tensor>(t.label(), bra(v[0]), ket(v[1]), aux(v[2]), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
  return true;
}
}  // namespace gen
