#include "gen.hpp"

#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>

#include <algorithm>

namespace gen {
using namespace sequant;

std::string u8(const std::wstring& w) { return pbt::to_utf8(w); }

World make_world(Src& s, const WorldOptions& o) {
  World w;
  const int kind = o.kinds[s.below((std::uint32_t)o.kinds.size())];
  const int spin = o.spin >= 0 ? o.spin : s.weighted({3, 1, 1});
  const auto conv = spin == 0 ? mbpt::SpinConvention::Legacy : mbpt::SpinConvention::Default;
  std::vector<std::wstring> base, unions;
  switch (kind) {
    case 0: w.isr = mbpt::make_min_sr_spaces(conv); w.name = "min-sr"; base = {L"i", L"a"}; unions = {L"p"}; break;
    case 1: w.isr = mbpt::make_sr_spaces(conv); w.name = "sr"; base = {L"i", L"a", L"o", L"g"}; unions = {L"m", L"e", L"x", L"p"}; break;
    case 2: w.isr = mbpt::make_min_mr_spaces(conv); w.name = "min-mr"; base = {L"i", L"a", L"u"}; unions = {L"I", L"A", L"p"}; break;
    case 3: w.isr = mbpt::make_mr_spaces(conv); w.name = "mr"; base = {L"i", L"a", L"u", L"o", L"g"}; unions = {L"O", L"M", L"I", L"E", L"A", L"p"}; break;
    default: w.isr = mbpt::make_F12_sr_spaces(conv); w.name = "f12"; base = {L"i", L"a", L"o", L"g"}; unions = {L"m", L"e", L"x", L"p"}; break;
  }
  if (o.aux) {
    mbpt::add_df_spaces(w.isr);
    mbpt::add_batching_spaces(w.isr);
    w.aux_spaces.push_back(w.isr->retrieve(L"Κ"));
    w.aux_spaces.push_back(w.isr->retrieve(L"z"));
  }
  auto use = [&](const std::wstring& k) { w.spaces.push_back(w.isr->retrieve(k)); };
  for (auto& k : base) use(k);
  if (o.unions) for (auto& k : unions) use(k);
  if (spin == 2) {
    for (auto& k : base)
      for (const wchar_t* sp : {L"↑", L"↓"}) use(k + sp);
    if (o.unions) for (auto& k : unions) for (const wchar_t* sp : {L"↑", L"↓"}) use(k + sp);
  }
  w.name += spin == 0 ? "/nospin" : spin == 1 ? "/spin-any" : "/spin";
  // numeric model
  w.model.seed = 1 + s.below(1000000);
  w.model.spin = spin == 2;
  w.model.default_extent = 1;
  for (auto& sp : *w.isr) {
    const int uni = sp.qns().to_int32() & ~3 & 0x7f;
    for (int b = 0; b < 31; ++b)
      if (sp.type().to_int32() >> b & 1) w.model.extent[{uni, b}] = 1;
  }
  int budget = spin == 2 ? 1 : o.max_extent;
  for (auto& [k, n] : w.model.extent) n = k.first == 0 && w.model.extent.size() > 6 ? 1 + (int)s.below(std::min(2, budget)) : 1 + (int)s.below(budget);
  try {
    w.model.occ_bits = (std::uint32_t)w.isr->vacuum_occupied_space(true).to_int32();
  } catch (...) {
  }
  std::size_t first = 100;
  if (o.random_first_ordinal && s.chance(1, 6)) first = 40 + s.below(200);
  set_default_context({.index_space_registry_shared_ptr = w.isr, .vacuum = o.vacuum, .assert_strict_braket_symmetry = !o.loose, .first_dummy_index_ordinal = first});
  Index::reset_tmp_index();
  // where dummies are numbered from; ordinals of tmp indices start at `first`
  const int off = s.weighted({6, 1, 1});
  if (off)
    for (auto& sp : *w.isr) w.next[std::wstring(sp.base_key())] = off == 1 ? 7 : first < 100 ? 3 : 60;
  return w;
}

Attr random_attr(Src& s) {
  Attr a;
  a.s = s.pick({Symmetry::Nonsymm, Symmetry::Antisymm, Symmetry::Symm, Symmetry::Antisymm, Symmetry::Nonsymm});
  a.b = s.pick({BraKetSymmetry::Nonsymm, BraKetSymmetry::Symm, BraKetSymmetry::Conjugate});
  a.c = a.s != Symmetry::Nonsymm ? ColumnSymmetry::Symm
                                 : s.pick({ColumnSymmetry::Symm, ColumnSymmetry::Nonsymm});
  return a;
}

num::IndexSet Ext::all() const {
  num::IndexSet r;
  for (auto* v : {&bra, &ket, &aux})
    for (auto& i : *v) {
      r.insert(i);
      for (auto& p : i.proto_indices()) r.insert(p);
    }
  return r;
}

num::IndexSet externals_of(const std::vector<ExprPtr>& factors) {
  std::map<Index, int, Index::FullLabelCompare> n;
  num::IndexSet protos, r;
  for (auto& f : factors)
    if (auto* t = dynamic_cast<const AbstractTensor*>(f.get()))
      for (const Index& i : t->_slots())
        if (i.nonnull()) {
          ++n[i];
          for (auto& p : i.proto_indices()) protos.insert(p);
        }
  for (auto& [i, k] : n)
    if (k == 1) {
      r.insert(i);
      for (auto& p : i.proto_indices()) r.insert(p);
    }
  for (auto& p : protos)
    if (!n.count(p)) r.insert(p);
  return r;
}

Constant::scalar_type random_scalar(Src& s, bool complex, bool zero) {
  auto r = [&]() -> rational {
    static const int d[] = {1, 1, 1, 2, 3, 4, 6, 7};
    int n = 1 + (int)s.below(4);
    if (s.coin()) n = -n;
    return rational(n, d[s.below(8)]);
  };
  if (zero && s.chance(1, 12)) return Constant::scalar_type{0};
  switch (s.weighted({4, 4, complex ? 1 : 0, complex ? 1 : 0})) {
    case 0: return Constant::scalar_type{1};
    case 1: return Constant::scalar_type{r()};
    case 2: return Constant::scalar_type{r(), r()};
    default: return Constant::scalar_type{rational(0), r()};
  }
}

ExprPtr Net::product(Constant::scalar_type c) const {
  return ex<Product>(c, factors.begin(), factors.end(), Product::Flatten::No);
}

Ext random_ext(Src& s, World& w, int max_pairs, bool aux) {
  Ext e;
  const int n = (int)s.below(max_pairs + 1);
  auto sp = [&]() -> const IndexSpace& { return w.spaces[s.chance(1, 3) ? s.below(w.spaces.size()) : s.below(2)]; };
  const bool same = s.coin();
  IndexSpace a = sp(), b = sp();
  for (int k = 0; k < n; ++k) {
    e.bra.push_back(w.make(same ? a : sp()));
    if (!s.chance(1, 6)) e.ket.push_back(w.make(same ? b : sp()));
  }
  if (aux && !w.aux_spaces.empty() && s.chance(1, 6)) e.aux.push_back(w.make(s.pick(w.aux_spaces)));
  return e;
}

Net random_net(Src& s, World& w, AttrMap& attrs, const Ext& ext, const NetOptions& o) {
  Net net;
  auto vol = [&](const Index& i) { return std::max<double>(1, (double)w.model.orbitals(i.space()).size()); };
  double volume = 1;
  const bool few = s.chance(2, 3);   // few spaces: more symmetric networks
  const IndexSpace& one = w.spaces[s.below(std::min<std::size_t>(2, w.spaces.size()))];
  auto space = [&]() -> const IndexSpace& {
    if (few && !s.chance(1, 4)) return one;
    return w.spaces[s.below(w.spaces.size())];
  };
  // who goes where: kind 0 bra, 1 ket, 2 aux
  std::vector<Index> items[3] = {ext.bra, ext.ket, ext.aux};
  for (auto& v : items) for (auto& i : v) volume *= vol(i);
  const int nd = (int)s.below(o.max_dummies + 1);
  for (int k = 0; k < nd; ++k) {
    Index i = w.make(space());
    if (volume * vol(i) > o.max_volume) break;
    volume *= vol(i);
    ++net.dummies;
    if (o.loose && s.chance(1, 3)) {
      int a = (int)s.below(2), b = (int)s.below(2);
      items[a].push_back(i);
      items[b].push_back(i);
    } else {
      items[0].push_back(i);
      items[1].push_back(i);
    }
  }
  if (o.aux && !w.aux_spaces.empty() && s.chance(1, 3)) {
    const int na = 1 + (int)s.below(2);
    for (int k = 0; k < na; ++k) {
      Index i = w.make(s.pick(w.aux_spaces));
      const int copies = o.hyper && s.chance(1, 3) ? 3 : 2;
      for (int q = 0; q < copies; ++q) items[2].push_back(i);
      volume *= vol(i);
      ++net.dummies;
    }
  }
  // optionally give some orbital indices proto indices
  if (o.protos && s.chance(2, 3)) {
    std::vector<Index> plain;
    for (auto& v : {items[0], items[1]})
      for (auto& i : v)
        if (!i.has_proto_indices() && std::find(plain.begin(), plain.end(), i) == plain.end()) plain.push_back(i);
    // indices of one type serve as protos of the others
    std::vector<Index> src, dst;
    for (auto& i : plain) (i.space().base_key()[0] == L'i' ? src : dst).push_back(i);
    if (!src.empty())
      for (auto& d : dst) {
        bool is_ext = false;
        for (auto* v : {&ext.bra, &ext.ket}) is_ext |= std::find(v->begin(), v->end(), d) != v->end();
        if (is_ext || s.chance(1, 3)) continue;
        auto p = src;
        s.shuffle(p);
        p.resize(std::min<std::size_t>(p.size(), 1 + s.below(3)));
        container::vector<Index> pv(p.begin(), p.end());
        Index n(d.space(), d.ordinal(), pv);
        for (auto& v : items) for (auto& i : v) if (i == d) i = n;
      }
  }
  // deal items to tensors
  int nt = o.min_tensors + (int)s.below(std::max(0, o.max_tensors - o.min_tensors) + 1);
  const int rank = 1 + s.weighted({3, 4, 1});
  struct T { std::vector<Index> v[3]; };
  std::vector<T> ts(nt);
  for (int k = 0; k < 3; ++k) {
    s.shuffle(items[k]);
    std::size_t pos = 0;
    // first pass: equal ranks; leftovers at random
    auto has = [&](T& t, int kk, const Index& i) { return std::find(t.v[kk].begin(), t.v[kk].end(), i) != t.v[kk].end(); };
    for (auto& i : items[k]) {
      int best = -1;
      const int r = k == 2 ? 1 : rank;
      for (int t = 0; t < nt && best < 0; ++t) {
        if ((int)ts[t].v[k].size() >= r || has(ts[t], k, i)) continue;
        if (!o.trace && (has(ts[t], 0, i) || has(ts[t], 1, i) || has(ts[t], 2, i))) continue;
        best = t;
      }
      if (best < 0) {
        int st = (int)s.below(nt);
        for (int q = 0; q < nt && best < 0; ++q) {
          int t = (st + q) % nt;
          if (has(ts[t], k, i)) continue;
          if (!o.trace && (has(ts[t], 0, i) || has(ts[t], 1, i) || has(ts[t], 2, i))) continue;
          best = t;
        }
      }
      if (best < 0) {
        ts.emplace_back();
        ++nt;
        best = nt - 1;
      }
      ts[best].v[k].push_back(i);
      ++pos;
    }
  }
  const std::wstring main = o.labels[s.below(o.labels.size())];
  std::map<std::string, int> same;
  for (auto& t : ts) {
    auto &b = t.v[0], &k = t.v[1], &x = t.v[2];
    if (b.empty() && k.empty() && x.empty()) continue;
    if (o.special && b.size() == 1 && k.size() == 1 && x.empty() && s.chance(1, 5) && b[0] != k[0]) {
      net.factors.push_back(s.coin() ? make_kronecker(b[0], k[0]) : make_overlap(b[0], k[0]));
      ++net.tensors;
      continue;
    }
    std::wstring label = s.chance(2, 3) ? main : o.labels[s.below(o.labels.size())];
    if (o.rank_labels) label += std::to_wstring(b.size()) + std::to_wstring(k.size()) + std::to_wstring(x.size());
    auto it = attrs.find(label);
    if (it == attrs.end()) it = attrs.emplace(label, random_attr(s)).first, it->second.half = o.halves && s.coin();
    if (o.column_symm) {  // what the older tensor network classes support
      it->second.c = sequant::ColumnSymmetry::Symm;
      if (it->second.b == sequant::BraKetSymmetry::Symm) it->second.b = sequant::BraKetSymmetry::Conjugate;
    }
    Attr a = it->second;
    container::svector<Index> bb(b.begin(), b.end()), kk(k.begin(), k.end()), xx(x.begin(), x.end());
    // bra-ket symmetry of a tensor with unequal ranks exchanges the bundles
    if (a.b != BraKetSymmetry::Nonsymm && bb.size() != kk.size() &&
        !(o.halves && a.b == BraKetSymmetry::Symm && a.half))
      a.b = BraKetSymmetry::Nonsymm;
    if (a.s == Symmetry::Nonsymm && a.b == BraKetSymmetry::Nonsymm && bb.size() != kk.size() && o.nulls) {
      // pad the shorter side with empty slots, at any position
      auto& sh = bb.size() < kk.size() ? bb : kk;
      auto& lo = bb.size() < kk.size() ? kk : bb;
      if (s.coin())
        while (sh.size() < lo.size()) sh.insert(sh.begin() + s.below(sh.size() + 1), Index::null);
    }
    net.any_antisymm |= a.s == Symmetry::Antisymm && (bb.size() > 1 || kk.size() > 1);
    ++same[u8(label) + std::to_string(bb.size()) + "," + std::to_string(kk.size()) + "," + std::to_string(xx.size())];
    net.factors.push_back(ex<Tensor>(label, bra(bb), ket(kk), aux(xx), a.s, a.b, a.c));
    ++net.tensors;
  }
  for (auto& [k, n] : same) net.identical |= n > 1;
  if (o.variables && s.chance(1, 5)) {
    auto v = ex<Variable>(std::wstring(1, s.pick({L'x', L'y', L'z'})));
    if (s.coin()) v->as<Variable>().conjugate();
    net.factors.insert(net.factors.begin() + s.below(net.factors.size() + 1), v);
  }
  net.ext = externals_of(net.factors);
  for (auto& i : ext.all()) net.ext.insert(i);
  return net;
}

ExprPtr random_expr(Src& s, World& w, AttrMap& attrs, const Ext& ext, const ExprOptions& o, bool* nontrivial) {
  const int nt = 1 + (int)s.below(o.max_terms);
  container::svector<ExprPtr> terms;
  auto mark = w.next;
  auto high = mark;
  for (int t = 0; t < nt; ++t) {
    if (s.chance(2, 3)) w.next = mark;   // summands may reuse dummy labels
    if (o.depth > 0 && s.chance(1, 3)) {
      // product of two factors joined by dummies
      Ext e1, e2;
      auto deal = [&](const std::vector<Index>& v, std::vector<Index>& a, std::vector<Index>& b) {
        for (auto& i : v) (s.coin() ? a : b).push_back(i);
      };
      deal(ext.bra, e1.bra, e2.bra);
      deal(ext.ket, e1.ket, e2.ket);
      deal(ext.aux, e1.aux, e2.aux);
      const int nj = (int)s.below(3);
      for (int k = 0; k < nj; ++k) {
        Index i = w.make(w.spaces[s.below(w.spaces.size())]);
        if (s.coin()) { e1.bra.push_back(i); e2.ket.push_back(i); }
        else { e1.ket.push_back(i); e2.bra.push_back(i); }
      }
      ExprOptions oo = o;
      oo.depth = o.depth - 1;
      oo.max_terms = std::min(o.max_terms, 3);
      oo.net.max_tensors = std::min(oo.net.max_tensors, 2);
      oo.net.min_tensors = std::min(oo.net.min_tensors, 2);
      oo.net.max_dummies = std::min(oo.net.max_dummies, 2);
      auto a = random_expr(s, w, attrs, e1, oo);
      auto b = random_expr(s, w, attrs, e2, oo);
      terms.push_back(ex<Product>(random_scalar(s), ExprPtrList{a, b}, s.coin() ? Product::Flatten::No : Product::Flatten::Yes));
      if (nontrivial) *nontrivial = true;
    } else {
      auto n = random_net(s, w, attrs, ext, o.net);
      if (nontrivial && n.dummies > 0 && n.tensors > 1) *nontrivial = true;
      terms.push_back(n.product(random_scalar(s)));
    }
    for (auto& [k, v] : w.next) high[k] = std::max(high[k], v);
  }
  w.next = high;
  if (terms.size() == 1) return terms[0];
  return ex<Sum>(terms.begin(), terms.end());
}

}  // namespace gen
