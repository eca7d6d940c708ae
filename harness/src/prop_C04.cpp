// Equality, hash, order and derived state of tensors, normal operators,
// indices and results, after any history of edits, against a plain model.
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/hugenholtz.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <algorithm>
#include <numeric>

#include "gen.hpp"
using namespace sequant;
using namespace gen;

namespace {
// ---- model of an index
struct MI {
  std::wstring space;  // "" = null
  int ord = -1;
  std::vector<MI> protos;
  bool sym = true;
  bool null() const { return space.empty(); }
  std::string key() const {
    if (null()) return "-";
    std::string k = u8(space) + (ord >= 0 ? "_" + std::to_string(ord) : "");
    if (!protos.empty()) {
      std::vector<std::string> ks;
      for (auto& p : protos) ks.push_back(p.key());
      // protos of a symmetric bundle are in canonical order: compare as a set
      if (sym) std::sort(ks.begin(), ks.end());
      k += "<";
      for (auto& q : ks) k += q + ",";
      k += ">";
    }
    return k;
  }
  Index make(const World& w) const {
    if (null()) return Index::null;
    auto sp = w.isr->retrieve(space);
    container::vector<Index> ps;
    for (auto& p : protos) ps.push_back(p.make(w));
    if (ps.empty()) return ord < 0 ? Index(sp) : Index(sp, ord);
    return ord < 0 ? Index(sp, ps, sym) : Index(sp, ord, ps, sym);
  }
};
using MV = std::vector<MI>;
std::string keys(const MV& v) {
  std::string r;
  for (auto& i : v) r += i.key() + " ";
  return r;
}
std::string key_of(const Index& i) {
  if (i == Index::null) return "-";
  std::string k = u8(std::wstring(i.space().base_key())) + (i.ordinal() ? "_" + std::to_string(*i.ordinal()) : "");
  if (i.has_proto_indices()) {
    std::vector<std::string> ks;
    for (auto& p : i.proto_indices()) ks.push_back(key_of(p));
    if (i.symmetric_proto_indices()) std::sort(ks.begin(), ks.end());
    k += "<";
    for (auto& q : ks) k += q + ",";
    k += ">";
  }
  return k;
}

// whether protos are symmetric depends on the space, or else equal indices
// could differ in it
bool symmetric(const MI& i, const World& w) { return i.space != w.spaces[1].base_key(); }
// few indices, so that equal objects are common
MI random_index(Src& s, const World& w, bool protos = true) {
  MI i;
  i.space = w.spaces[s.below(std::min<std::size_t>(w.spaces.size(), 3))].base_key();
  i.ord = 1 + (int)s.below(2);
  if (protos && s.chance(1, 6)) {
    i.sym = symmetric(i, w);  // a function of the rest, or else equal indices could differ in it
    i.protos.push_back(random_index(s, w, false));
    auto q = random_index(s, w, false);
    if (s.coin() && q.key() != i.protos[0].key()) i.protos.push_back(q);
  }
  return i;
}
bool distinct(const MV& v) {
  std::set<std::string> k;
  for (auto& i : v)
    if (!i.null() && !k.insert(i.key()).second) return false;
  return true;
}
MV random_bundle(Src& s, const World& w, int n) {
  MV v;
  for (int tries = 0; (int)v.size() < n && tries < 20; ++tries) {
    v.push_back(random_index(s, w));
    if (!distinct(v)) v.pop_back();
  }
  return v;
}

// documented meaning of a replacement: the index as a whole, or else its
// protos, and then the index as a whole again
using MM = std::vector<std::pair<MI, MI>>;
const MI* find(const MM& m, const MI& i) {
  for (auto& [a, b] : m)
    if (a.key() == i.key()) return &b;
  return nullptr;
}
MI replaced(const MM& m, const MI& i) {
  if (i.null()) return i;
  if (auto* r = find(m, i)) return *r;
  MI j = i;
  bool changed = false;
  for (auto& p : j.protos)
    if (auto* r = find(m, p)) p = *r, changed = true;
  if (changed)
    if (auto* r = find(m, j)) return *r;
  return j;
}
// protos have no protos
bool flat(const MI& i) {
  for (auto& p : i.protos)
    if (!p.protos.empty()) return false;
  return distinct(i.protos);
}
bool apply_all(const MM& m, std::vector<MV*> bundles) {
  for (auto* v : bundles) {
    MV n;
    for (auto& i : *v) {
      n.push_back(replaced(m, i));
      if (!flat(n.back())) return false;
    }
    if (!distinct(n)) return false;
    *v = n;
  }
  return true;
}
struct Renaming {
  MM model;
  container::map<Index, Index> map;
};
Renaming random_map(Src& s, const World& w) {
  Renaming r;
  int n = 1 + (int)s.below(4);
  for (int k = 0; k < n; ++k) {
    MI a = random_index(s, w, s.chance(1, 4)), b = random_index(s, w, s.chance(1, 6));
    if (s.coin()) b.space = a.space, b.sym = symmetric(b, w);
    if (!distinct(b.protos) || find(r.model, a)) continue;
    r.model.emplace_back(a, b);
    r.map.emplace(a.make(w), b.make(w));
  }
  return r;
}

// ---- tensors
struct MT {
  std::wstring label;
  MV bra, ket, aux;
  Attr a;
  bool canonical = true;  // columns are in the order the constructor makes
  std::string key() const {
    return u8(label) + " bra " + keys(bra) + "ket " + keys(ket) + "aux " + keys(aux) + " " + std::to_string((int)a.s) +
           std::to_string((int)a.b) + std::to_string((int)a.c);
  }
  static int net(const MV& v) { return (int)std::count_if(v.begin(), v.end(), [](auto& i) { return !i.null(); }); }
  bool has_null() const { return net(bra) != (int)bra.size() || net(ket) != (int)ket.size(); }
  // full columns first, then those with an index in the bra, then ket only
  void order_columns() {
    canonical = true;
    if (a.s != Symmetry::Nonsymm || a.c != ColumnSymmetry::Symm || !has_null()) return;
    MV b, k;
    const std::size_t m = std::min(bra.size(), ket.size());
    for (std::size_t i = 0; i < m; ++i)
      if (!bra[i].null() && !ket[i].null()) b.push_back(bra[i]), k.push_back(ket[i]);
    const std::size_t full = b.size();
    for (std::size_t i = 0; i < bra.size(); ++i)
      if (!bra[i].null() && (i >= m || ket[i].null())) b.push_back(bra[i]), k.push_back(MI{});
    for (std::size_t i = 0; i < ket.size(); ++i)
      if (!ket[i].null() && (i >= m || bra[i].null())) k.push_back(ket[i]);
    (void)full;
    bra = b, ket = k;
  }
  bool valid() const {
    for (auto* v : {&bra, &ket, &aux})
      if (!distinct(*v)) return false;
    const std::size_t m = std::min(bra.size(), ket.size());
    for (std::size_t i = 0; i < m; ++i)
      if (bra[i].null() && ket[i].null()) return false;
    for (auto* v : {&bra, &ket})
      for (std::size_t i = m; i < v->size(); ++i)
        if ((*v)[i].null()) return false;
    return a.s == Symmetry::Nonsymm || !has_null();
  }
  ExprPtr make(const World& w) const {
    auto mk = [&](const MV& v) {
      container::svector<Index> r;
      for (auto& i : v) r.push_back(i.make(w));
      return r;
    };
    return ex<Tensor>(label, bra_t(mk(bra)), ket_t(mk(ket)), aux_t(mk(aux)), a.s, a.b, a.c);
  }
  using bra_t = sequant::bra<container::svector<Index>>;
  using ket_t = sequant::ket<container::svector<Index>>;
  using aux_t = sequant::aux<container::svector<Index>>;
};

void add_nulls(Src& s, MT& t) {
  if (t.a.s != Symmetry::Nonsymm || !s.chance(1, 3)) return;
  int n = 1 + (int)s.below(2);
  for (int k = 0; k < n; ++k) {
    auto& v = s.coin() ? t.bra : t.ket;
    auto u = v;
    v.insert(v.begin() + s.below((std::uint32_t)v.size() + 1), MI{});
    if (!t.valid()) v = u;
  }
}

MT random_tensor(Src& s, const World& w, const std::vector<Attr>& attrs) {
  MT t;
  t.label = s.pick({L"t", L"g", L"t⁺"});
  t.a = attrs[s.below((std::uint32_t)attrs.size())];
  const int nb = s.weighted({2, 3, 3, 1}), nk = s.coin() ? nb : s.weighted({2, 3, 3, 1});
  t.bra = random_bundle(s, w, nb);
  t.ket = random_bundle(s, w, nk);
  if (s.chance(1, 4)) t.aux = random_bundle(s, w, 1 + (int)s.below(2));
  add_nulls(s, t);
  t.order_columns();
  return t;
}

template <class R>
std::string keys_of(R&& r) {
  std::string k;
  for (const Index& i : r) k += key_of(i) + " ";
  return k;
}

void check_tensor(Case& c, const Tensor& t, const MT& m, const World& w) {
  auto want = m.key();
  auto got = u8(std::wstring(t.label())) + " bra " + keys_of(t.bra()) + "ket " + keys_of(t.ket()) + "aux " + keys_of(t.aux()) + " " +
             std::to_string((int)t.symmetry()) + std::to_string((int)t.braket_symmetry()) + std::to_string((int)t.column_symmetry());
  c.require(got == want, "the tensor is " + got + "\ninstead of " + want);
  c.require((int)t.bra_net_rank() == MT::net(m.bra) && (int)t.ket_net_rank() == MT::net(m.ket),
            "net ranks " + std::to_string(t.bra_net_rank()) + "," + std::to_string(t.ket_net_rank()) + " of " + want);
  c.require((int)t.bra_rank() == (int)m.bra.size() && (int)t.ket_rank() == (int)m.ket.size() && (int)t.aux_rank() == (int)m.aux.size(),
            "ranks of " + want);
  c.require(t.num_indices() == (std::size_t)(MT::net(m.bra) + MT::net(m.ket) + (int)m.aux.size()), "num_indices of " + want);
  c.require(t.num_slots() == m.bra.size() + m.ket.size() + m.aux.size(), "num_slots of " + want);
  c.require((int)ranges::distance(t.indices()) == (int)t.num_indices(), "indices() of " + want);
  for (auto& i : t.slots()) {
    if (i == Index::null) continue;
    c.require(key_of(Index(std::wstring(i.label()))) == key_of(i.drop_proto_indices()), "label of an index of " + want + ": " + u8(std::wstring(i.label())));
    Index fresh = i;
    c.require(fresh.full_label() == i.full_label() && fresh.label() == i.label(), "memoized label of an index of " + want);
  }
  if (m.canonical) {
    auto f = m.make(w);
    c.require(*f == static_cast<const Expr&>(t) && static_cast<const Expr&>(t) == *f, "not equal to a new tensor " + want);
    c.require(f->hash_value() == t.hash_value(), "hash differs from that of a new tensor " + want);
    c.require(!(*f < static_cast<const Expr&>(t)) && !(static_cast<const Expr&>(t) < *f), "ordered before or after its equal " + want);
  }
}

void tensors(Case& c) {
  auto& s = c.s;
  auto w = make_world(s, {});
  std::vector<Attr> attrs = {random_attr(s), random_attr(s)};
  std::vector<MT> m;
  std::vector<std::shared_ptr<Tensor>> t;
  for (int k = 0; k < 2; ++k) {
    m.push_back(random_tensor(s, w, attrs));
    t.push_back(std::static_pointer_cast<Tensor>(std::shared_ptr<Expr>(m.back().make(w))));
    c.note(m.back().key());
  }
  const int steps = 2 + (int)s.below(7);
  int changed = 0;
  for (int st = 0; st < steps; ++st) {
    const int k = (int)s.below(2);
    auto& x = *t[k];
    MT y = m[k];
    auto& at = static_cast<AbstractTensor&>(x);
    std::string what;
    if (s.coin()) (void)x.hash_value(), what = "hash; ";
    if (s.coin()) (void)x.bra_hash_value(), what += "bra hash; ";
    if (s.coin()) for (auto& i : x.slots()) if (i.nonnull()) (void)i.full_label();
    auto perm = [&](std::size_t n) {
      std::vector<std::size_t> p(n);
      std::iota(p.begin(), p.end(), 0);
      s.shuffle(p);
      return p;
    };
    auto permuted = [](const MV& v, const std::vector<std::size_t>& p) {
      MV r;
      for (auto q : p) r.push_back(v[q]);
      return r;
    };
    auto vec = [&](const MV& v) {
      container::svector<Index> r;
      for (auto& i : v) r.push_back(i.make(w));
      return r;
    };
    switch (s.below(12)) {
      case 0: {
        what += "set_label";
        y.label = s.pick({L"t", L"g", L"t⁺", L"u"});
        x.set_label(y.label);
        break;
      }
      case 1: case 2: case 3: {
        const int which = (int)s.below(3);
        auto v = random_bundle(s, w, 1 + (int)s.below(2));
        auto& slot = which == 0 ? y.bra : which == 1 ? y.ket : y.aux;
        slot = v;
        if (which != 2) add_nulls(s, y);
        if (!y.valid()) continue;
        // replaces one bundle: take both if nulls went to the other one
        what += which == 2 ? "set_aux" : "set_bra/set_ket";
        if (which == 2) x.set_aux(vec(y.aux));
        else {
          if (keys(y.bra) != keys(m[k].bra) || which == 0) x.set_bra(vec(y.bra));
          if (keys(y.ket) != keys(m[k].ket) || which == 1) x.set_ket(vec(y.ket));
          MT z = y;
          z.order_columns();
          y.canonical = z.key() == y.key();
        }
        break;
      }
      case 4: case 5: {
        what += "transform_indices";
        auto r = random_map(s, w);
        if (!apply_all(r.model, {&y.bra, &y.ket, &y.aux})) continue;
        const bool expect = y.key() != m[k].key();
        const bool did = s.coin() ? x.transform_indices(r.map) : at._transform_indices(r.map);
        x.reset_tags();
        for (auto& [a, b] : r.model) what += " " + a.key() + "->" + b.key();
        if (expect && !did) c.fail("transform_indices reported no change: " + what);
        break;
      }
      case 6: case 7: {
        what += "adjoint";
        x.adjoint();
        std::swap(y.bra, y.ket);
        y.order_columns();
        if (y.a.b == BraKetSymmetry::Nonsymm) {
          if (!y.label.empty() && y.label.back() == sequant::adjoint_label) y.label.pop_back();
          else y.label.push_back(sequant::adjoint_label);
        }
        break;
      }
      case 8: {
        what += "swap_bra_ket";
        at._swap_bra_ket();
        std::swap(y.bra, y.ket);
        y.order_columns();
        break;
      }
      case 9: {
        const int which = (int)s.below(3);
        if (y.has_null() && which != 2) continue;
        auto& v = which == 0 ? y.bra : which == 1 ? y.ket : y.aux;
        auto p = perm(v.size());
        v = permuted(v, p);
        what += "permute bundle " + std::to_string(which);
        if (which == 0) at._permute_bra(p);
        else if (which == 1) at._permute_ket(p);
        else at._permute_aux(p);
        break;
      }
      case 10: {
        // equal numbers of bra and ket slots, no empty ones
        if (y.has_null() || y.bra.size() != y.ket.size()) continue;
        auto p = perm(y.bra.size());
        y.bra = permuted(y.bra, p), y.ket = permuted(y.ket, p);
        what += "permute columns";
        at._permute_columns(p);
        break;
      }
      case 11: {
        const int o = 1 - k;
        const int how = (int)s.below(5);
        y = m[o];
        what += "assign/clone " + std::to_string(how);
        if (how == 0) x = *t[o];
        else if (how == 1) { Tensor tmp(*t[o]); x = std::move(tmp); }
        else if (how == 2) t[k] = std::static_pointer_cast<Tensor>(std::shared_ptr<Expr>(t[o]->clone()));
        else if (how == 3) t[k] = std::dynamic_pointer_cast<Tensor>(static_cast<AbstractTensor&>(*t[o])._clone_shared());
        else { Tensor tmp(std::move(*t[o])); *t[o] = tmp; t[k] = std::make_shared<Tensor>(std::move(tmp)); }
        break;
      }
    }
    c.note(what + " on " + std::to_string(k) + " -> " + y.key());
    if (y.key() != m[k].key()) ++changed;
    m[k] = y;
    for (int q = 0; q < 2; ++q) check_tensor(c, *t[q], m[q], w);
    const bool eq = m[0].key() == m[1].key();
    const bool ob = static_cast<Expr&>(*t[0]) == static_cast<Expr&>(*t[1]);
    c.require(eq == ob, std::string("the tensors are ") + (eq ? "the same but not equal" : "equal but not the same"));
    if (eq) c.tag("equal pair");
  }
  c.nontrivial = changed >= 2;
}

// ---- normal operators
template <Statistics S>
struct MN {
  std::vector<std::pair<int, MI>> ops;  // 1 = creator
  Vacuum vac = Vacuum::Physical;
  std::string key() const {
    std::string r = vac == Vacuum::Physical ? "phys " : "sp ";
    for (auto& [a, i] : ops) r += (a ? "+" : "-") + i.key() + " ";
    return r;
  }
  int ncre() const { return (int)std::count_if(ops.begin(), ops.end(), [](auto& o) { return o.first; }); }
  std::shared_ptr<NormalOperator<S>> make(const World& w) const {
    container::svector<Op<S>> cr, an;
    for (auto& [a, i] : ops)
      if (a) cr.emplace_back(i.make(w), Action::Create);
    for (auto it = ops.rbegin(); it != ops.rend(); ++it)
      if (!it->first) an.emplace_back(it->second.make(w), Action::Annihilate);
    return std::make_shared<NormalOperator<S>>(sequant::cre(cr), sequant::ann(an), vac);
  }
};

template <Statistics S>
void check_nop(Case& c, const NormalOperator<S>& o, const MN<S>& m, const World& w, bool hug) {
  std::string got = o.vacuum() == Vacuum::Physical ? "phys " : "sp ";
  for (auto& op : o) got += (op.action() == Action::Create ? "+" : "-") + key_of(op.index()) + " ";
  c.require(got == m.key(), "the operator is " + got + "\ninstead of " + m.key());
  c.require((int)o.ncreators() == m.ncre() && (int)o.nannihilators() == (int)m.ops.size() - m.ncre(), "number of creators of " + m.key());
  std::string cr, an, wc, wa;
  for (auto&& op : o.creators()) cr += (op.action() == Action::Create ? "+" : "-") + key_of(op.index()) + " ";
  for (auto&& op : o.annihilators()) an += (op.action() == Action::Create ? "+" : "-") + key_of(op.index()) + " ";
  for (auto& [a, i] : m.ops)
    if (a) wc += "+" + i.key() + " ";
    else wa = "-" + i.key() + " " + wa;
  c.require(cr == wc && an == wa, "creators/annihilators of " + m.key() + ": " + cr + "| " + an);
  auto f = m.make(w);
  const Expr &a = *f, &b = o;
  c.require(a == b && b == a, "not equal to a new operator " + m.key());
  c.require(a.hash_value() == b.hash_value(), "hash differs from that of a new operator " + m.key());
  c.require(!(a < b) && !(b < a), "ordered before or after its equal " + m.key());
  c.require(keys_of(static_cast<const AbstractTensor&>(o)._bra()) == keys_of(static_cast<const AbstractTensor&>(*f)._bra()) &&
                keys_of(static_cast<const AbstractTensor&>(o)._ket()) == keys_of(static_cast<const AbstractTensor&>(*f)._ket()),
            "bra/ket views of " + m.key());
  if (hug) {
    auto& h = *o.hug();
    c.require(h.num_edges() == m.ops.size(), "Hugenholtz vertex has a wrong number of edges: " + m.key());
    auto type = [&](std::size_t k) {
      auto i = m.ops[k].second;
      i.ord = 0;
      return std::to_string(m.ops[k].first) + i.key();
    };
    std::set<std::string> types;
    for (std::size_t k = 0; k < m.ops.size(); ++k) {
      std::set<std::size_t> want;
      for (std::size_t l = 0; l < m.ops.size(); ++l)
        if (type(k) == type(l)) want.insert(l);
      auto& g = h.group(k).second;
      c.require(std::set<std::size_t>(g.begin(), g.end()) == want, "group of operator " + std::to_string(k) + " of " + m.key());
      types.insert(type(k));
    }
    c.require(h.num_nonempty_groups() == types.size(), "number of groups of " + m.key());
  }
}

template <Statistics S>
void operators(Case& c) {
  auto& s = c.s;
  auto w = make_world(s, {});
  std::vector<MN<S>> m;
  std::vector<std::shared_ptr<NormalOperator<S>>> t;
  for (int k = 0; k < 2; ++k) {
    MN<S> x;
    for (auto& i : random_bundle(s, w, (int)s.below(4))) x.ops.emplace_back(1, i);
    for (auto& i : random_bundle(s, w, (int)s.below(4))) x.ops.emplace_back(0, i);
    x.vac = s.chance(1, 3) ? Vacuum::SingleProduct : Vacuum::Physical;
    m.push_back(x);
    t.push_back(x.make(w));
    c.note(x.key());
  }
  const int steps = 2 + (int)s.below(7);
  int changed = 0;
  for (int st = 0; st < steps; ++st) {
    const int k = (int)s.below(2);
    auto& x = *t[k];
    MN<S> y = m[k];
    std::string what;
    if (s.coin()) (void)x.hash_value(), what = "hash; ";
    if (s.coin()) (void)x.hug(), what += "hug; ";
    switch (s.below(6)) {
      case 0: {
        if (y.ops.empty()) continue;
        auto p = s.below((std::uint32_t)y.ops.size());
        what += "erase " + std::to_string(p);
        y.ops.erase(y.ops.begin() + p);
        x.erase(x.begin() + p);
        break;
      }
      case 1: {
        auto i = random_index(s, w);
        const bool cr = s.coin();
        const auto p = cr ? s.below((std::uint32_t)y.ncre() + 1) : y.ncre() + s.below((std::uint32_t)(y.ops.size() - y.ncre()) + 1);
        what += "insert " + i.key() + " at " + std::to_string(p);
        y.ops.insert(y.ops.begin() + p, {cr, i});
        x.insert(x.begin() + p, Op<S>(i.make(w), cr ? Action::Create : Action::Annihilate));
        break;
      }
      case 2: case 3: {
        auto r = random_map(s, w);
        bool ok = true;
        for (auto& [a, i] : y.ops) {
          i = replaced(r.model, i);
          ok = ok && flat(i);
        }
        if (!ok) continue;
        what += "transform_indices";
        for (auto& [a, b] : r.model) what += " " + a.key() + "->" + b.key();
        if (s.coin()) x.transform_indices(r.map);
        else static_cast<AbstractTensor&>(x)._transform_indices(r.map);
        static_cast<AbstractTensor&>(x)._reset_tags();
        break;
      }
      case 4: {
        what += "adjoint";
        x.adjoint();
        std::reverse(y.ops.begin(), y.ops.end());
        for (auto& o : y.ops) o.first = !o.first;
        break;
      }
      case 5: {
        const int o = 1 - k, how = (int)s.below(4);
        y = m[o];
        what += "assign/clone " + std::to_string(how);
        if (how == 0) x = *t[o];
        else if (how == 1) { NormalOperator<S> tmp(*t[o]); x = std::move(tmp); }
        else if (how == 2) t[k] = std::static_pointer_cast<NormalOperator<S>>(std::shared_ptr<Expr>(t[o]->clone()));
        else t[k] = std::dynamic_pointer_cast<NormalOperator<S>>(static_cast<AbstractTensor&>(*t[o])._clone_shared());
        break;
      }
    }
    c.note(what + " on " + std::to_string(k) + " -> " + y.key());
    if (y.key() != m[k].key()) ++changed;
    m[k] = y;
    for (int q = 0; q < 2; ++q) check_nop(c, *t[q], m[q], w, s.coin());
    const bool eq = m[0].key() == m[1].key();
    const bool ob = static_cast<Expr&>(*t[0]) == static_cast<Expr&>(*t[1]);
    c.require(eq == ob, std::string("the operators are ") + (eq ? "the same but not equal" : "equal but not the same"));
    if (eq) c.tag("equal pair");
  }
  c.nontrivial = changed >= 2;
}

// ---- order, equality and hash over a pool of expressions of all kinds
struct Item {
  ExprPtr e;
  std::string key;
};
Item random_item(Src& s, const World& w, const std::vector<Attr>& attrs, int depth) {
  auto r = [&]() { return rational(s.range(-2, 2), s.range(1, 2)); };
  switch (depth > 0 ? s.below(10) : s.below(7)) {
    case 0: case 1: {
      auto t = random_tensor(s, w, attrs);
      return {t.make(w), "T" + t.key()};
    }
    case 2: {
      MN<Statistics::FermiDirac> x;
      for (auto& i : random_bundle(s, w, (int)s.below(3))) x.ops.emplace_back(1, i);
      for (auto& i : random_bundle(s, w, (int)s.below(3))) x.ops.emplace_back(0, i);
      x.vac = s.coin() ? Vacuum::SingleProduct : Vacuum::Physical;
      return {x.make(w), "F" + x.key()};
    }
    case 3: {
      MN<Statistics::BoseEinstein> x;
      for (auto& i : random_bundle(s, w, (int)s.below(3))) x.ops.emplace_back(1, i);
      for (auto& i : random_bundle(s, w, (int)s.below(3))) x.ops.emplace_back(0, i);
      return {x.make(w), "B" + x.key()};
    }
    case 4: {
      auto re = r(), im = s.chance(1, 3) ? r() : rational(0);
      std::ostringstream k;
      k << "C" << re << "," << im;
      return {ex<Constant>(Constant::scalar_type(re, im)), k.str()};
    }
    case 5: {
      auto l = s.pick({L"a", L"b"});
      auto e = ex<Variable>(l);
      const bool cj = s.coin();
      if (cj) e->as<Variable>().conjugate();
      return {e, "V" + u8(l) + (cj ? "*" : "")};
    }
    case 6: {
      auto b = s.coin() ? ex<Variable>(s.pick({L"a", L"b"})) : ex<Constant>(rational(s.range(2, 3)));
      auto k = num::show(b);
      auto ex_ = rational(s.range(1, 3), s.range(1, 2));
      auto p = ex<Power>(b, ex_);
      const bool cj = s.chance(1, 3);
      if (cj) p->as<Power>().conjugate();
      std::ostringstream q;
      q << "P" << k << "^" << ex_ << (cj && b->is<Variable>() ? "*" : "") << (cj && b->is<Constant>() ? "c" : "");
      return {p, q.str()};
    }
    case 7: case 8: {
      auto p = std::make_shared<Product>();
      std::ostringstream k;
      auto sc = r();
      k << "(" << sc;
      p->scale(sc);
      int n = 1 + (int)s.below(3);
      for (int i = 0; i < n; ++i) {
        auto it = random_item(s, w, attrs, depth - 1);
        if (it.e->is<Constant>() || it.e->is<Power>()) continue;
        p->append(1, it.e, Product::Flatten::No);
        k << " * " << it.key;
      }
      k << ")";
      return {ExprPtr(p), k.str()};
    }
    default: {
      auto p = std::make_shared<Sum>();
      std::ostringstream k;
      k << "[";
      int n = 1 + (int)s.below(3);
      for (int i = 0; i < n; ++i) {
        auto it = random_item(s, w, attrs, depth - 1);
        if (it.e->is<Constant>() || it.e->is<Power>() || it.e->is<Sum>() || it.e->is_zero()) continue;
        p->append(it.e);
        k << " + " << it.key;
      }
      k << "]";
      return {ExprPtr(p), k.str()};
    }
  }
}

void order(Case& c) {
  auto& s = c.s;
  auto w = make_world(s, {});
  std::vector<Attr> attrs = {random_attr(s), random_attr(s)};
  std::vector<Item> v;
  const int n = 3 + (int)s.below(4);
  const bool tensors_only = s.chance(1, 3);
  for (int k = 0; k < n; ++k) {
    if (tensors_only) {
      auto t = random_tensor(s, w, attrs);
      v.push_back({t.make(w), "T" + t.key()});
    } else
      v.push_back(s.chance(1, 5) && !v.empty() ? Item{v[s.below((std::uint32_t)v.size())].e->clone(), ""} : random_item(s, w, attrs, 2));
    if (v.back().key.empty())
      for (auto& x : v)
        if (*x.e == *v.back().e) { v.back().key = x.key; break; }
    c.note(v.back().key);
    if (s.coin()) (void)v.back().e->hash_value();
  }
  int equal = 0;
  for (auto& a : v)
    for (auto& b : v) {
      const bool eq = *a.e == *b.e;
      c.require(eq == (a.key == b.key), "compare " + std::string(eq ? "equal: " : "unequal: ") + a.key + " and " + b.key);
      c.require(eq == (*b.e == *a.e), "equality is not symmetric: " + a.key + " and " + b.key);
      c.require((*a.e != *b.e) == !eq, "!= is not the opposite of ==: " + a.key + " and " + b.key);
      if (eq) {
        c.require(a.e->hash_value() == b.e->hash_value(), "equal objects have different hashes: " + a.key);
        c.require(!(*a.e < *b.e), "ordered before an equal object: " + a.key);
        if (&a != &b) ++equal;
      }
      c.require(!(*a.e < *b.e && *b.e < *a.e), "each ordered before the other: " + a.key + " and " + b.key);
      for (auto& d : v) {
        if (*a.e < *b.e && *b.e < *d.e) c.require(*a.e < *d.e, "order is not transitive: " + a.key + " | " + b.key + " | " + d.key);
        auto unord = [](auto& x, auto& y) { return !(*x.e < *y.e) && !(*y.e < *x.e); };
        if (unord(a, b) && unord(b, d)) c.require(unord(a, d), "equivalence is not transitive: " + a.key + " | " + b.key + " | " + d.key);
      }
    }
  c.nontrivial = true;
  if (equal) c.tag("equal pairs");
}

// ---- indices
void indices(Case& c) {
  auto& s = c.s;
  WorldOptions wo;
  wo.kinds = {0, 1, 2, 3, 4};
  auto w = make_world(s, wo);
  std::vector<MI> m;
  std::vector<Index> x;
  auto spaces = w.spaces;
  for (auto& a : w.aux_spaces) spaces.push_back(a);
  auto rnd = [&](bool protos) {
    MI i;
    i.space = spaces[s.below((std::uint32_t)spaces.size())].base_key();
    i.ord = s.chance(1, 8) ? -1 : s.chance(1, 6) ? 10 + (int)s.below(3) : 1 + (int)s.below(2);
    if (protos && s.chance(1, 3)) {
      i.sym = s.chance(2, 3);
      int n = 1 + (int)s.below(3);
      for (int k = 0; k < n; ++k) {
        MI p;
        p.space = spaces[s.below((std::uint32_t)std::min<std::size_t>(4, spaces.size()))].base_key();
        p.ord = 1 + (int)s.below(2);
        i.protos.push_back(p);
        if (!distinct(i.protos)) i.protos.pop_back();
      }
    }
    return i;
  };
  auto label = [](const MI& i) { return i.space + (i.ord >= 0 ? L"_" + std::to_wstring(i.ord) : L""); };
  const int n = 3 + (int)s.below(4);
  for (int k = 0; k < n; ++k) {
    MI i = k && s.chance(1, 4) ? m[s.below((std::uint32_t)m.size())] : rnd(true);
    Index y;
    // ways of making it
    std::string how;
    switch (s.below(5)) {
      case 0: y = i.make(w); how = "space, ordinal"; break;
      case 1: {
        how = "label";
        container::vector<Index> ps;
        auto order = i.protos;
        if (i.sym) s.shuffle(order);
        for (auto& p : order) ps.push_back(Index(label(p)));
        y = ps.empty() ? Index(label(i)) : Index(label(i), ps, i.sym);
        break;
      }
      case 2: {
        how = "replace_space";
        auto j = i;
        j.space = spaces[s.below((std::uint32_t)spaces.size())].base_key();
        auto t = j.make(w);
        if (s.coin()) (void)t.label(), (void)t.full_label();
        auto sp = w.isr->retrieve(i.space);
        if (s.coin()) y = t.replace_space(sp);
        else y = Index(std::move(t), sp);
        break;
      }
      case 3: {
        how = "transform";
        auto j = rnd(false);
        if (j.ord < 0 || i.protos.size()) { y = i.make(w); break; }
        y = j.make(w);
        if (s.coin()) (void)y.label(), (void)y.full_label();
        container::map<Index, Index> mp{{j.make(w), i.make(w)}};
        y.transform(mp);
        y.reset_tag();
        break;
      }
      default: {
        how = "copies and moves";
        auto t = i.make(w);
        if (s.coin()) (void)t.label(), (void)t.full_label();
        Index u = rnd(true).make(w);
        if (s.coin()) (void)u.label(), (void)u.full_label();
        if (s.coin()) u = t;
        else u = std::move(t);
        Index v(std::move(u));
        u = rnd(true).make(w);
        using std::swap;
        if (s.coin()) y = v;
        else std::swap(y, v);
      }
    }
    m.push_back(i), x.push_back(y);
    c.note(i.key() + "   by " + how);
  }
  auto lab = [&](auto& self, const Index& i) -> std::wstring {
    std::wstring r(i.space().base_key());
    if (i.ordinal()) r += L"_" + std::to_wstring(*i.ordinal());
    if (i.has_proto_indices()) {
      r += L"<";
      bool first = true;
      for (auto& p : i.proto_indices()) r += (first ? L"" : L", ") + self(self, p), first = false;
      r += L">";
    }
    return r;
  };
  Index::FullLabelCompare full;
  Index::LabelCompare lc;
  Index::TypeCompare tc;
  Index::TypeEquality te;
  for (int a = 0; a < n; ++a) {
    auto &A = x[a];
    c.require(key_of(A) == m[a].key(), "the index is " + key_of(A) + " instead of " + m[a].key());
    c.require(std::wstring(A.full_label()) == lab(lab, A), "full label of " + m[a].key() + " is " + u8(std::wstring(A.full_label())));
    c.require(std::wstring(A.label()) == label(m[a]), "label of " + m[a].key() + " is " + u8(std::wstring(A.label())));
    if (A.has_proto_indices() && A.symmetric_proto_indices())
      c.require(std::is_sorted(A.proto_indices().begin(), A.proto_indices().end()), "protos of " + m[a].key() + " are not sorted");
    auto d = A.drop_proto_indices();
    MI md = m[a];
    md.protos.clear();
    c.require(d == md.make(w) && key_of(d) == md.key(), "drop_proto_indices of " + m[a].key());
    for (int b = 0; b < n; ++b) {
      auto& B = x[b];
      // indices with symmetric and asymmetric protos in the same order are equal
      const bool eq = keys_of(container::svector<Index>{A.drop_proto_indices()}) == keys_of(container::svector<Index>{B.drop_proto_indices()}) &&
                      keys_of(A.proto_indices()) == keys_of(B.proto_indices());
      auto nm = m[a].key() + " and " + m[b].key();
      c.require((A == B) == eq, std::string(eq ? "unequal: " : "equal: ") + nm);
      c.require((A != B) == !eq, "!= of " + nm);
      if (eq) c.require(hash_value(A) == hash_value(B) && A.color() == B.color(), "hash or color of equal indices " + nm);
      c.require((A <=> B == 0) == eq && (full(A, B) || full(B, A)) == !eq, "order does not tell apart, or tells apart " + nm);
      c.require((A < B) == (B > A) && !(A < B && B < A), "order of " + nm);
      c.require(!(full(A, B) && full(B, A)) && !(lc(A, B) && lc(B, A)) && !(tc(A, B) && tc(B, A)), "each before the other: " + nm);
      c.require((lc(A, B) || lc(B, A)) == (A.drop_proto_indices() != B.drop_proto_indices()), "LabelCompare of " + nm);
      const bool same_type = A.space() == B.space() && A.proto_indices() == B.proto_indices();
      c.require(te(A, B) == same_type && (tc(A, B) || tc(B, A)) == !same_type, "TypeCompare/TypeEquality of " + nm);
      for (int e = 0; e < n; ++e) {
        auto& C = x[e];
        if (A < B && B < C) c.require(A < C, "< is not transitive: " + nm + " and " + m[e].key());
        if (full(A, B) && full(B, C)) c.require(full(A, C), "FullLabelCompare is not transitive: " + nm + " and " + m[e].key());
        if (tc(A, B) && tc(B, C)) c.require(tc(A, C), "TypeCompare is not transitive: " + nm + " and " + m[e].key());
      }
      auto &P = A.space(), &Q = B.space();
      const bool se = P.base_key() == Q.base_key();
      c.require((P == Q) == se && (P <=> Q == 0) == se, "spaces of " + nm);
      if (se) c.require(hash_value(P) == hash_value(Q), "hash of spaces of " + nm);
    }
  }
  c.nontrivial = true;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C04";
  p.facets = {
      {"tensors",
       "histories of 2-8 edits (label, bundles, index replacement, adjoint, swaps, permutations, assignments) of two tensors over a handful of indices, "
       "interleaved with reads of memoized state; after every edit each tensor is compared with a model, a newly made tensor and the other one; "
       "non-trivial: at least two edits changed a tensor",
       tensors, 250000, 4000000},
      {"fermions", "the same for two fermionic normal operators, with erase, insert and Hugenholtz vertex", operators<Statistics::FermiDirac>, 200000, 3000000},
      {"bosons", "the same for two bosonic normal operators", operators<Statistics::BoseEinstein>, 60000, 1000000},
      {"order", "3-6 expressions of all kinds over a handful of labels: equality, hash and order over all pairs and triples, against the structure", order, 300000, 4000000},
      {"indices", "3-6 indices made in all ways: labels, equality, hash, orders over all pairs and triples, against a model", indices, 300000, 4000000}};
  p.assumptions = {"the tags of replaced indices are reset after every replacement, as documented",
                   "expressions are edited through their own interface, not through factors they contain"};
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
