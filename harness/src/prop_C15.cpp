// Index space registries as algebras of sets, through random histories.
#include <SeQuant/core/attr.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/runtime.hpp>

#include <algorithm>
#include <array>
#include <memory>
#include "pbt.hpp"
using namespace sequant;
using pbt::Case;
using pbt::Src;

namespace {
using Type = IndexSpace::Type;
using Qns = IndexSpace::QuantumNumbers;
using QMap = container::map<Qns, Type>;

struct Space {
  std::wstring key;
  std::int32_t type = 0, qns = 0;
  std::size_t size = 0;
  Field field = Field::Complex;
  bool operator==(const Space&) const = default;
};
std::string show(const Space& s) {
  return pbt::to_utf8(s.key) + "{" + std::to_string(s.type) + "," + std::to_string(s.qns) + "," + std::to_string(s.size) + (s.field == Field::Real ? "R" : "C") + "}";
}
Space of(const IndexSpace& s) { return {s.base_key(), s.type().to_int32(), s.qns().to_int32(), s.approximate_size(), s.field()}; }

enum Spec { VacOcc, RefOcc, Complete, Hole, Particle, NSpec };
const char* spec_names[] = {"vacocc", "refocc", "complete", "hole", "particle"};

// the reference: a plain set of spaces, shared by copies, and named choices
struct Model {
  std::shared_ptr<std::map<std::wstring, Space>> spaces = std::make_shared<std::map<std::wstring, Space>>();
  std::int32_t mask = 0;
  std::array<std::int32_t, NSpec> type{};
  std::array<std::map<std::int32_t, std::int32_t>, NSpec> by_qns;

  const Space* key(const std::wstring& k) const {
    auto it = spaces->find(k);
    return it == spaces->end() ? nullptr : &it->second;
  }
  const Space* attr(std::int32_t t, std::int32_t q) const {
    for (auto& [k, s] : *spaces)
      if (s.type == t && s.qns == q) return &s;
    return nullptr;
  }
  bool has_type(std::int32_t t) const {
    for (auto& [k, s] : *spaces)
      if (s.type == t) return true;
    return false;
  }
  bool addable(const Space& s) const { return !key(s.key) && !attr(s.type, s.qns); }
  static bool single(std::int32_t t) { return t > 0 && !(t & (t - 1)); }
  bool base(const Space& s) const { return single(s.type) && !(s.qns & ~mask); }
  // size and field of a composite space
  std::pair<std::size_t, Field> composite(std::int32_t t, std::int32_t q) const {
    std::size_t n = 0;
    Field f = Field::Real;
    for (auto& [k, s] : *spaces)
      if (s.qns == q && single(s.type) && (s.type & t)) {
        n += s.size;
        if (s.field == Field::Complex) f = Field::Complex;
      }
    return {n, f};
  }
  // nullptr: throws
  const Space* spec(Spec w, std::int32_t q) const {
    auto it = by_qns[w].find(q);
    if (it != by_qns[w].end()) return attr(it->second, q);
    return type[w] ? attr(type[w], q) : nullptr;
  }
};

template <class F>
bool throws(F&& f) {
  try {
    f();
  } catch (const Exception&) {
    return true;
  }
  return false;
}

const std::vector<std::wstring> KEYS = {L"i", L"a", L"p", L"m", L"i↑", L"i↓", L"a↑", L"α", L"Κ", L"o", L"x'", L"zz"};

IndexSpaceRegistry& set_spec(IndexSpaceRegistry& r, Spec w, Type t) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(t);
    case RefOcc: return r.reference_occupied_space(t);
    case Complete: return r.complete_space(t);
    case Hole: return r.hole_space(t);
    default: return r.particle_space(t);
  }
}
IndexSpaceRegistry& set_spec(IndexSpaceRegistry& r, Spec w, const QMap& m) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(m);
    case RefOcc: return r.reference_occupied_space(m);
    case Complete: return r.complete_space(m);
    case Hole: return r.hole_space(m);
    default: return r.particle_space(m);
  }
}
IndexSpaceRegistry& set_spec(IndexSpaceRegistry& r, Spec w, const std::wstring& l) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(l);
    case RefOcc: return r.reference_occupied_space(l);
    case Complete: return r.complete_space(l);
    case Hole: return r.hole_space(l);
    default: return r.particle_space(l);
  }
}
IndexSpaceRegistry& set_spec(IndexSpaceRegistry& r, Spec w, const IndexSpace& s) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(s);
    case RefOcc: return r.reference_occupied_space(s);
    case Complete: return r.complete_space(s);
    case Hole: return r.hole_space(s);
    default: return r.particle_space(s);
  }
}
const IndexSpace& get_spec(const IndexSpaceRegistry& r, Spec w, Qns q) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(q);
    case RefOcc: return r.reference_occupied_space(q);
    case Complete: return r.complete_space(q);
    case Hole: return r.hole_space(q);
    default: return r.particle_space(q);
  }
}
Type get_type(const IndexSpaceRegistry& r, Spec w, bool nullok) {
  switch (w) {
    case VacOcc: return r.vacuum_occupied_space(nullok);
    case RefOcc: return r.reference_occupied_space(nullok);
    case Complete: return r.complete_space(nullok);
    case Hole: return r.hole_space(nullok);
    default: return r.particle_space(nullok);
  }
}

struct Pair {
  std::unique_ptr<IndexSpaceRegistry> r;
  Model m;
};

// every query against the model; `deep` also compares all pairs of spaces
void compare(Case& c, const Pair& P, const std::string& name) {
  const auto& r = *P.r;
  const auto& m = P.m;
  auto req = [&](bool ok, const std::string& what) { c.require(ok, "registry " + name + ": " + what); };
  std::vector<Space> have, want;
  for (auto& s : r)
    if (s) have.push_back(of(s));
  for (auto& [k, s] : *m.spaces) want.push_back(s);
  req(have == want, "spaces differ from those added");
  for (auto& k : KEYS) {
    auto* s = m.key(k);
    req(r.contains(k) == bool(s), "contains(key)");
    req(bool(r.retrieve_ptr(k + L"_17")) == bool(s) && bool(r.retrieve_ptr(k + L"3")) == bool(s), "retrieve_ptr(label)");
    if (s)
      req(of(r.retrieve(k)) == *s && of(r.retrieve(k + L"_4")) == *s && r.retrieve_ptr(k) == &r.retrieve(k), "retrieve(key)");
    else
      req(throws([&] { (void)r.retrieve(k); }), "retrieve of a missing key does not throw");
  }
  std::set<std::int32_t> qs;
  for (auto& s : want) {
    qs.insert(s.qns);
    const IndexSpace::Attr a{Type{s.type}, Qns{s.qns}};
    req(r.contains(a) && r.contains(Type{s.type}, Qns{s.qns}) && of(r.retrieve(a)) == s && of(r.retrieve(Type{s.type}, Qns{s.qns})) == s, "retrieve(attr)");
    req(r.contains(r.retrieve(s.key)), "contains(space)");
    req(r.is_base(r.retrieve(s.key)) == m.base(s) && r.is_base(s.key) == m.base(s), "is_base of " + show(s));
    req(r.physical_particle_attributes(Qns{s.qns}).to_int32() == (s.qns & m.mask) && r.other_attributes(Qns{s.qns}).to_int32() == (s.qns & ~m.mask), "particle attributes");
  }
  for (std::int32_t t = 1; t < 16; ++t)
    for (std::int32_t q = 0; q < 4; ++q)
      if (!m.attr(t, q)) req(!r.contains(Type{t}, Qns{q}) && throws([&] { (void)r.retrieve(Type{t}, Qns{q}); }), "retrieve of missing attributes does not throw");
  // base spaces
  std::set<std::int32_t> types;
  std::vector<Space> bases;
  for (auto& s : want) {
    if (Model::single(s.type)) types.insert(s.type);
    if (m.base(s)) bases.push_back(s);
  }
  std::vector<std::int32_t> ht;
  for (auto& t : r.base_space_types()) ht.push_back(t.to_int32());
  req(ht == std::vector<std::int32_t>(types.begin(), types.end()), "base_space_types is not the sorted set of types with one bit");
  std::vector<Space> hb;
  for (auto& s : r.base_spaces()) hb.push_back(of(s));
  req(std::is_sorted(hb.begin(), hb.end(), [](auto& a, auto& b) { return a.type < b.type; }), "base_spaces are not sorted");
  auto by_key = [](auto& a, auto& b) { return a.key < b.key; };
  std::sort(hb.begin(), hb.end(), by_key);
  std::sort(bases.begin(), bases.end(), by_key);
  req(hb == bases, "base_spaces are not the base spaces");
  // choices
  for (int w = 0; w < NSpec; ++w) {
    req(get_type(r, Spec(w), true).to_int32() == m.type[w], std::string(spec_names[w]) + " type");
    req(throws([&] { (void)get_type(r, Spec(w), false); }) == !m.type[w], std::string(spec_names[w]) + ": unset type must throw");
    for (auto q : qs) {
      auto* s = m.spec(Spec(w), q);
      if (s)
        req(of(get_spec(r, Spec(w), Qns{q})) == *s, std::string(spec_names[w]) + " of quantum numbers " + std::to_string(q));
      else
        req(throws([&] { (void)get_spec(r, Spec(w), Qns{q}); }), std::string(spec_names[w]) + ": missing space must throw");
    }
  }
  for (auto q : qs) {
    auto *cs = m.spec(Complete, q), *vs = m.spec(VacOcc, q);
    const Space* u = cs && vs ? m.attr(cs->type & ~vs->type, q) : nullptr;
    if (u)
      req(of(r.vacuum_unoccupied_space(Qns{q})) == *u, "vacuum_unoccupied_space is not the rest of the complete space");
    else if (!(cs && vs && !(cs->type & ~vs->type)))
      req(throws([&] { (void)r.vacuum_unoccupied_space(Qns{q}); }), "vacuum_unoccupied_space must throw");
    for (auto& s : want) {
      if (s.qns != q || (q & ~m.mask)) continue;
      auto& x = r.retrieve(s.key);
      if (vs) {
        req(r.is_pure_occupied(x) == !(s.type & ~vs->type) && r.is_pure_occupied(s.key) == r.is_pure_occupied(x), "is_pure_occupied of " + show(s) + " with vacuum " + show(*vs));
        req(r.is_pure_unoccupied(x) == !(s.type & vs->type) && r.is_pure_unoccupied(s.key) == r.is_pure_unoccupied(x), "is_pure_unoccupied of " + show(s));
        req(r.contains_occupied(x) == bool(s.type & vs->type) && r.contains_occupied(s.key) == r.contains_occupied(x), "contains_occupied of " + show(s));
      }
      if (u) req(r.contains_unoccupied(x) == bool(s.type & u->type) && r.contains_unoccupied(s.key) == r.contains_unoccupied(x), "contains_unoccupied of " + show(s));
    }
  }
  // algebra
  for (auto& s : want)
    for (auto& t : want) {
      auto &x = r.retrieve(s.key), &y = r.retrieve(t.key);
      const std::string at = " of " + show(s) + " and " + show(t);
      const auto ti = s.type & t.type, qi = s.qns & t.qns;
      const bool disjoint = s.qns != t.qns && !qi;
      req(includes(x, y) == (ti == t.type && qi == t.qns), "includes" + at);
      const Space* i = disjoint || !ti ? nullptr : m.attr(ti, qi);
      if (i || disjoint || !ti) {
        const auto& z = r.intersection(x, y);
        req(i ? of(z) == *i : z == IndexSpace::null, "intersection" + at);
        req(r.intersection(y, x) == z && r.intersection(s.key, t.key) == z, "intersection is not symmetric" + at);
      } else
        req(throws([&] { (void)r.intersection(x, y); }) && throws([&] { (void)r.intersection(s.key, t.key); }), "unregistered intersection must throw" + at);
      req(r.valid_intersection(x, y) == bool(i) && r.valid_intersection(s.key, t.key) == bool(i), "valid_intersection" + at);
      const Space* u = s == t ? &s : s.qns == t.qns ? m.attr(s.type | t.type, s.qns) : nullptr;
      if (u) {
        req(of(r.unIon(x, y)) == *u && of(r.unIon(y, x)) == *u && of(r.unIon(s.key, t.key)) == *u, "union" + at);
      } else
        req(throws([&] { (void)r.unIon(x, y); }) && throws([&] { (void)r.unIon(s.key, t.key); }), "unregistered union must throw" + at);
      if (s.qns == t.qns && ti != s.type && ti != t.type) req(r.valid_unIon(x, y) == bool(u) && r.valid_unIon(s.key, t.key) == bool(u) && r.valid_union(x, y) == bool(u), "valid_unIon" + at);
    }
}

void history(Case& c) {
  auto& s = c.s;
  std::vector<Pair> regs;
  regs.push_back({std::make_unique<IndexSpaceRegistry>(), {}});
  const bool spins = s.coin();
  auto random_type = [&] { return std::int32_t(s.coin() ? 1 << s.below(4) : 1 + s.below(15)); };
  auto random_qns = [&] { return std::int32_t(spins ? s.below(4) : 0); };
  const int steps = 3 + s.below(22);
  int added = 0, composite = 0, copies = 0;
  for (int k = 0; k < steps; ++k) {
    const auto n = s.below((std::uint32_t)regs.size());
    auto& P = regs[n];
    auto& r = *P.r;
    auto& m = P.m;
    const std::string who = std::to_string(n) + ": ";
    auto any_key = [&]() -> std::wstring {
      if (m.spaces->empty() || s.chance(1, 10)) return s.pick(KEYS);
      auto it = m.spaces->begin();
      std::advance(it, s.below((std::uint32_t)m.spaces->size()));
      return it->first;
    };
    // outcome of an operation that may throw: the model is changed only if not
    auto expect = [&](bool ok, const std::string& what, const std::function<void()>& f) {
      c.note(who + what + (ok ? "" : " [throws]"));
      const bool t = throws(f);
      c.require(t == !ok, what + (t ? " throws" : " does not throw"));
    };
    switch (s.weighted({10, 5, 4, 3, 3, 3, 6, 2, 4, 1})) {
      case 0: {  // add
        Space x{s.pick(KEYS), random_type(), random_qns(), 1 + s.below(30), s.coin() ? Field::Real : Field::Complex};
        const bool ok = m.addable(x);
        if (s.coin()) {
          expect(ok, "add " + show(x), [&] { r.add(IndexSpace(x.key, Type{x.type}, Qns{x.qns}, x.size, x.field)); });
        } else {
          const int tag = s.below(6);
          auto f = [&](auto... tags) {
            if (s.coin())
              r.add(x.key, Type{x.type}, Qns{x.qns}, (unsigned long)x.size, x.field, tags...);
            else
              r.add(x.key, Type{x.type}, x.field, tags..., (unsigned long)x.size, Qns{x.qns});
          };
          expect(ok, "add " + show(x) + " with tag " + std::to_string(tag), [&] {
            switch (tag) {
              case 0: f(); break;
              case 1: f(is_vacuum_occupied); break;
              case 2: f(is_reference_occupied, is_vacuum_occupied); break;
              case 3: f(is_complete); break;
              case 4: f(is_hole, is_complete); break;
              default: f(is_particle); break;
            }
          });
          if (ok) {
            if (tag == 1 || tag == 2) m.type[VacOcc] = x.type;
            if (tag == 2) m.type[RefOcc] = x.type;
            if (tag == 3 || tag == 4) m.type[Complete] = x.type;
            if (tag == 4) m.type[Hole] = x.type;
            if (tag == 5) m.type[Particle] = x.type;
          }
        }
        if (ok) m.spaces->emplace(x.key, x), ++added;
        break;
      }
      case 1:
      case 2: {  // union, intersection
        const bool isect = s.chance(1, 3);
        const int nc = 2 + s.below(2);
        std::vector<std::wstring> ks;
        bool ok = true;
        std::int32_t t = 0, q = 0;
        for (int j = 0; j < nc; ++j) {
          ks.push_back(any_key());
          auto* x = m.key(ks.back());
          if (!x) {
            ok = false;
            break;
          }
          if (!j)
            t = x->type, q = x->qns;
          else if (isect)
            t &= x->type, q &= x->qns;
          else
            t |= x->type, q |= x->qns;
        }
        while ((int)ks.size() < nc) ks.push_back(any_key());
        if (ok && (!t || Model::single(t))) break;  // nothing, or a base space: not made this way
        Space x{s.pick(KEYS), t, q};
        if (ok) {
          std::tie(x.size, x.field) = m.composite(t, q);
          ok = m.addable(x);
        }
        const bool tag = s.coin(), labels = s.coin();
        std::string what = std::string(isect ? "intersection " : "union ") + show(x) + " of";
        for (auto& k : ks) what += " " + pbt::to_utf8(k);
        expect(ok, what, [&] {
          auto go = [&](auto... a) {
            auto add = [&](auto list) {
              if (isect)
                tag ? r.add_intersection(x.key, list, is_complete) : r.add_intersection(x.key, list);
              else if (s.coin())
                tag ? r.add_unIon(x.key, list, is_complete) : r.add_unIon(x.key, list);
              else
                tag ? r.add_union(x.key, list, is_complete) : r.add_union(x.key, list);
            };
            if (labels)
              add(std::initializer_list<std::wstring>{a...});
            else
              add(std::initializer_list<IndexSpace>{r.retrieve(a)...});
          };
          nc == 2 ? go(ks[0], ks[1]) : go(ks[0], ks[1], ks[2]);
        });
        if (ok) {
          m.spaces->emplace(x.key, x);
          ++composite;
          if (tag) m.type[Complete] = t;
        }
        break;
      }
      case 3: {  // remove
        const auto key = any_key();
        auto* x = m.key(key);
        if (s.coin())
          expect(x, "remove key " + pbt::to_utf8(key), [&] { r.remove(key); });
        else
          expect(true, "remove space " + pbt::to_utf8(key), [&] { r.remove(x ? IndexSpace(r.retrieve(key)) : IndexSpace(key, Type{1})); });
        m.spaces->erase(key);
        break;
      }
      case 4: {  // replace
        Space x{any_key(), random_type(), random_qns(), 1 + s.below(30), s.coin() ? Field::Real : Field::Complex};
        if (auto* old = m.attr(x.type, x.qns); old && old->key != x.key) break;
        expect(true, "replace " + show(x), [&] { r.replace(IndexSpace(x.key, Type{x.type}, Qns{x.qns}, x.size, x.field)); });
        (*m.spaces)[x.key] = x;
        break;
      }
      case 5: {  // mask
        m.mask = s.below(4);
        c.note(who + "mask " + std::to_string(m.mask));
        r.physical_particle_attribute_mask(bitset_t(m.mask));
        c.require(r.physical_particle_attribute_mask() == bitset_t(m.mask), "mask");
        break;
      }
      case 6: {  // choices
        const Spec w = Spec(s.below(NSpec));
        const int how = s.below(4);
        if (how == 0) {
          const auto t = random_type();
          const bool ok = m.has_type(t);
          expect(ok, std::string(spec_names[w]) + " type " + std::to_string(t), [&] { set_spec(r, w, Type{t}); });
          if (ok) m.type[w] = t;
        } else if (how == 1 || how == 2) {
          const auto key = any_key();
          auto* x = m.key(key);
          if (how == 2 && !x) break;
          expect(x, std::string(spec_names[w]) + " " + pbt::to_utf8(key), [&] { how == 1 ? set_spec(r, w, key) : set_spec(r, w, r.retrieve(key)); });
          if (x) m.type[w] = x->type;
        } else {
          QMap q;
          std::map<std::int32_t, std::int32_t> mq;
          bool ok = true;
          std::string what;
          for (int j = 0, e = 1 + s.below(3); j < e; ++j) {
            const auto key = any_key();
            auto* x = m.key(key);
            const Space y = x ? *x : Space{key, random_type(), random_qns()};
            if (mq.emplace(y.qns, y.type).second) {
              q.emplace(Qns{y.qns}, Type{y.type});
              ok = ok && m.attr(y.type, y.qns);
              what += " " + std::to_string(y.qns) + "->" + std::to_string(y.type);
            }
          }
          expect(ok, std::string(spec_names[w]) + " map" + what, [&] { set_spec(r, w, q); });
          if (ok) m.by_qns[w] = mq;
        }
        break;
      }
      case 7: {  // clear
        c.note(who + "clear");
        c.require(&r.clear() == &r, "clear returns another registry");
        m = Model{};
        break;
      }
      case 8: {  // copies
        ++copies;
        const int how = s.below(5);
        Model copy = m;
        if (how == 1 || how == 4) copy.spaces = std::make_shared<std::map<std::wstring, Space>>(*m.spaces);
        if (regs.size() < 3 && how != 4) {
          c.note(who + (how == 0 ? "copy" : how == 1 ? "clone" : how == 2 ? "move" : "copy") + std::string(" to new"));
          if (how == 2) {
            auto moved = std::make_unique<IndexSpaceRegistry>(std::move(r));
            P.r = std::move(moved);
          } else
            regs.push_back({how == 1 ? std::make_unique<IndexSpaceRegistry>(r.clone()) : std::make_unique<IndexSpaceRegistry>(r), copy});
        } else {
          const auto to = s.below((std::uint32_t)regs.size());
          c.note(who + (how == 4 || how == 1 ? "clone" : "copy") + std::string(" assigned to ") + std::to_string(to));
          if (how == 4 || how == 1)
            *regs[to].r = r.clone();  // move assignment
          else
            *regs[to].r = r;
          regs[to].m = copy;
        }
        break;
      }
      default: {  // equality
        const auto to = s.below((std::uint32_t)regs.size());
        bool eq = m.spaces->size() == regs[to].m.spaces->size();
        if (eq)
          for (auto& [k, x] : *m.spaces) {
            auto* y = regs[to].m.key(k);
            if (!y || y->type != x.type || y->qns != x.qns) eq = false;
          }
        c.require((r == *regs[to].r) == eq, "equality of registries " + std::to_string(n) + " and " + std::to_string(to));
      }
    }
    for (std::size_t j = 0; j < regs.size(); ++j) compare(c, regs[j], std::to_string(j));
  }
  c.nontrivial = added > 2 && (composite || copies);
  c.tag("composite", composite);
  c.tag("copies", copies);
}

// attributes are sets: laws of their algebra, order, hash
void attributes(Case& c) {
  auto& s = c.s;
  auto r = [&] { return std::int32_t(s.coin() ? s.below(16) : std::int32_t(s.bits() & 0x7fffffff)); };
  const std::int32_t t[3] = {r(), r(), r()}, q[3] = {r(), r(), r()};
  IndexSpace::Attr a[3];
  for (int k = 0; k < 3; ++k) {
    a[k] = IndexSpace::Attr(t[k], q[k]);
    c.note("{" + std::to_string(t[k]) + "," + std::to_string(q[k]) + "}");
  }
  c.nontrivial = t[0] != t[1] || q[0] != q[1];
  auto is = [](const IndexSpace::Attr& x, std::int32_t t, std::int32_t q) { return x.type().to_int32() == t && x.qns().to_int32() == q; };
  c.require(is(a[0].unIon(a[1]), t[0] | t[1], q[0] | q[1]) && (a[0] | a[1]) == a[0].unIon(a[1]), "union");
  c.require(is(a[0].intersection(a[1]), t[0] & t[1], q[0] & q[1]) && (a[0] & a[1]) == a[0].intersection(a[1]), "intersection");
  c.require(a[0].includes(a[1]) == (!(t[1] & ~t[0]) && !(q[1] & ~q[0])), "includes");
  const Type T0{t[0]}, T1{t[1]};
  const Qns Q0{q[0]}, Q1{q[1]};
  c.require((T0 | T1).to_int32() == (t[0] | t[1]) && (T0 & T1).to_int32() == (t[0] & t[1]) && (T0 ^ T1).to_int32() == (t[0] ^ t[1]) && T0.xOr(T1) == (T0 ^ T1), "types");
  c.require((Q0 | Q1).to_int32() == (q[0] | q[1]) && (Q0 & Q1).to_int32() == (q[0] & q[1]) && (Q0 ^ Q1).to_int32() == (q[0] ^ q[1]) && Q0.xOr(Q1) == (Q0 ^ Q1), "quantum numbers");
  c.require(T0.includes(T1) == !(t[1] & ~t[0]) && Q0.includes(Q1) == !(q[1] & ~q[0]) && includes(T0, T1) == T0.includes(T1) && includes(Q0, Q1) == Q0.includes(Q1), "includes of parts");
  c.require(bool(T0) == bool(t[0]) && bool(Q0) == bool(q[0]) && bool(a[0]) == bool(t[0] || q[0]), "null attributes");
  c.require((T0 == T1) == (t[0] == t[1]) && (Q0 == Q1) == (q[0] == q[1]) && (a[0] == a[1]) == (t[0] == t[1] && q[0] == q[1]) && (a[0] != a[1]) == !(a[0] == a[1]), "equality");
  c.require((a[0] < a[1]) == (q[0] != q[1] ? q[0] < q[1] : t[0] < t[1]), "order");
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      IndexSpace x(L"x", a[i].type(), a[i].qns(), 1 + s.below(9)), y(s.coin() ? L"x" : L"y", a[j].type(), a[j].qns(), 1 + s.below(9), s.coin() ? Field::Real : Field::Complex);
      c.require((x == y) == (a[i] == a[j] && x.base_key() == y.base_key()) && (x != y) == !(x == y), "equality of spaces");
      c.require((x <=> y) == (a[i] == a[j] ? std::strong_ordering::equal : a[i] < a[j] ? std::strong_ordering::less : std::strong_ordering::greater), "order of spaces");
      if (x == y) c.require(hash_value(x) == hash_value(y), "equal spaces have different hashes");
      IndexSpace cp(x), mv(std::move(cp));
      c.require(of(mv) == of(x) && cp == IndexSpace::null && !cp, "move of a space");
      cp = mv;
      c.require(of(cp) == of(x), "assignment of a space");
      y = std::move(cp);
      c.require(of(y) == of(x) && cp == IndexSpace::null, "move assignment of a space");
    }
  // the symmetry derived from hermiticity and field
  for (auto h : {Hermiticity::Hermitian, Hermiticity::AntiHermitian, Hermiticity::NonHermitian})
    for (auto f : {Field::Real, Field::Complex}) {
      const auto b = to_braket_symmetry(h, f);
      c.require(b == (h != Hermiticity::Hermitian ? BraKetSymmetry::Nonsymm : f == Field::Real ? BraKetSymmetry::Symm : BraKetSymmetry::Conjugate), "to_braket_symmetry");
      if (h == Hermiticity::Hermitian) c.require(to_hermiticity(b) == h, "to_hermiticity");
    }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C15";
  p.init = [] { set_num_threads(1); };
  p.facets = {
      {"history", "up to 3 registries, some sharing spaces, through 3-24 operations, every query compared after each; non-trivial: several spaces and a composite space or a copy", history, 6000, 150000},
      {"attributes", "laws of types, quantum numbers, attributes, spaces; non-trivial: two different ones", attributes, 20000, 300000},
  };
  return pbt::run(p, argc, argv);
}
