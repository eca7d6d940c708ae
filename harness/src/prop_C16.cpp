// Indices: construction, labels, order, replacement, factories, against a
// reference model.
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/runtime.hpp>

#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include "gen.hpp"
#include "pbt.hpp"
using namespace sequant;
using pbt::Case;
using pbt::Src;

namespace {
// the reference
struct MI {
  IndexSpace space;
  std::optional<std::uint64_t> ord;
  std::vector<MI> protos;
  bool symm = true;
  bool tag = false;
};
int cmp3(auto a, auto b) { return a < b ? -1 : b < a ? 1 : 0; }
int cmp_space(const IndexSpace& a, const IndexSpace& b) {
  if (int c = cmp3(a.qns().to_int32(), b.qns().to_int32())) return c;
  if (int c = cmp3(a.type().to_int32(), b.type().to_int32())) return c;
  return cmp3(a.base_key(), b.base_key());
}
int cmp(const MI& a, const MI& b);
int cmp_protos(const MI& a, const MI& b) {
  for (std::size_t k = 0; k < std::min(a.protos.size(), b.protos.size()); ++k)
    if (int c = cmp(a.protos[k], b.protos[k])) return c;
  return cmp3(a.protos.size(), b.protos.size());
}
int cmp_label(const MI& a, const MI& b) {
  if (int c = cmp_space(a.space, b.space)) return c;
  return cmp3(a.ord ? std::int64_t(*a.ord) : -1, b.ord ? std::int64_t(*b.ord) : -1);
}
int cmp(const MI& a, const MI& b) {
  if (int c = cmp_label(a, b)) return c;
  return cmp_protos(a, b);
}
void canon(MI& a) {
  if (a.symm) std::stable_sort(a.protos.begin(), a.protos.end(), [](auto& x, auto& y) { return cmp(x, y) < 0; });
}
std::wstring label(const MI& a) { return std::wstring(a.space.base_key()) + (a.ord ? L"_" + std::to_wstring(*a.ord) : L""); }
std::wstring full(const MI& a) {
  auto r = label(a);
  if (a.protos.empty()) return r;
  r += L"<";
  for (std::size_t k = 0; k < a.protos.size(); ++k) r += (k ? L", " : L"") + full(a.protos[k]);
  return r + L">";
}
bool same(const MI& a, const MI& b) { return !cmp(a, b); }
bool distinct(const std::vector<MI>& v) {
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (same(v[i], v[j])) return false;
  return true;
}

struct Both {
  Index i;
  MI m;
};

void check(Case& c, const Index& i, const MI& m, const std::string& what) {
  auto req = [&](bool ok, const std::string& w) {
    if (!ok) c.fail(what + ": " + w + " (label " + pbt::to_utf8(std::wstring(i.full_label())) + ", expected " + pbt::to_utf8(full(m)) + ")");
  };
  req(i.space() == m.space && i.space().approximate_size() == m.space.approximate_size() && i.space().field() == m.space.field(), "space");
  req(i.ordinal() == m.ord, "ordinal");
  req(i.label() == label(m), "label");
  req(i.full_label() == full(m), "full label");
  req(i.to_string() == pbt::to_utf8(label(m)), "narrow label");
  req(i.has_proto_indices() == !m.protos.empty() && i.proto_indices().size() == m.protos.size(), "number of proto indices");
  req(i.symmetric_proto_indices() == m.symm, "symmetry of proto indices");
  for (std::size_t k = 0; k < m.protos.size(); ++k) check(c, i.proto_indices()[k], m.protos[k], what + ", proto " + std::to_string(k));
}

void compare(Case& c, const Both& a, const Both& b) {
  auto req = [&](bool ok, const std::string& w) {
    if (!ok) c.fail(w + " of " + pbt::to_utf8(full(a.m)) + " and " + pbt::to_utf8(full(b.m)));
  };
  const int d = cmp(a.m, b.m);
  req((a.i == b.i) == (d == 0) && (a.i != b.i) == (d != 0), "equality");
  req((a.i < b.i) == (d < 0) && (a.i > b.i) == (d > 0) && (a.i <=> b.i) == (d < 0 ? std::strong_ordering::less : d > 0 ? std::strong_ordering::greater : std::strong_ordering::equal), "order");
  if (!d) req(hash_value(a.i) == hash_value(b.i), "hashes");
  req(Index::LabelCompare{}(a.i, b.i) == (cmp_label(a.m, b.m) < 0), "order by label");
  req(Index::FullLabelCompare{}(a.i, b.i) == (d < 0), "order by full label");
  const int s = cmp_space(a.m.space, b.m.space), t = s ? s : cmp_protos(a.m, b.m);
  req(Index::TypeCompare{}(a.i, b.i) == (t < 0), "order by type");
  req(Index::TypeEquality{}(a.i, b.i) == (t == 0), "equality of types");
  bool colors = a.m.space.attr() == b.m.space.attr() && a.m.protos.size() == b.m.protos.size();
  for (std::size_t k = 0; colors && k < a.m.protos.size(); ++k) colors = a.m.protos[k].space.attr() == b.m.protos[k].space.attr();
  if (colors) req(a.i.color() == b.i.color(), "colors");
}

struct Env {
  std::vector<IndexSpace> spaces;
  bool registry = true;
  std::uint64_t limit = 100;
};
Env make_env(Case& c) {
  auto& s = c.s;
  Env e;
  if (s.chance(1, 6)) {
    e.registry = false;
    e.limit = s.coin() ? 100 : 20 + s.below(100);
    set_default_context({.first_dummy_index_ordinal = e.limit});
    Index::reset_tmp_index();
    for (auto k : {L"i", L"a", L"p", L"x'", L"α"}) e.spaces.push_back(IndexSpace(k, IndexSpace::Type::reserved, IndexSpace::QuantumNumbers::reserved));
    c.note("no registry");
  } else {
    auto w = gen::make_world(s);
    e.spaces = w.spaces;
    for (auto& x : w.aux_spaces) e.spaces.push_back(x);
    e.limit = get_default_context().first_dummy_index_ordinal();
    c.note(w.name);
  }
  c.note("limit " + std::to_string(e.limit));
  return e;
}

template <class F>
bool throws(F&& f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// one new index, by a random way to make one; model first, as the case may
// require an exception
std::optional<Both> construct(Case& c, Env& e, std::vector<Both>& pool) {
  auto& s = c.s;
  MI m;
  m.space = s.pick(e.spaces);
  const bool has_ord = s.chance(5, 6);
  if (has_ord) m.ord = s.chance(1, 12) ? e.limit - 2 + s.below(5) : s.below(s.coin() ? 4 : 15);
  m.symm = s.chance(2, 3);
  std::vector<Index> protos;
  if (s.coin())
    for (int k = 0, n = 1 + s.below(3); k < n; ++k) {
      MI p;
      p.space = s.pick(e.spaces);
      if (s.chance(9, 10)) p.ord = s.below(4);
      m.protos.push_back(p);
      protos.push_back(p.ord ? Index(p.space, *p.ord) : Index(p.space));
    }
  const bool too_big = m.ord && *m.ord >= e.limit;
  const bool dup = !distinct(m.protos);
  bool ok = !too_big && !dup;
  // labels
  const std::wstring key(m.space.base_key());
  std::wstring l = key;
  if (m.ord) l += (s.chance(1, 5) ? L"" : s.chance(1, 8) ? L"_0" : L"_") + std::to_wstring(*m.ord);
  const auto l8 = pbt::to_utf8(l);
  const int how = s.below(14);
  std::string note = "construct(" + std::to_string(how) + ") " + l8 + (m.symm ? "" : " asymmetric") + " ->" + pbt::to_utf8(full(m));
  Index r;
  auto run = [&]() -> Index {
    using IL = std::initializer_list<Index>;
    using SL = std::initializer_list<std::wstring>;
    auto with_list = [&](auto&& f) -> Index {  // f(initializer_list)
      switch (protos.size()) {
        case 0: return f(IL{});
        case 1: return f(IL{protos[0]});
        case 2: return f(IL{protos[0], protos[1]});
        default: return f(IL{protos[0], protos[1], protos[2]});
      }
    };
    switch (how) {
      case 0:  // label of any kind; no protos
        m.protos.clear(), m.symm = true, ok = !too_big;
        switch (s.below(6)) {
          case 0: return Index(l);
          case 1: return Index(std::wstring(l));
          case 2: return Index(std::wstring_view(l));
          case 3: return Index(l.c_str());
          case 4: return Index(l8);
          default: return Index(std::string_view(l8));
        }
      case 1:
        m.protos.clear(), m.symm = true, ok = !too_big;
        if (!m.ord) return Index(m.space);
        switch (s.below(4)) {
          case 0: return Index(m.space, int(*m.ord));
          case 1: return Index(m.space, short(*m.ord));
          case 2: return Index(m.space, std::size_t(*m.ord));
          default: return Index(m.space, std::optional<long>(*m.ord));
        }
      case 2: m.ord.reset(), ok = !dup; return Index(m.space, protos, m.symm);
      case 3: m.ord.reset(), ok = !dup; return with_list([&](auto p) { return Index(m.space, p, m.symm); });
      case 4: return m.ord ? Index(m.space, *m.ord, protos, m.symm) : Index(m.space, std::optional<int>{}, protos, m.symm);
      case 5: return with_list([&](auto p) { return m.ord ? Index(m.space, int(*m.ord), p, m.symm) : Index(m.space, std::optional<int>{}, p, m.symm); });
      case 6: return Index(m.space, m.ord, protos, m.symm);
      case 7: return with_list([&](auto p) { return Index(l, p, m.symm); });
      case 8: return with_list([&](auto p) { return Index(std::wstring(l), p, m.symm); });
      case 9: return Index(l, protos, m.symm);
      case 10: return Index(std::wstring(l), std::move(protos), m.symm);
      case 11: {  // labels of protos
        if (protos.size() == 1) return Index(std::wstring_view(l), SL{label(m.protos[0])}, m.symm);
        if (protos.size() == 2) return Index(std::wstring_view(l), SL{label(m.protos[0]), label(m.protos[1])}, m.symm);
        return Index(std::wstring_view(l), protos, m.symm);
      }
      case 12: {  // from an index, whose own protos are dropped
        auto& o = s.pick(pool);
        m.space = o.m.space, m.ord = o.m.ord, ok = !dup;
        if (s.coin()) return Index(o.i, protos, m.symm);
        return with_list([&](auto p) { return Index(o.i, p, m.symm); });
      }
      default:  // label's ordinal, another space
        m.protos.clear(), m.symm = true, ok = !too_big;
        {
          auto sp = s.pick(e.spaces);
          m.space = sp;
          return s.coin() ? Index(l, sp) : Index(std::wstring_view(l), sp);
        }
    }
  };
  if (how == 12 && pool.empty()) return {};
  c.note(note);
  const bool threw = throws([&] { r = run(); });
  c.require(threw == !ok, std::string(ok ? "construction throws" : "construction does not throw") + ": " + note);
  if (threw) return {};
  canon(m);
  return Both{r, m};
}

void value(Case& c) {
  auto& s = c.s;
  auto e = make_env(c);
  std::vector<Both> pool;
  const int steps = 3 + s.below(14);
  int changed = 0, protos = 0;
  for (int k = 0; k < steps; ++k) {
    if (pool.size() < 2 || s.chance(2, 5)) {
      if (auto b = construct(c, e, pool)) {
        if (s.coin()) check(c, b->i, b->m, "constructed");
        pool.push_back(std::move(*b));
        protos += !pool.back().m.protos.empty();
      }
      continue;
    }
    ++changed;
    const auto x = s.below((std::uint32_t)pool.size()), y = s.below((std::uint32_t)pool.size());
    auto &a = pool[x], &b = pool[y];
    const auto at = " " + std::to_string(x) + ", " + std::to_string(y);
    switch (s.below(9)) {
      case 0: c.note("copy" + at), pool.push_back({Index(a.i), a.m}); break;
      case 1: {
        c.note("assign" + at);
        b.i = a.i, b.m = a.m;
        break;
      }
      case 2: {
        c.note("move" + at);
        Index t(std::move(a.i));
        c.require(!a.i && a.i == Index::null && a.i.label() == L"" && a.i.symmetric_proto_indices() && !a.i.has_proto_indices(), "moved-from index is not null");
        a.i = std::move(t);
        c.require(!t && t == Index::null && t.label() == L"", "moved-from index is not null");
        break;
      }
      case 3: {
        c.note("swap" + at);
        swap(a.i, b.i);
        std::swap(a.m, b.m);
        break;
      }
      case 4: {
        auto sp = s.pick(e.spaces);
        c.note("replace_space" + at + " by " + pbt::to_utf8(std::wstring(sp.base_key())));
        MI m = a.m;
        m.space = sp;
        if (s.coin()) {
          pool.push_back({a.i.replace_space(sp), m});
        } else if (s.coin()) {
          pool.push_back({Index(a.i, sp), m});
        } else {
          Index t(a.i);
          if (s.coin()) (void)t.label(), (void)t.full_label();
          pool.push_back({Index(std::move(t), sp), m});
        }
        break;
      }
      case 5: {
        c.note("drop_proto_indices" + at);
        MI m = a.m;
        m.protos.clear(), m.symm = true;
        pool.push_back({a.i.drop_proto_indices(), m});
        break;
      }
      case 6: {  // a temporary index
        MI m;
        m.space = s.pick(e.spaces);
        if (s.coin()) {
          c.note("temporary");
          auto t = Index::make_tmp_index(m.space);
          c.require(t.ordinal() && *t.ordinal() >= e.limit, "ordinal of a temporary index is too small");
          m.ord = t.ordinal();
          pool.push_back({t, m});
        } else {
          c.note("temporary with protos of" + at);
          m.protos = a.m.protos, m.symm = s.coin();
          auto t = Index::make_tmp_index(m.space, a.i.proto_indices(), m.symm);
          c.require(t.ordinal() && *t.ordinal() >= e.limit, "ordinal of a temporary index is too small");
          m.ord = t.ordinal();
          canon(m);
          pool.push_back({t, m});
        }
        if (s.chance(1, 3)) {  // another first ordinal
          e.limit = std::max<std::int64_t>(20, std::int64_t(e.limit) - 10 + s.below(30));
          c.note("limit is now " + std::to_string(e.limit));
          auto ctx = get_default_context();
          ctx.set_first_dummy_index_ordinal(e.limit);
          set_default_context(ctx);
          if (s.chance(1, 4)) {
            Index::reset_tmp_index();
            auto t = Index::make_tmp_index(m.space);
            c.require(t.ordinal() == e.limit, "first temporary index after reset_tmp_index()");
          }
        }
        break;
      }
      case 7: {  // round trip of labels; labels with reserved ordinals cannot be made
        c.note("label round trip" + at);
        MI m = a.m;
        const bool ok = !m.ord || *m.ord < e.limit;
        m.protos.clear(), m.symm = true;
        Index t;
        const bool threw = throws([&] { t = Index(a.i.label()); });
        c.require(threw == !ok, "index from a label");
        if (ok) pool.push_back({t, m});
        break;
      }
      default: {  // labels that no index can have
        static const std::vector<std::wstring> bad = {L"_", L"_x", L"_1x", L"_-1", L"_99999999999999999999", L"_1_2"};
        const auto l = std::wstring(a.m.space.base_key()) + s.pick(bad);
        c.note("malformed " + pbt::to_utf8(l));
        c.require(throws([&] { Index t(l); }), "malformed label " + pbt::to_utf8(l) + " is accepted");
        if (e.registry) c.require(throws([&] { Index t(L"nosuchspace_1"); }), "label of an unknown space is accepted");
        if (s.coin()) c.require(throws([&] { Index t(a.m.space, -1 - (int)s.below(3)); }), "negative ordinal is accepted");
      }
    }
  }
  for (auto& a : pool) check(c, a.i, a.m, "pool");
  for (auto& a : pool)
    for (auto& b : pool) compare(c, a, b);
  // base field
  if (pool.size() > 2) {
    std::vector<Index> bra, ket;
    bool complex = false;
    for (auto& a : pool) {
      const auto w = s.below(3);
      if (w == 2) continue;
      (w ? ket : bra).push_back(a.i);
      complex = complex || a.m.space.field() == Field::Complex;
    }
    if (s.coin()) bra.push_back(Index::null);
    c.require(base_field(bra, ket) == (complex ? Field::Complex : Field::Real), "base_field");
  }
  c.nontrivial = changed && protos;
  c.tag("protos", protos);
}

// replacement by a map
using Map = std::vector<std::pair<MI, MI>>;
const MI* find(const Map& m, const MI& x) {
  for (auto& [k, v] : m)
    if (same(k, x)) return &v;
  return nullptr;
}
bool transform(MI& x, const Map& map) {
  auto replace = [&] {
    auto* v = find(map, x);
    if (!v) return false;
    x = *v;
    x.tag = true;
    return true;
  };
  const bool tagged = x.tag;
  if (!tagged && replace()) return true;
  bool any = false;
  for (auto& p : x.protos)
    if (transform(p, map)) any = true;
  if (!any) return false;
  canon(x);
  if (!tagged) replace();
  return true;
}
void check_tags(Case& c, const Index& i, const MI& m) {
  c.require(i.tag().has_value() == m.tag && (!m.tag || i.tag().value<int>() == 0), "tag of " + pbt::to_utf8(full(m)));
  for (std::size_t k = 0; k < m.protos.size(); ++k) check_tags(c, i.proto_indices()[k], m.protos[k]);
}

void transforms(Case& c) {
  auto& s = c.s;
  auto e = make_env(c);
  std::vector<IndexSpace> two = {s.pick(e.spaces), s.pick(e.spaces)};
  auto plain = [&] {
    MI m;
    m.space = s.pick(two);
    m.ord = 1 + s.below(4);
    return m;
  };
  auto any = [&](bool symm) {
    MI m = plain();
    m.symm = symm;
    if (s.coin())
      for (int k = 0, n = 1 + s.below(2); k < n; ++k) m.protos.push_back(plain());
    if (!distinct(m.protos)) m.protos.pop_back();
    if (m.protos.empty()) m.symm = true;
    canon(m);
    return m;
  };
  auto real = [&](const MI& m) {
    std::vector<Index> p;
    for (auto& q : m.protos) p.push_back(Index(q.space, *q.ord));
    return Index(m.space, *m.ord, p, m.symm);
  };
  const bool symm = s.chance(2, 3);
  Map map;
  std::map<Index, Index> std_map;
  container::map<Index, Index> flat_map;
  for (int k = 0, n = 1 + s.below(5); k < n; ++k) {
    auto a = any(symm);
    if (find(map, a)) continue;
    auto b = a.protos.empty() ? plain() : any(symm);
    map.emplace_back(a, b);
    std_map.emplace(real(a), real(b));
    flat_map.emplace(real(a), real(b));
    c.note(pbt::to_utf8(full(a)) + " -> " + pbt::to_utf8(full(b)));
  }
  bool some = false, second = false;
  for (int k = 0; k < 4; ++k) {
    auto m = any(symm);
    auto i = real(m);
    c.note("transform " + pbt::to_utf8(full(m)));
    for (int pass = 0; pass < 2; ++pass) {
      auto before = m;
      if (s.coin()) (void)i.label(), (void)i.full_label();
      const bool want = transform(m, map);
      if (!distinct(m.protos)) throw pbt::Discard{};
      const bool got = s.coin() ? i.transform(std_map) : i.transform(flat_map);
      check(c, i, m, "transformed, pass " + std::to_string(pass));
      check_tags(c, i, m);
      c.require(got == want, "transform returns " + std::to_string(got) + ", pass " + std::to_string(pass));
      some = some || want;
      second = second || (pass && want);
      if (s.coin()) {
        i.reset_tag();
        m.tag = false;
        for (auto& p : m.protos) p.tag = false;
        check_tags(c, i, m);
      }
    }
  }
  c.nontrivial = some;
  c.tag("second", second);
}

// factories of indices
void factory(Case& c) {
  auto& s = c.s;
  auto e = make_env(c);
  const std::size_t min = s.coin() ? e.limit : 1 + s.below(50);
  const int mod = s.below(4);  // 0: all are valid
  auto valid = [mod](std::uint64_t n) { return !mod || n % (mod + 1) != 0; };
  std::unique_ptr<IndexFactory> f;
  std::size_t first = min;
  if (!mod && s.coin()) {
    f = std::make_unique<IndexFactory>();
    first = e.limit;
  } else if (min == e.limit && s.coin())
    f = std::make_unique<IndexFactory>([&](const Index& i) { return valid(*i.ordinal()); });
  else
    f = std::make_unique<IndexFactory>([&](const Index& i) { return valid(*i.ordinal()); }, min);
  std::map<std::wstring, std::uint64_t> last;
  std::set<std::wstring> seen;
  c.note("first " + std::to_string(first) + " mod " + std::to_string(mod));
  for (int k = 0, n = 2 + s.below(20); k < n; ++k) {
    MI m;
    m.space = s.pick(e.spaces);
    auto& l = last.emplace(std::wstring(m.space.base_key()), first - 1).first->second;
    do ++l;
    while (!valid(l));
    m.ord = l;
    Index i;
    if (s.coin()) {
      i = f->make(m.space);
    } else {
      std::vector<Index> protos;
      m.symm = s.coin();
      for (int j = 0, np = s.below(4); j < np; ++j) {
        MI p;
        p.space = s.pick(e.spaces), p.ord = s.below(5);
        m.protos.push_back(p);
        if (!distinct(m.protos)) {
          m.protos.pop_back();
          continue;
        }
        protos.push_back(Index(p.space, *p.ord));
      }
      canon(m);
      i = f->make(Index(m.space, 1, protos, m.symm));
    }
    c.note("make " + pbt::to_utf8(full(m)));
    check(c, i, m, "made by a factory");
    c.require(seen.insert(std::wstring(i.label())).second, "index is made twice");
  }
  c.nontrivial = true;
}

// factories used by several threads
void threads(Case& c) {
  auto& s = c.s;
  auto e = make_env(c);
  const int nt = 2 + s.below(3), per = 20 + s.below(60);
  const bool global = s.chance(1, 4);
  const std::size_t min = 1 + s.below(20);
  IndexFactory f([](const Index& i) { return *i.ordinal() % 5 != 0; }, min);
  std::vector<std::vector<Index>> made(nt);
  std::vector<int> plan;
  for (int k = 0; k < nt * per; ++k) plan.push_back(s.below((std::uint32_t)e.spaces.size()));
  const Index proto(e.spaces[0], 1);
  std::atomic<int> ready = 0;
  std::vector<std::thread> ts;
  for (int t = 0; t < nt; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      while (ready < nt) std::this_thread::yield();
      for (int k = 0; k < per; ++k) {
        auto& sp = e.spaces[plan[t * per + k]];
        made[t].push_back(global ? Index::make_tmp_index(sp) : k % 3 == 0 ? f.make(Index(sp, 1, {proto})) : f.make(sp));
      }
    });
  for (auto& t : ts) t.join();
  std::map<std::wstring, std::set<std::uint64_t>> by_space;
  std::size_t n = 0;
  std::set<std::uint64_t> all;
  for (auto& v : made)
    for (auto& i : v) {
      c.require(by_space[std::wstring(i.space().base_key())].insert(*i.ordinal()).second, "two threads were given " + pbt::to_utf8(std::wstring(i.label())));
      all.insert(*i.ordinal());
      ++n;
    }
  if (global)
    c.require(all.size() == n && *all.begin() >= e.limit && *all.rbegin() - *all.begin() == n - 1, "temporary ordinals are not consecutive");
  else
    for (auto& [k, o] : by_space) {
      std::uint64_t want = min;
      for (auto x : o) {
        while (want % 5 == 0) ++want;
        c.require(x == want, "an ordinal is left out");
        ++want;
      }
    }
  c.nontrivial = true;
}

// labels as strings
void labels(Case& c) {
  auto& s = c.s;
  static const std::vector<std::wstring> bits = {L"i", L"a", L"α", L"↑", L"'", L"1", L"23", L"_", L"Κ", L"x", L"0"};
  std::wstring l;
  for (int k = 0, n = s.below(7); k < n; ++k) l += s.pick(bits);
  const auto l8 = pbt::to_utf8(l);
  c.note("'" + l8 + "'");
  auto digit = [](wchar_t ch) { return ch >= L'0' && ch <= L'9'; };
  std::wstring base = l;
  if (auto u = l.find(L'_'); u != l.npos)
    base = l.substr(0, u);
  else {
    auto d = std::find_if(l.begin(), l.end(), digit);
    if (d != l.end() && d != l.begin()) base = std::wstring(l.begin(), d);
  }
  if (!l.empty()) {
    c.require(Index::base_label(l) == base && Index::base_label(std::wstring_view(l)) == base && Index::base_label(l.c_str()) == base, "base_label");
    c.require(Index::base_label(l8) == base && Index::base_label(std::string_view(l8)) == base && Index::base_label(l8.c_str()) == base, "base_label of a narrow string");
  }
  // ordinal of the base_ordinal form, from a view of a longer string
  const std::uint64_t ord = s.coin() ? s.below(10) : s.below(100000);
  const auto x = base.substr(0, base.find(L'_')) + L"_" + std::to_wstring(ord);
  if (base.size()) {
    const std::wstring longer = x + s.pick(std::vector<std::wstring>{L"", L"1", L"07", L"_5", L"z"});
    c.note("in '" + pbt::to_utf8(longer) + "'");
    c.require(Index::get_ordinal(std::wstring_view(longer).substr(0, x.size())) == ord && Index::get_ordinal(x) == ord, "get_ordinal of " + pbt::to_utf8(x));
  }
  if (l.find(L'_') == l.npos && std::none_of(l.begin(), l.end(), digit)) c.require(!Index::get_ordinal(l), "get_ordinal without an ordinal");
  // decoration of the core
  std::wstring suf;
  for (int k = 0, n = 1 + s.below(2); k < n; ++k) suf += s.pick(std::vector<std::wstring>{L"↑", L"↓", L"'", L"i", L"b"});
  auto u = l.find(L'_');
  const auto core = l.substr(0, u), rest = u == l.npos ? std::wstring() : l.substr(u);
  const auto plus = core + suf + rest;
  c.note("suffix '" + pbt::to_utf8(suf) + "'");
  const std::wstring_view lv(l), sv(suf);
  c.require(Index::make_label_plus_suffix(l, suf) == plus && Index::make_label_plus_suffix(lv, sv) == plus && Index::make_label_plus_suffix(std::wstring(l), suf.c_str()) == plus &&
                Index::make_label_plus_suffix(lv, suf) == plus,
            "make_label_plus_suffix");
  auto minus = [&](const std::wstring& sub, const std::wstring& of) {
    auto u = of.find(L'_');
    auto core = of.substr(0, u), rest = u == of.npos ? std::wstring() : of.substr(u);
    if (auto p = core.find(sub); p != core.npos) core.erase(p, sub.size());
    return core + rest;
  };
  for (auto& of : {l, plus}) {
    const std::wstring_view ov(of);
    c.require(Index::make_label_minus_substring(of, suf) == minus(suf, of) && Index::make_label_minus_substring(ov, sv) == minus(suf, of) &&
                  Index::make_label_minus_substring(std::wstring(of), suf) == minus(suf, of) && Index::make_label_minus_substring(of, suf.c_str()) == minus(suf, of),
              "make_label_minus_substring of " + pbt::to_utf8(of));
    c.require(Index::make_label_minus_substring(of, suf[0]) == minus(suf.substr(0, 1), of), "make_label_minus_substring of a character");
  }
  c.nontrivial = l.size() > 1;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C16";
  p.init = [] { set_num_threads(1); };
  p.facets = {
      {"value", "a pool of indices made in every way, copied, moved, replaced, compared with each other; non-trivial: an index with proto-indices was made, and indices were changed", value, 200000, 4000000},
      {"transform", "replacement by a random map, twice, with and without tags; non-trivial: something is replaced", transforms, 300000, 6000000},
      {"factory", "sequences of indices of a factory with a random validator; every case counts", factory, 200000, 2000000},
      {"threads", "2-4 threads share a factory or the global counter; every case counts", threads, 20000, 400000},
      {"labels", "strings of letters, digits and underscores; non-trivial: two or more characters", labels, 300000, 6000000},
  };
  p.assumptions = {"SEQUANT_ASSERT throws, as in the official build"};
  return pbt::run(p, argc, argv);
}
