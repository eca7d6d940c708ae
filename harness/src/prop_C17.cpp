// Default contexts through nested scopes, against a reference model; contexts
// and operator registries as values.
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/op_registry.hpp>

#include <map>
#include <memory>
#include "pbt.hpp"
using namespace sequant;
using pbt::Case;
using pbt::Src;

namespace {
using ISR = std::shared_ptr<IndexSpaceRegistry>;
const std::vector<Statistics> STATS = {Statistics::Arbitrary, Statistics::FermiDirac, Statistics::BoseEinstein};
const std::vector<Vacuum> VACUA = {Vacuum::Physical, Vacuum::SingleProduct, Vacuum::MultiProduct};

// the options of a context
struct MC {
  ISR reg;
  Vacuum vacuum = Vacuum::Physical;
  IndexSpaceMetric metric = IndexSpaceMetric::Unit;
  bool strict = true;
  SPBasis spbasis = SPBasis::Spinor;
  std::size_t first = 100;
  std::optional<CanonicalizeOptions> copt;
  BraKetTypesetting bkt = BraKetTypesetting::ContraSub;
  BraKetSlotTypesetting bst = BraKetSlotTypesetting::TensorPackage;
};
bool same(const std::optional<CanonicalizeOptions>& a, const std::optional<CanonicalizeOptions>& b) {
  if (!a || !b) return !a && !b;
  return a->method == b->method && a->named_indices == b->named_indices && a->ignore_named_index_labels == b->ignore_named_index_labels;
}
// apart from the registry
bool same(const MC& a, const MC& b) {
  return a.vacuum == b.vacuum && a.metric == b.metric && a.strict == b.strict && a.spbasis == b.spbasis && a.first == b.first && same(a.copt, b.copt) && a.bkt == b.bkt && a.bst == b.bst;
}
std::string show(const MC& m) {
  std::string r = "{v" + std::to_string(int(m.vacuum)) + " m" + std::to_string(int(m.metric)) + (m.strict ? " strict" : " loose") + " b" + std::to_string(int(m.spbasis)) + " " + std::to_string(m.first);
  if (m.copt) r += " copt(" + std::to_string(int(m.copt->method)) + "," + (m.copt->named_indices ? std::to_string(m.copt->named_indices->size()) : "-") + "," + std::to_string(int(m.copt->ignore_named_index_labels)) + ")";
  r += " t" + std::to_string(int(m.bkt)) + std::to_string(int(m.bst));
  if (m.reg) {
    r += " reg";
    for (auto& s : *m.reg)
      if (s) r += " " + pbt::to_utf8(std::wstring(s.base_key())) + ":" + std::to_string(s.approximate_size());
  }
  return r + "}";
}
CanonicalizeOptions random_copt(Src& s) {
  CanonicalizeOptions o;
  o.method = s.pick(std::vector<CanonicalizationMethod>{CanonicalizationMethod::Topological, CanonicalizationMethod::Lexicographic, CanonicalizationMethod::Complete});
  if (s.coin()) {
    o.named_indices.emplace();
    if (s.coin()) o.named_indices->insert(Index(IndexSpace(L"i", IndexSpace::Type{1}), 1 + s.below(3)));
  }
  if (s.coin()) o.ignore_named_index_labels = CanonicalizeOptions::IgnoreNamedIndexLabel::No;
  return o;
}
ISR random_registry(Src& s) {
  auto r = std::make_shared<IndexSpaceRegistry>();
  r->add(L"i", 0b01, 1ul + s.below(3), is_vacuum_occupied, is_hole).add(L"a", 0b10, 1ul + s.below(3), is_particle);
  if (s.coin()) r->add_union(L"p", {L"i", L"a"}, is_complete);
  return r;
}
void mutate(Src& s, MC& m, const std::vector<ISR>& regs) {
  switch (s.below(9)) {
    case 0: m.vacuum = s.pick(VACUA); break;
    case 1: m.metric = m.metric == IndexSpaceMetric::Unit ? IndexSpaceMetric::General : IndexSpaceMetric::Unit; break;
    case 2: m.strict = !m.strict; break;
    case 3: m.spbasis = m.spbasis == SPBasis::Spinor ? SPBasis::Spinfree : SPBasis::Spinor; break;
    case 4: m.first = 50 + s.below(200); break;
    case 5: m.copt = s.coin() ? std::optional(random_copt(s)) : std::nullopt; break;
    case 6: m.bkt = m.bkt == BraKetTypesetting::ContraSub ? BraKetTypesetting::CoSub : BraKetTypesetting::ContraSub; break;
    case 7: m.bst = m.bst == BraKetSlotTypesetting::Naive ? BraKetSlotTypesetting::TensorPackage : BraKetSlotTypesetting::Naive; break;
    default: m.reg = s.pick(regs);
  }
}
Context::Options options(const MC& m) {
  return {.index_space_registry_shared_ptr = m.reg,
          .vacuum = m.vacuum,
          .metric = m.metric,
          .assert_strict_braket_symmetry = m.strict,
          .spbasis = m.spbasis,
          .first_dummy_index_ordinal = m.first,
          .canonicalization_options = m.copt,
          .braket_typesetting = m.bkt,
          .braket_slot_typesetting = m.bst};
}
void check(Case& c, const Context& x, const MC& m, const std::string& what) {
  auto req = [&](bool ok, const std::string& w) {
    if (!ok) c.fail(what + ": " + w + ", expected " + show(m));
  };
  req(x.index_space_registry().get() == m.reg.get(), "registry");
  req(x.vacuum() == m.vacuum, "vacuum");
  req(x.metric() == m.metric, "metric");
  req(x.assert_strict_braket_symmetry() == m.strict, "strictness");
  req(x.spbasis() == m.spbasis, "spbasis");
  req(x.first_dummy_index_ordinal() == m.first, "first ordinal");
  req(same(x.canonicalization_options(), m.copt), "canonicalization options");
  req(x.braket_typesetting() == m.bkt && x.braket_slot_typesetting() == m.bst, "typesetting");
  if (m.reg)
    req(x.mutable_index_space_registry().get() == m.reg.get(), "mutable registry");
  else {
    bool threw = false;
    try {
      (void)x.mutable_index_space_registry();
    } catch (const Exception&) {
      threw = true;
    }
    req(threw, "mutable_index_space_registry() of a context without one does not throw");
  }
}
Context random_path(Case& c, const MC& m) {
  auto& s = c.s;
  switch (s.below(4)) {
    case 0: return Context(options(m));
    case 1: {
      Context x(options(m)), y(x);
      return y;
    }
    case 2: {
      Context x, y(options(m));
      x = y;
      return x;
    }
    default: {
      Context x;
      Context& y = x.set(m.vacuum).set(m.metric).set(m.strict ? AssertStrictBraKetSymmetry::Yes : AssertStrictBraKetSymmetry::No).set(m.spbasis).set_first_dummy_index_ordinal(m.first).set(m.bkt).set(m.bst).set(m.reg);
      if (m.copt) x.set(*m.copt);
      c.require(&x == &y, "set() returns another context");
      return Context(std::move(x));
    }
  }
}

// contexts as values
void value(Case& c) {
  auto& s = c.s;
  std::vector<ISR> regs = {nullptr, random_registry(s), random_registry(s)};
  MC a;
  a.reg = s.pick(regs);
  for (int k = 0, n = s.below(6); k < n; ++k) mutate(s, a, regs);
  MC b = a;
  for (int k = 0, n = s.below(3); k < n; ++k) mutate(s, b, regs);
  c.note(show(a));
  c.note(show(b));
  auto x = random_path(c, a), y = random_path(c, b);
  check(c, x, a, "first");
  check(c, y, b, "second");
  if (!same(a, b)) c.require(!(x == y) && x != y && !(y == x), "contexts with different options are equal");
  if (same(a, b) && a.reg == b.reg) c.require(x == y && !(x != y), "contexts with the same options are not equal");
  (void)(x == y);
  // clones have a registry of their own
  auto z = x.clone();
  MC m = a;
  m.reg = z.index_space_registry() ? z.mutable_index_space_registry() : nullptr;
  c.require(bool(m.reg) == bool(a.reg) && (!a.reg || (m.reg != a.reg && *m.reg == *a.reg)), "registry of a clone");
  check(c, z, m, "clone");
  check(c, x, a, "cloned");
  if (a.reg) {
    z.mutable_index_space_registry()->add(L"z", 0b100, 7ul);
    c.require(z.index_space_registry()->contains(L"z") && !a.reg->contains(L"z"), "registries of a clone and its origin are not independent");
    Context w(x);
    w.mutable_index_space_registry()->add(L"y", 0b1000, 7ul);
    c.require(x.index_space_registry()->contains(L"y") && !z.index_space_registry()->contains(L"y"), "registries of copies are not shared");
    Context v;
    v.set(*a.reg);
    c.require(v.index_space_registry() && *v.index_space_registry() == *a.reg, "registry given by value");
    Context u({.index_space_registry = *a.reg, .vacuum = a.vacuum});
    c.require(u.index_space_registry() && *u.index_space_registry() == *a.reg && u.vacuum() == a.vacuum, "registry given by value");
  }
  c.nontrivial = !same(a, b) || a.reg != b.reg;
}

struct Thrown {};
using Defaults = std::map<Statistics, MC>;

struct History {
  Case& c;
  Src& s;
  std::vector<ISR> regs;
  Defaults now;
  int scopes = 0, steps = 0, keys = 0;

  MC random_mc() {
    MC m;
    // often close to one of the contexts in use
    if (!now.empty() && s.chance(3, 4)) {
      auto it = now.begin();
      std::advance(it, s.below((std::uint32_t)now.size()));
      m = it->second;
      if (m.reg && s.chance(1, 3)) {  // the same by value
        m.reg = std::make_shared<IndexSpaceRegistry>(s.coin() ? m.reg->clone() : *m.reg);
        regs.push_back(m.reg);
      }
      if (s.coin()) mutate(s, m, regs);
    } else {
      m.reg = s.pick(regs);
      for (int k = 0, n = s.below(4); k < n; ++k) mutate(s, m, regs);
    }
    return m;
  }
  const MC& current(Statistics st) {
    if (auto it = now.find(st); it != now.end()) return it->second;
    return now[Statistics::Arbitrary];  // made on first use
  }
  void check_all() {
    if (s.chance(1, 10)) return;
    for (auto st : {Statistics::FermiDirac, Statistics::Arbitrary, Statistics::BoseEinstein}) check(c, get_default_context(st), current(st), "default context " + std::to_string(int(st)));
    auto& m = current(Statistics::Arbitrary);
    c.require(&get_default_context() == &get_default_context(Statistics::Arbitrary), "get_default_context()");
    c.require(Index::min_tmp_index() == m.first, "min_tmp_index()");
    c.require(same(CanonicalizeOptions::default_options(), m.copt ? *m.copt : CanonicalizeOptions{}), "default canonicalization options");
    if (m.reg) {
      for (auto& sp : *m.reg)
        if (sp) {
          Index i(std::wstring(sp.base_key()) + L"_1");
          c.require(i.space() == sp && i.space().approximate_size() == sp.approximate_size(), "space of " + pbt::to_utf8(std::wstring(i.label())) + " is not that of the current registry");
        }
      const IndexSpace::QuantumNumbers q{};
      c.require(get_hole_space(q) == m.reg->retrieve(L"i") && get_hole_space(q).approximate_size() == m.reg->retrieve(L"i").approximate_size() && get_particle_space(q) == m.reg->retrieve(L"a"), "hole and particle spaces");
      if (m.reg->contains(L"p")) c.require(get_complete_space(q) == m.reg->retrieve(L"p"), "complete space");
    } else {
      c.require(Index(L"q_1").space().base_key() == L"q", "index without a registry");
    }
  }
  container::map<Statistics, Context> make(const Defaults& d) {
    container::map<Statistics, Context> r;
    for (auto& [st, m] : d) r.emplace(st, random_path(c, m));
    return r;
  }
  Defaults random_defaults() {
    Defaults d;
    for (auto st : STATS)
      if (s.coin()) d[st] = random_mc();
    return d;
  }
  void in_scope(int depth) {
    run(depth + 1);
    if (s.chance(1, 6)) {
      c.note(std::string(2 * depth + 2, ' ') + "throw");
      throw Thrown{};
    }
  }
  void run(int depth) {
    const std::string pad(2 * depth, ' ');
    for (int k = 0, n = 1 + s.below(5); k < n && steps < 30; ++k) {
      ++steps;
      switch (s.weighted({4, 2, 1, 3, depth < 4 ? 8u : 0u})) {
        case 0: {
          const auto st = s.pick(STATS);
          auto m = random_mc();
          c.note(pad + "set " + std::to_string(int(st)) + " " + show(m));
          if (s.coin())
            set_default_context(random_path(c, m), st);
          else
            set_default_context(options(m), st);
          now[st] = m;
          break;
        }
        case 1: {
          auto d = random_defaults();
          for (auto& [st, m] : d) c.note(pad + "set (several) " + std::to_string(int(st)) + " " + show(m));
          set_default_context(make(d));
          for (auto& [st, m] : d) now[st] = m;
          break;
        }
        case 2: {
          c.note(pad + "reset");
          reset_default_context();
          now.clear();
          break;
        }
        case 3: {  // the registry in use
          const auto st = s.pick(STATS);
          auto& m = current(st);
          if (!m.reg) break;
          const std::wstring key = L"w" + std::wstring(1, wchar_t(L'a' + keys++ % 26));
          const auto type = 1 << (4 + keys % 20);
          if (m.reg->contains(key) || m.reg->contains(IndexSpace::Type{type}, IndexSpace::QuantumNumbers{})) break;
          c.note(pad + "add space " + pbt::to_utf8(key) + " to the registry of " + std::to_string(int(st)));
          get_default_context(st).mutable_index_space_registry()->add(key, type);
          break;
        }
        default: {
          const auto before = now;
          ++scopes;
          const int how = s.below(3);
          auto d = random_defaults();
          if (how || d.empty()) d = {{Statistics::Arbitrary, random_mc()}};
          for (auto& [st, m] : d) c.note(pad + "scope(" + std::to_string(how) + ") " + std::to_string(int(st)) + " " + show(m));
          try {
            if (how == 0) {
              auto r = set_scoped_default_context(make(d));
              now = d;
              check_all();
              in_scope(depth);
            } else if (how == 1) {
              auto r = set_scoped_default_context(random_path(c, d[Statistics::Arbitrary]));
              now = d;
              check_all();
              in_scope(depth);
            } else {
              auto r = set_scoped_default_context(options(d[Statistics::Arbitrary]));
              now = d;
              check_all();
              in_scope(depth);
            }
          } catch (const Thrown&) {
          }
          now = before;
          c.note(pad + "end");
        }
      }
      check_all();
    }
  }
};
void history(Case& c) {
  reset_default_context();
  History h{c, c.s, {nullptr, random_registry(c.s), random_registry(c.s)}, {}};
  h.run(0);
  c.nontrivial = h.scopes > 0 && h.steps > 2;
  c.tag("scopes", h.scopes);
}

// operator registries, and the context of mbpt
using mbpt::CSV;
using mbpt::OpClass;
using mbpt::OpRegistry;
struct MO {
  OpClass cls;
  std::optional<Hermiticity> herm;
};
using MOps = std::map<std::wstring, MO>;
const std::vector<std::wstring> OPS = {L"t", L"λ", L"g", L"f", L"xx", L"R"};
const std::vector<OpClass> CLASSES = {OpClass::Ex, OpClass::Deex, OpClass::Gen};
const std::vector<Hermiticity> HERM = {Hermiticity::Hermitian, Hermiticity::AntiHermitian, Hermiticity::NonHermitian};
Hermiticity herm(const MO& o) { return o.herm ? *o.herm : o.cls == OpClass::Gen ? Hermiticity::Hermitian : Hermiticity::NonHermitian; }
template <class F>
bool throws(F&& f) {
  try {
    f();
  } catch (const Exception&) {
    return true;
  }
  return false;
}
void check(Case& c, const OpRegistry& r, const MOps& m, const std::string& what) {
  for (auto& l : OPS) {
    auto it = m.find(l);
    const auto at = what + ", operator " + pbt::to_utf8(l);
    c.require(r.contains(l) == (it != m.end()), at + ": contains");
    if (it == m.end()) {
      c.require(throws([&] { (void)r.to_class(l); }) && throws([&] { (void)r.hermiticity(l); }), at + ": missing operator does not throw");
    } else {
      c.require(r.to_class(l) == it->second.cls, at + ": class");
      c.require(r.hermiticity(l) == herm(it->second), at + ": hermiticity");
    }
  }
  std::vector<std::wstring> have, keys, want;
  for (auto& [l, k] : r) have.push_back(l);
  for (auto&& l : r.ops()) keys.push_back(l);
  for (auto& [l, o] : m) want.push_back(l);
  c.require(have == want && keys == want, what + ": labels");
}
void ops(Case& c) {
  auto& s = c.s;
  struct Reg {
    std::unique_ptr<OpRegistry> r;
    std::shared_ptr<MOps> m;
  };
  std::vector<Reg> regs;
  regs.push_back({std::make_unique<OpRegistry>(), std::make_shared<MOps>()});
  int copies = 0;
  for (int k = 0, n = 3 + s.below(20); k < n; ++k) {
    const auto i = s.below((std::uint32_t)regs.size());
    auto& r = *regs[i].r;
    auto& m = *regs[i].m;
    const auto l = s.chance(1, 10) ? s.pick(std::vector<std::wstring>(reserved::labels().begin(), reserved::labels().end())) : s.pick(OPS);
    const bool has = m.count(l), ok_add = !has && reserved::is_nonreserved(l);
    const auto who = std::to_string(i) + ": ";
    switch (s.weighted({4, 3, 3, 2, 1, 3})) {
      case 0: {
        const auto k = s.pick(CLASSES);
        c.note(who + "add " + pbt::to_utf8(l) + " " + std::to_string(int(k)));
        c.require(throws([&] { c.require(&r.add(l, k) == &r, "add returns another registry"); }) == !ok_add, "add");
        if (ok_add) m[l] = {k, {}};
        break;
      }
      case 1: {
        const auto k = s.pick(CLASSES);
        const auto h = s.pick(HERM);
        c.note(who + "add " + pbt::to_utf8(l) + " " + std::to_string(int(k)) + " " + std::to_string(int(h)));
        c.require(throws([&] { r.add(l, k, h); }) == !ok_add, "add");
        if (ok_add) m[l] = {k, h};
        break;
      }
      case 2: {
        const auto h = s.pick(HERM);
        c.note(who + "set_hermiticity " + pbt::to_utf8(l) + " " + std::to_string(int(h)));
        c.require(throws([&] { r.set_hermiticity(l, h); }) == !has, "set_hermiticity");
        if (has) m[l].herm = h;
        break;
      }
      case 3:
        c.note(who + "remove " + pbt::to_utf8(l));
        c.require(throws([&] { r.remove(l); }) == !has, "remove");
        m.erase(l);
        break;
      case 4:
        c.note(who + "purge");
        r.purge();
        m.clear();
        break;
      default: {
        ++copies;
        const bool deep = s.coin();
        auto model = deep ? std::make_shared<MOps>(m) : regs[i].m;
        if (regs.size() < 3) {
          c.note(who + (deep ? "clone" : "copy"));
          regs.push_back({deep ? std::make_unique<OpRegistry>(r.clone()) : std::make_unique<OpRegistry>(r), model});
        } else {
          const auto to = s.below((std::uint32_t)regs.size());
          c.note(who + (deep ? "clone" : "copy") + " to " + std::to_string(to));
          if (deep)
            *regs[to].r = r.clone();
          else
            *regs[to].r = r;
          regs[to].m = model;
        }
      }
    }
    for (std::size_t j = 0; j < regs.size(); ++j) check(c, *regs[j].r, *regs[j].m, "registry " + std::to_string(j));
    for (auto& a : regs)
      for (auto& b : regs) {
        bool seen = a.m->size() == b.m->size(), equal = seen;
        if (seen)
          for (auto& [l, o] : *a.m) {
            auto it = b.m->find(l);
            if (it == b.m->end() || it->second.cls != o.cls || herm(it->second) != herm(o)) seen = false;
            if (it == b.m->end() || it->second.cls != o.cls || it->second.herm != o.herm) equal = false;
          }
        if (equal) c.require(*a.r == *b.r, "equal registries are not");
        if (!seen) c.require(!(*a.r == *b.r), "different registries are equal");
      }
  }
  c.nontrivial = copies > 0;
}

struct MMC {
  CSV csv = CSV::No;
  std::shared_ptr<OpRegistry> reg;
};
void check(Case& c, const mbpt::Context& x, const MMC& m, const std::string& what) {
  c.require(x.csv() == m.csv, what + ": csv");
  if (m.reg)
    c.require(x.op_registry().get() == m.reg.get() && x.mutable_op_registry().get() == m.reg.get(), what + ": registry");
  else
    c.require(throws([&] { (void)x.op_registry(); }) && throws([&] { (void)x.mutable_op_registry(); }), what + ": missing registry does not throw");
}
struct MHistory {
  Case& c;
  Src& s;
  std::vector<std::shared_ptr<OpRegistry>> regs;
  MMC now;
  int scopes = 0, steps = 0;
  MMC random_mc() {
    MMC m = now;
    if (s.coin()) {
      m.reg = s.pick(regs);
    } else if (m.reg && s.coin()) {
      m.reg = std::make_shared<OpRegistry>(s.coin() ? m.reg->clone() : *m.reg);
      regs.push_back(m.reg);
    }
    if (s.chance(1, 3)) m.csv = s.coin() ? CSV::Yes : CSV::No;
    return m;
  }
  std::string show(const MMC& m) {
    std::string r = m.csv == CSV::Yes ? "{csv" : "{";
    if (m.reg)
      for (auto& [l, k] : *m.reg) r += " " + pbt::to_utf8(l) + std::to_string(int(k));
    return r + (m.reg ? "}" : " null}");
  }
  mbpt::Context make(const MMC& m) {
    switch (s.below(3)) {
      case 0: return mbpt::Context({.csv = m.csv, .op_registry_ptr = m.reg});
      case 1: {
        mbpt::Context x;
        c.require(&x.set(m.csv).set(m.reg) == &x, "set() returns another context");
        return x;
      }
      default: {
        mbpt::Context x({.csv = m.csv, .op_registry_ptr = m.reg}), y;
        y = x;
        c.require(x == y && !(x != y), "a context differs from its copy");
        return y;
      }
    }
  }
  void check_all() {
    check(c, mbpt::get_default_mbpt_context(), now, "default context");
    for (auto& l : OPS) {
      if (now.reg && now.reg->contains(l)) {
        c.require(mbpt::to_op_class(l) == now.reg->to_class(l) && mbpt::op_hermiticity(l) == now.reg->hermiticity(l), "class of operator " + pbt::to_utf8(l) + " is not that of the current registry");
      } else
        c.require(throws([&] { (void)mbpt::to_op_class(l); }) && throws([&] { (void)mbpt::op_hermiticity(l); }), "unknown operator does not throw");
    }
    for (auto& l : reserved::labels()) c.require(mbpt::to_op_class(l) == OpClass::Gen && mbpt::op_hermiticity(l) == Hermiticity::Hermitian, "class of a reserved label");
  }
  void run(int depth) {
    const std::string pad(2 * depth, ' ');
    for (int k = 0, n = 1 + s.below(5); k < n && steps < 30; ++k) {
      ++steps;
      switch (s.weighted({4, 1, 3, depth < 4 ? 8u : 0u, 1})) {
        case 0: {
          auto m = random_mc();
          c.note(pad + "set " + show(m));
          if (s.coin())
            mbpt::set_default_mbpt_context(make(m));
          else
            mbpt::set_default_mbpt_context({.csv = m.csv, .op_registry_ptr = m.reg});
          now = m;
          break;
        }
        case 1:
          c.note(pad + "reset");
          mbpt::reset_default_mbpt_context();
          now = {};
          break;
        case 2: {
          if (!now.reg) break;
          const auto l = s.pick(OPS);
          const auto k = s.pick(CLASSES);
          c.note(pad + "add/remove " + pbt::to_utf8(l));
          auto r = mbpt::get_default_mbpt_context().mutable_op_registry();
          if (r->contains(l))
            r->remove(l);
          else
            r->add(l, k);
          break;
        }
        case 3: {
          const auto before = now;
          ++scopes;
          auto m = random_mc();
          c.note(pad + "scope " + show(m));
          auto body = [&] {
            now = m;
            check_all();
            run(depth + 1);
            if (s.chance(1, 6)) {
              c.note(pad + "  throw");
              throw Thrown{};
            }
          };
          try {
            if (s.coin()) {
              auto r = mbpt::set_scoped_default_mbpt_context(make(m));
              body();
            } else {
              auto r = mbpt::set_scoped_default_mbpt_context({.csv = m.csv, .op_registry_ptr = m.reg});
              body();
            }
          } catch (const Thrown&) {
          }
          now = before;
          c.note(pad + "end");
          break;
        }
        default: {  // values
          auto m = random_mc();
          auto x = make(m), y = x.clone();
          c.require(y.csv() == m.csv && x == y, "clone");
          if (m.reg) {
            c.require(y.op_registry() != m.reg, "clone shares the registry");
            const auto l = s.pick(OPS);
            const bool had = m.reg->contains(l);
            had ? y.mutable_op_registry()->remove(l) : y.mutable_op_registry()->add(l, OpClass::Ex);
            c.require(m.reg->contains(l) == had && !(x == y), "a clone is not independent");
          }
          MMC d = m;
          d.csv = m.csv == CSV::Yes ? CSV::No : CSV::Yes;
          c.require(make(d) != x, "contexts with different csv are equal");
        }
      }
      check_all();
    }
  }
};
void mbpt_history(Case& c) {
  mbpt::reset_default_mbpt_context();
  auto r = std::make_shared<OpRegistry>();
  r->add(L"t", OpClass::Ex).add(L"g", OpClass::Gen);
  MHistory h{c, c.s, {nullptr, r, std::make_shared<OpRegistry>(), c.s.coin() ? mbpt::make_minimal_registry() : mbpt::make_legacy_registry()}, {}};
  h.run(0);
  c.nontrivial = h.scopes > 0 && h.steps > 2;
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C17";
  p.init = [] { set_num_threads(1); };
  p.facets = {
      {"value", "two contexts of random options, their copies and clones; non-trivial: they differ", value, 100000, 2000000},
      {"history", "default contexts per statistics set, reset and nested in scopes (some left by an exception), every query compared after each step; non-trivial: at least one scope", history, 150000, 3000000},
      {"ops", "up to 3 operator registries, some sharing contents, through 3-22 operations; non-trivial: a copy or clone", ops, 20000, 400000},
      {"mbpt", "the default mbpt context set, reset and nested in scopes; non-trivial: at least one scope", mbpt_history, 30000, 600000},
  };
  return pbt::run(p, argc, argv);
}
