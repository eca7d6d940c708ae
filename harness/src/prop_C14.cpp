// Text form of expressions: what is written is read back, what is read has the
// value ordinary notation gives it, and other text is rejected cleanly.
#include <SeQuant/core/io/serialization/serialization.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <cwctype>

#include "rewrite.hpp"
using namespace sequant;
using namespace gen;
namespace ser = sequant::io::serialization;

namespace {

struct Pools {
  std::vector<std::wstring> vars = {L"x", L"y", L"E0", L"ω_12", L"x_y", L"infty", L"nancy", L"inf", L"nan", L"e5", L"E", L"λ1",
                                    L"i", L"A12B", L"x⁺", L"p_α"};
  std::vector<std::wstring> tens = {L"t", L"g", L"T_1", L"α", L"γ_1", L"t⁺", L"f⁔12", L"inf", L"nano", L"R̂", L"C₂", L"S↑", L"e1", L"t²"};
};

struct G {
  Src& s;
  World w;
  Pools pools;
  bool annot = true;
  Attr def;  // attributes of tensors whose text carries none
  bool ops = true;
  std::map<std::string, long> kinds;

  Index index(bool protos = true) {
    auto pick = [&]() -> const IndexSpace& {
      if (s.chance(1, 8)) {
        auto n = s.below(w.isr->spaces()->size());
        auto it = w.isr->spaces()->begin();
        std::advance(it, n);
        if (!it->base_key().empty()) return *it;
      }
      return w.spaces[s.below(w.spaces.size())];
    };
    auto ord = [&]() -> int { return s.chance(1, 10) ? (int)s.below(Index::min_tmp_index()) : s.below(9) + (s.chance(1, 10) ? 0 : 1); };
    const auto sp = pick();
    if (protos && s.chance(1, 6)) {
      container::vector<Index> pv;
      const int n = 1 + s.below(2);
      for (int k = 0; k < n; ++k) {
        Index q(w.spaces[s.below(w.spaces.size())], ord());
        if (std::find(pv.begin(), pv.end(), q) == pv.end()) pv.push_back(q);
      }
      ++kinds["protos"];
      return Index(sp, ord(), pv);
    }
    return Index(sp, ord());
  }
  // distinct indices
  container::svector<Index> indices(int n, num::IndexSet& seen, bool protos = true) {
    container::svector<Index> r;
    for (int k = 0; k < n; ++k)
      for (int q = 0; q < 8; ++q) {
        auto i = index(protos);
        if (seen.insert(i).second) {
          r.push_back(i);
          break;
        }
      }
    return r;
  }
  Attr attr() {
    if (!annot) return def;
    return random_attr(s);
  }
  rational real() {
    auto d = [&]() -> long long {
      switch (s.weighted({6, 3, 1})) {
        case 0: return 1 + s.below(12);
        case 1: return 1 + s.below(100000);
        default: return (long long)(s.bits() + 1);
      }
    };
    using I = boost::multiprecision::cpp_int;
    long long n = d(), m = s.coin() ? 1 : d();
    if (s.coin()) n = -n;
    rational r(n, m);
    if (s.chance(1, 20)) {
      ++kinds["large"];
      r *= rational((long long)(s.bits() + 1));
      r *= rational((long long)(s.bits() + 1));
    }
    return r;
  }
  ExprPtr variable() {
    auto v = ex<Variable>(pools.vars[s.below(pools.vars.size())]);
    if (s.chance(1, 3)) v->as<Variable>().conjugate();
    return v;
  }
  ExprPtr tensor() {
    num::IndexSet bs, ks, as;
    auto a = attr();
    int nb = s.weighted({2, 4, 4, 1}), nk = s.coin() ? nb : s.weighted({2, 4, 4, 1});
    if (a.b != BraKetSymmetry::Nonsymm && annot && s.coin()) nk = nb;
    auto b = indices(nb, bs), k = indices(nk, ks), x = indices(s.weighted({4, 1, 1}), as);
    if (s.chance(1, 4)) {  // dummies may join a tensor with itself
      if (!b.empty() && !k.empty() && !ks.count(b[0])) k[0] = b[0];
    }
    ++kinds["tensor"];
    auto t = ex<Tensor>(pools.tens[s.below(pools.tens.size())], bra(b), ket(k), aux(x), a.s, a.b, a.c);
    return t;
  }
  ExprPtr nop() {
    num::IndexSet cs, as;
    auto c = indices(s.below(4), cs), a = indices(s.below(4), as);
    const auto vac = s.coin() ? Vacuum::Physical : Vacuum::SingleProduct;
    ++kinds["operator"];
    if (c.empty() && a.empty()) return variable();
    if (s.chance(1, 3)) return ex<BNOperator>(cre(c), ann(a), vac);
    return ex<FNOperator>(cre(c), ann(a), vac);
  }
  ExprPtr power() {
    ++kinds["power"];
    ExprPtr base = s.coin() ? variable() : ex<Constant>(s.chance(1, 8) ? rational(0) : rational((int)s.below(2001) - 1000, 1 + (int)s.below(300)));
    auto e = s.coin() ? rational((int)s.below(9)) : rational((int)s.below(9) - (base->is<Constant>() && base->as<Constant>().is_zero() ? 0 : 4), 1 + s.below(4));
    if (base->is<Constant>() && base->as<Constant>().is_zero() && e < 0) e = -e;
    auto p = ex<Power>(base, e);
    if (s.chance(1, 3)) p->as<Power>().conjugate();
    return p;
  }
  ExprPtr factor() {
    switch (s.weighted({5, 3, ops ? 2 : 0, 2})) {
      case 0: return tensor();
      case 1: return variable();
      case 2: return nop();
      default: return power();
    }
  }
  ExprPtr product() {
    const int n = s.weighted({2, 3, 2, 1}) + 1;
    Constant::scalar_type c = s.chance(1, 3) ? Constant::scalar_type{1} : s.chance(1, 4) ? Constant::scalar_type{-1} : Constant::scalar_type{real()};
    container::svector<ExprPtr> f;
    for (int k = 0; k < n; ++k) f.push_back(factor());
    if (n == 1 && c == Constant::scalar_type{1}) return f[0];
    auto r = ex<Product>(c, f.begin(), f.end(), Product::Flatten::No);
    if (r->as<Product>().factors().empty()) return ex<Constant>(r->as<Product>().scalar());  // powers of numbers
    return r;
  }
  ExprPtr term() {
    if (s.chance(1, 8)) return ex<Constant>(s.chance(1, 8) ? rational(0) : real());
    return product();
  }
  ExprPtr flat() {
    const int n = s.weighted({3, 3, 2, 1}) + 1;
    if (n == 1) return term();
    auto sum = std::make_shared<Sum>();
    for (int k = 0; k < n; ++k) {
      auto t = term();
      Power::flatten(t);
      if (!t->is_zero()) sum->append(t);
    }
    // numbers are added up immediately, a zero made in this way stays
    for (auto& x : sum->summands())
      if (x->is_zero()) return term();
    if (sum->summands().size() < 2) return sum->summands().empty() ? ex<Constant>(0) : sum->summands()[0];
    return ExprPtr(sum);
  }
};

G make(Case& c) {
  WorldOptions wo;
  wo.kinds = {0, 1, 2, 3, 4};
  wo.max_extent = 1;
  G g{c.s, make_world(c.s, wo)};
  return g;
}

void tags(Case& c, G& g) {
  for (auto& [k, n] : g.kinds) c.tag(k, n);
}

std::string describe(const ExprPtr& e) { return e ? num::show(e) : "(null)"; }

ser::DeserializationOptions options(const Attr& d) {
  return {.def_perm_symm = d.s, .def_braket_symm = d.b, .def_col_symm = d.c};
}

void flat(Case& c) {
  auto g = make(c);
  ser::SerializationOptions so;
  ser::DeserializationOptions dopt;
  if (c.s.chance(1, 4)) {
    g.annot = false;
    g.def = random_attr(c.s);
    so = {.annot_symm = false};
    dopt = options(g.def);
    c.note("without annotations");
  } else if (c.s.coin()) {
    dopt = options(random_attr(c.s));  // must not matter
  }
  auto e = g.flat();
  c.note(describe(e));
  tags(c, g);
  c.nontrivial = e->size() > 1;
  auto t = ser::to_string(e, so);
  c.note("text: " + u8(t));
  ExprPtr r;
  const auto kept = e->clone();
  try {
    r = c.s.coin() ? ser::from_string<ExprPtr>(t, dopt) : ser::from_string<ExprPtr>(std::string_view(u8(t)), dopt);
  } catch (const std::exception& x) {
    c.fail(std::string("own text not accepted: ") + x.what());
  }
  c.require(r != nullptr, "own text read as nothing");
  c.require(*r == *e, "read back as something else: " + describe(r));
  c.require(r->hash_value() == e->hash_value(), "equal to what is read back, but hashes differ");
  c.require(*kept == *e, "expression changed by serialization");
  auto t2 = ser::to_string(r, so);
  c.require(t2 == t, "written differently the second time: " + u8(t2));
}

// nested expressions keep their value
void nested(Case& c) {
  WorldOptions wo;
  auto w = make_world(c.s, wo);
  AttrMap attrs;
  auto ext = random_ext(c.s, w, 2, true);
  ExprOptions eo;
  eo.net.max_tensors = 3;
  eo.net.max_dummies = 3;
  eo.net.variables = true;
  eo.net.protos = c.s.chance(1, 4);
  eo.max_terms = 3;
  if (c.s.chance(1, 25)) (c.s.coin() ? eo.max_terms : eo.net.max_tensors) = 14;  // two digits of everything
  auto e = random_expr(c.s, w, attrs, ext, eo);
  // no imaginary numbers in text
  std::function<void(ExprPtr&)> realify = [&](ExprPtr& x) {
    if (x->is<Product>()) {
      auto p = std::make_shared<Product>();
      auto sc = x->as<Product>().scalar();
      p->scale(Constant::scalar_type{sc.real() + sc.imag()});
      for (auto& f : x->as<Product>().factors()) {
        auto q = f->clone();
        realify(q);
        p->append(1, q, Product::Flatten::No);
      }
      x = ExprPtr(p);
    } else if (x->is<Sum>()) {
      container::svector<ExprPtr> v;
      for (auto& f : x->as<Sum>().summands()) {
        auto q = f->clone();
        realify(q);
        v.push_back(q);
      }
      x = ex<Sum>(v.begin(), v.end());
    }
  };
  realify(e);
  std::function<bool(const ExprPtr&)> hollow = [&](const ExprPtr& x) {
    if (!x->is<Sum>() && !x->is<Product>()) return false;
    for (auto& y : *x) if (hollow(y)) return true;
    return false;
  };
  if (hollow(e)) throw pbt::Discard{};
  // sums inside sums
  if (c.s.chance(1, 4)) {
    auto n = random_net(c.s, w, attrs, ext, eo.net);
    if (!n.factors.empty()) {
      auto s1 = ex<Sum>(ExprPtrList{e->clone(), ex<Constant>(2) * e->clone()});
      e = c.s.coin() ? ex<Product>(Constant::scalar_type{-1}, ExprPtrList{s1}, Product::Flatten::No) : s1;
      c.tag("sum in product");
    }
  }
  c.note(w.name);
  c.note(describe(e));
  auto t = ser::to_string(e);
  c.note("text: " + u8(t));
  c.nontrivial = e->size() > 1;
  ExprPtr r;
  try {
    r = ser::from_string<ExprPtr>(t);
  } catch (const std::exception& x) {
    c.fail(std::string("own text not accepted: ") + x.what());
  }
  num::EvalOptions o;
  o.externals = ext.all();
  num::F a, b;
  try {
    a = num::eval(e, w.model, o);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
  try {
    b = num::eval(r, w.model, o);
  } catch (const num::Undefined& x) {
    c.fail(std::string("what is read back has no value: ") + x.what());
  }
  c.require(a == b, "value changed: " + describe(r));
}

// ------------------------------------------------------------ rendered text
struct R {
  G& g;
  Src& s;
  std::wstring out;
  std::wstring ws() { return s.weighted({5, 2, 1, 1}) == 0 ? L"" : s.pick({std::wstring(L" "), std::wstring(L"  "), std::wstring(L"\n\t")}); }
  std::wstring sp() { return s.pick({std::wstring(L" "), std::wstring(L"  "), std::wstring(L" \n")}); }
  std::wstring label(const Index& i) {
    std::wstring l(i.label());
    if (s.coin()) l.erase(l.find(L'_'), 1);
    return l;
  }
  std::wstring index(const Index& i) {
    auto r = label(i);
    if (i.has_proto_indices()) {
      r += ws() + L"<";
      bool first = true;
      for (auto& p : i.proto_indices()) {
        if (!first) r += ws() + L",";
        first = false;
        r += ws() + label(p);
      }
      r += ws() + L">";
    }
    return r;
  }
  template <class V>
  std::wstring list(const V& v) {
    std::wstring r = ws();
    bool first = true;
    for (auto& i : v) {
      if (!first) r += L"," + ws();
      first = false;
      r += index(i) + ws();
    }
    return r;
  }
  template <class V1, class V2, class V3>
  std::wstring groups(const V1& b, const V2& k, const V3& x) {
    const int form = x.empty() ? s.below(3) : 0;
    if (form == 1) return L"_{" + list(b) + L"}^{" + list(k) + L"}";
    if (form == 2) return L"^{" + list(k) + L"}_{" + list(b) + L"}";
    std::wstring r = L"{" + list(b);
    if (!k.empty() || !x.empty() || s.coin()) {
      r += L";" + list(k);
      if (!x.empty() || s.coin()) r += L";" + list(x);
    }
    return r + L"}";
  }
  // a number and its text (no sign)
  std::wstring number(rational& v) {
    switch (s.weighted({4, 3, 2, 1})) {
      case 0: {
        auto n = s.below(30);
        v = rational((int)n);
        return std::to_wstring(n);
      }
      case 1: {
        auto n = s.below(30), m = 1 + s.below(12);
        v = rational((int)n, (int)m);
        return std::to_wstring(n) + ws() + L"/" + ws() + std::to_wstring(m);
      }
      case 2: {  // exactly representable decimals
        auto n = s.below(30), q = s.below(4);
        static const wchar_t* f[] = {L".0", L".25", L".5", L".75"};
        v = rational((int)n) + rational((int)q, 4);
        return std::to_wstring(n) + f[q];
      }
      default: {
        auto n = 1 + s.below(9);
        v = rational((int)n * 100);
        return std::to_wstring(n) + s.pick({std::wstring(L"e2"), std::wstring(L"E2"), std::wstring(L"e+2"), std::wstring(L".e2")});
      }
    }
  }
  ExprPtr atom(bool& is_number) {
    is_number = false;
    switch (s.weighted({3, 4, 2, 1})) {
      case 0: {
        rational v;
        out += number(v);
        is_number = true;
        return ex<Constant>(v);
      }
      case 1: {
        num::IndexSet bs, ks, as;
        int nb = s.weighted({1, 4, 2}), nk = s.weighted({1, 4, 2});
        auto b = g.indices(nb, bs), k = g.indices(nk, ks), x = g.indices(s.weighted({4, 1}), as);
        auto lab = g.pools.tens[s.below(g.pools.tens.size())];
        Attr a = g.def;
        std::wstring spec;
        std::optional<Hermiticity> h;
        const int ns = s.below(4);
        if (ns > 0) {
          const int q = s.below(3);
          a.s = q == 0 ? Symmetry::Nonsymm : q == 1 ? Symmetry::Antisymm : Symmetry::Symm;
          spec += std::wstring(L":") + L"NAS"[q];
          if (ns < 3 && a.s != Symmetry::Nonsymm && a.c == ColumnSymmetry::Nonsymm) a.s = Symmetry::Nonsymm, spec = L":N";
        }
        if (ns > 1) {
          const int q = s.below(5);
          spec += std::wstring(L"-") + L"NSCHA"[q];
          if (q < 3) a.b = q == 0 ? BraKetSymmetry::Nonsymm : q == 1 ? BraKetSymmetry::Symm : BraKetSymmetry::Conjugate;
          else h = q == 3 ? Hermiticity::Hermitian : Hermiticity::AntiHermitian;
        }
        if (ns > 2) {
          const bool n = s.coin() && a.s == Symmetry::Nonsymm;
          a.c = n ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
          spec += n ? L"-N" : L"-S";
        }
        out += lab + (s.coin() ? L"" : L"") + groups(b, k, x) + spec;
        if (h) return ex<Tensor>(lab, bra(b), ket(k), aux(x), a.s, *h, a.c);
        return ex<Tensor>(lab, bra(b), ket(k), aux(x), a.s, a.b, a.c);
      }
      case 2: {
        auto lab = g.pools.vars[s.below(g.pools.vars.size())];
        auto v = ex<Variable>(lab);
        out += lab;
        if (s.chance(1, 3)) {
          v->as<Variable>().conjugate();
          out += L"^*";
        }
        return v;
      }
      default: {
        // powers
        const bool conj = s.chance(1, 3);
        ExprPtr base;
        if (conj) out += L"(" + ws();
        if (s.coin()) {
          auto lab = g.pools.vars[s.below(g.pools.vars.size())];
          base = ex<Variable>(lab);
          const bool cj = s.chance(1, 3), paren = cj || s.coin();
          if (cj) base->as<Variable>().conjugate();
          out += (paren ? L"(" + ws() : L"") + lab + (cj ? L"^*" : L"") + (paren ? ws() + L")" : L"");
        } else {
          rational v;
          auto t = number(v);
          if (v == 0) v = 3, t = L"3";
          const bool neg = s.chance(1, 4);
          base = ex<Constant>(neg ? rational(-v) : v);
          out += L"(" + ws() + (neg ? L"-" : L"") + t + ws() + L")";
        }
        int n = s.below(5), m = 1 + s.below(3);
        const bool neg = s.chance(1, 3);
        out += ws() + L"^" + ws() + L"(" + ws() + (neg ? L"-" : L"") + std::to_wstring(n) + (m > 1 ? L"/" + std::to_wstring(m) : L"") + ws() + L")";
        auto p = ex<Power>(base, rational(neg ? -n : n, m));
        if (conj) {
          p->as<Power>().conjugate();
          out += ws() + L")" + L"^*";
        }
        return p;
      }
    }
  }
  ExprPtr product(int depth) {
    const int n = 1 + s.weighted({3, 3, 1});
    auto p = std::make_shared<Product>();
    bool prev_number = false;
    for (int k = 0; k < n; ++k) {
      bool num = false;
      if (k) {
        // juxtaposition; two numbers need the '*'
        if (s.coin()) out += ws() + L"*" + ws(), prev_number = false;
        else out += sp();
      }
      const auto mark = out.size();
      ExprPtr f;
      if (depth > 0 && s.chance(1, 4)) {
        out += L"(" + ws();
        f = sum(depth - 1);
        out += ws() + L")";
      } else f = atom(num);
      if (k && prev_number && num) out.insert(mark, L"* ");
      // a number followed by '(' ... '^' could be a power of it; keep apart
      prev_number = num;
      p->append(1, f, Product::Flatten::No);
    }
    return ExprPtr(p);
  }
  ExprPtr sum(int depth) {
    const int n = 1 + s.weighted({3, 3, 1});
    container::svector<ExprPtr> v;
    for (int k = 0; k < n; ++k) {
      int sg = 1;
      if (k || s.chance(1, 4)) {
        sg = s.coin() ? 1 : -1;
        // -X could continue the symmetries of a tensor
        const bool upper = !out.empty() && std::iswupper(out.back());
        out += (k ? upper ? sp() : ws() : L"") + (sg > 0 ? L"+" : L"-") + ws();
      }
      auto t = product(depth);
      v.push_back(sg > 0 ? t : ex<Constant>(-1) * t);
    }
    if (v.size() == 1) return v[0];
    auto r = std::make_shared<Sum>();
    for (auto& t : v) r->append(t);
    return ExprPtr(r);
  }
};

num::F value(Case& c, const ExprPtr& e, World& w, const num::IndexSet& ext, bool ref) {
  num::EvalOptions o;
  o.externals = ext;
  try {
    return num::eval(e, w.model, o);
  } catch (const num::Undefined& x) {
    if (ref) throw pbt::Discard{};
    c.fail(std::string("no value: ") + x.what() + " " + describe(e));
  }
}

void rendered(Case& c) {
  auto g = make(c);
  g.ops = false;
  ser::DeserializationOptions d;
  g.def.b = BraKetSymmetry::Conjugate;
  if (c.s.coin()) {
    g.def = random_attr(c.s);
    d = options(g.def);
  }
  R r{g, c.s, {}};
  auto ref = r.sum(2);
  auto text = r.ws() + r.out + r.ws();
  c.note("text: " + u8(text));
  c.note("means: " + describe(ref));
  c.nontrivial = r.out.find_first_of(L"+-*(") != std::wstring::npos;
  tags(c, g);
  ExprPtr e;
  try {
    e = c.s.coin() ? ser::from_string<ExprPtr>(text, d) : ser::from_string<ExprPtr>(std::string_view(u8(text)), d);
  } catch (const std::exception& x) {
    c.fail(std::string("text not accepted: ") + x.what());
  }
  c.require(e != nullptr, "text read as nothing");
  auto ext = num::all_indices(ref);
  for (auto& i : num::all_indices(e)) ext.insert(i);
  c.require(ext.size() == num::all_indices(ref).size(), "indices not in the text: " + describe(e));
  auto a = value(c, ref, g.w, ext, true);
  auto b = value(c, e, g.w, ext, false);
  c.require(a == b, "wrong value: read as " + describe(e));
  // tensors come out with the attributes given
  std::vector<const Tensor*> ta, tb;
  std::function<void(const ExprPtr&, std::vector<const Tensor*>&)> collect = [&](const ExprPtr& x, std::vector<const Tensor*>& v) {
    if (x->is<Tensor>()) v.push_back(&x->as<Tensor>());
    else if (x->is<Product>() || x->is<Sum>())
      for (auto& y : *x) collect(y, v);
  };
  collect(ref, ta);
  collect(e, tb);
  // zero terms are dropped
  if (ta.size() != tb.size()) return;
  for (std::size_t k = 0; k < ta.size(); ++k) c.require(*ta[k] == *tb[k], "tensor " + num::show(ta[k]->clone()) + " read as " + num::show(tb[k]->clone()));
}

// ------------------------------------------------------------------- fuzzing
void malformed(Case& c) {
  auto g = make(c);
  std::wstring text;
  if (c.s.chance(1, 8)) {
    static const std::wstring toks[] = {L"t", L"{", L"}", L";", L",", L"i1", L"a_2", L"_{", L"^{", L"^", L"(", L")", L"*", L"^*", L"+", L"-", L"/", L"1", L"2.5", L"0",
                                        L"<", L">", L":", L"A", L"-S", L":N-C-S", L" ", L"ã", L"a", L"x_", L"é", L"∞", L"->", L"=", L"e", L".", L"i_99999999999", L"1e400", L"_", L"'", L"9223372036854775808"};
    const int n = c.s.below(16);
    for (int k = 0; k < n; ++k) text += toks[c.s.below(std::size(toks))];
  } else {
    if (c.s.coin()) {
      R r{g, c.s, {}};
      r.sum(1);
      text = r.out;
    } else
      text = ser::to_string(g.flat());
    static const std::wstring junk = L"t{};,_^()*+-/0.1<>:ASNCH =xζi1a2pβ\n\"\\%";
    const int n = 1 + c.s.weighted({4, 2, 1});
    for (int k = 0; k < n && !text.empty(); ++k) {
      const auto at = c.s.below(text.size());
      switch (c.s.below(5)) {
        case 0: text.erase(at, 1); break;
        case 1: text.insert(at, 1, junk[c.s.below(junk.size())]); break;
        case 2: text[at] = junk[c.s.below(junk.size())]; break;
        case 3: text.resize(at); break;
        default: {
          const auto len = 1 + c.s.below(6);
          text.insert(c.s.below(text.size()), text.substr(at, len));
        }
      }
    }
  }
  const bool result = c.s.chance(1, 6);
  if (result) {
    if (c.s.coin()) text = (c.s.coin() ? L"R{i_1;a_1} = " : L"R -> ") + text;
    else if (c.s.coin()) text.insert(c.s.below(text.size() + 1), c.s.coin() ? L"=" : L"->");
  }
  c.note(std::string(result ? "result " : "") + "text: " + u8(text));
  auto read = [&](const std::wstring& t) -> ExprPtr {
    if (result) return ser::from_string<ResultExpr>(t).expression();
    return ser::from_string<ExprPtr>(t);
  };
  ExprPtr e;
  bool threw = false;
  try {
    e = read(text);
  } catch (const ser::SerializationError& x) {
    threw = true;
    c.tag("SerializationError");
    c.require(x.offset <= text.size(), "error reported outside the text, at " + std::to_string(x.offset));
    c.require(x.length <= text.size() + 1, "length of erroneous text is " + std::to_string(x.length));
    c.require(std::string(x.what()).size() > 0, "error without a message");
  } catch (const sequant::Exception& x) {
    threw = true;
    c.tag("Exception");
  } catch (const std::exception& x) {
    threw = true;
    c.tag("std::exception");
  }
  c.nontrivial = threw || e != nullptr;
  if (threw) {
    // the same text is rejected again
    bool again = false;
    try {
      read(text);
    } catch (const std::exception&) {
      again = true;
    }
    c.require(again, "text first rejected, then accepted");
    return;
  }
  c.tag("accepted");
  // what has been accepted is an expression with a text of its own
  if (!e) return;
  std::wstring t;
  t = ser::to_string(e);
  c.note("accepted as " + u8(t));
  ExprPtr r;
  try {
    r = ser::from_string<ExprPtr>(t);
  } catch (const std::exception& x) {
    c.fail(std::string("text of an accepted expression is rejected: ") + x.what());
  }
  c.require(r != nullptr, "text of an accepted expression is empty");
  num::EvalOptions o;
  num::IndexSet ext;
  for (auto& i : num::all_indices(e)) ext.insert(i);
  o.externals = ext;
  try {
    auto a = num::eval(e, g.w.model, o);
    auto b = num::eval(r, g.w.model, o);
    c.require(a == b, "text of an accepted expression reads as another one: " + u8(ser::to_string(r)));
    c.tag("value compared");
  } catch (const num::Undefined&) {
  }
}

void results(Case& c) {
  auto g = make(c);
  auto e = g.flat();
  std::optional<ResultExpr> x;
  if (c.s.chance(1, 4)) {
    auto lab = g.pools.vars[c.s.below(g.pools.vars.size())];
    x.emplace(Variable(lab), e);
  } else {
    ExprPtr t;
    for (int k = 0; k < 10; ++k) {
      t = g.tensor();
      if (t->as<Tensor>().bra_rank() + t->as<Tensor>().ket_rank() + t->as<Tensor>().aux_rank() > 0) break;
    }
    if (t->as<Tensor>().bra_rank() + t->as<Tensor>().ket_rank() + t->as<Tensor>().aux_rank() == 0) throw pbt::Discard{};
    x.emplace(t->as<Tensor>(), e);
  }
  c.nontrivial = true;
  auto text = ser::to_string(*x);
  c.note(u8(text));
  if (c.s.coin()) {
    text.replace(text.find(L" = "), 3, c.s.coin() ? L"->" : L"  ->\n");
    c.note("as " + u8(text));
  }
  try {
    auto y = c.s.coin() ? ser::from_string<ResultExpr>(text) : ser::from_string<ResultExpr>(std::string_view(u8(text)));
    c.require(y.has_label() == x->has_label() && y.label() == x->label(), "label changed to " + u8(y.label()));
    c.require(y.bra() == x->bra() && y.ket() == x->ket() && y.aux() == x->aux(), "indices changed: " + u8(ser::to_string(y)));
    c.require(y.symmetry() == x->symmetry() && y.braket_symmetry() == x->braket_symmetry() && y.column_symmetry() == x->column_symmetry(),
              "symmetries changed: " + u8(ser::to_string(y)));
    c.require(*y.expression() == *x->expression(), "expression changed: " + u8(ser::to_string(y)));
    c.require(y == *x, "not equal to what was read back");
  } catch (const ser::SerializationError& z) {
    c.fail(std::string("own text not accepted: ") + z.what());
  }
}

// numbers with an imaginary part
void imaginary(Case& c) {
  auto g = make(c);
  auto e = ex<Constant>(Constant::scalar_type{c.s.coin() ? rational(0) : g.real(), g.real()});
  if (c.s.coin()) e = e * g.factor();
  c.note(describe(e));
  c.nontrivial = true;
  auto t = ser::to_string(e);
  c.note("text: " + u8(t));
  ExprPtr r;
  try {
    r = ser::from_string<ExprPtr>(t);
  } catch (const std::exception& x) {
    c.fail(std::string("imaginary number not read back: ") + x.what());
  }
  c.require(r && *r == *e, "imaginary number not read back: " + describe(r));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C14";
  p.facets = {
      {"flat", "random flat expressions (numbers, variables, powers, tensors, normal operators, their products and sums) written and read back; non-trivial: a product or a sum", flat, 100000, 2000000},
      {"nested", "random nested sums and products of tensor networks written and read back; non-trivial: more than one factor or term", nested, 60000, 1000000},
      {"rendered", "random expressions rendered to text with every notation the grammar offers and random white space; non-trivial: contains an operator", rendered, 100000, 2000000},
      {"malformed", "texts of random expressions with 1-3 edits, and random token sequences; non-trivial: rejected, or read as an expression", malformed, 150000, 3000000},
      {"results", "random ResultExpr written and read back; all non-trivial", results, 60000, 1000000},
      {"imaginary", "numbers with an imaginary part, alone and as a factor", imaginary, 2000, 20000},
  };
  p.assumptions = {"outside of facet imaginary numbers are real (the grammar has no imaginary unit); they are below 1e308", "labels follow the rules of the grammar (start with a letter, do not end with an underscore)"};
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
