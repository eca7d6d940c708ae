// Export: the calls a code generator receives, run by a virtual machine.
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/utility/string.hpp>
#include <iostream>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/generation_optimizer.hpp>
#include <SeQuant/core/export/itf.hpp>
#include <SeQuant/core/export/julia_itensor.hpp>
#include <SeQuant/core/export/julia_tensor_kit.hpp>
#include <SeQuant/core/export/julia_tensor_operations.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <SeQuant/core/export/text_generator.hpp>
#include <SeQuant/core/export/reordering_context.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include "gen.hpp"
#include "rewrite.hpp"
using namespace sequant;
using namespace gen;

namespace {
using num::F;
using num::show;
using Ids = std::vector<Index>;

Ids ids_of(const Tensor& t) {
  Ids r;
  for (auto& i : t.const_indices())
    if (i) r.push_back(i);
  return r;
}
// what identifies a block: label and spaces of the indices, in order
std::wstring key_of(const Tensor& t) {
  std::wstring r(t.label());
  for (auto& i : ids_of(t)) r += L"|" + std::wstring(i.space().base_key()) + L"," + std::to_wstring(i.space().qns().to_int32());
  return r;
}
std::wstring key_of(const Variable& v) { return std::wstring(v.label()) + (v.conjugated() ? L"^*" : L""); }

// the label of integrals that keep their value if the indices of one particle
// are exchanged, which ITF makes use of
std::wstring coulomb;
bool is_coulomb(const Tensor& t) { return !coulomb.empty() && t.label() == coulomb && t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0; }
// the same as a sum over all of these
std::vector<Tensor> orbit(const Tensor& t) {
  std::vector<Tensor> r;
  const auto& b = t.bra();
  const auto& k = t.ket();
  for (int x = 0; x < 8; ++x) {
    std::vector<Index> p{b[0], b[1]}, q{k[0], k[1]};
    if (x & 1) std::swap(p[0], q[0]);
    if (x & 2) std::swap(p[1], q[1]);
    if (x & 4) std::swap(p[0], p[1]), std::swap(q[0], q[1]);
    r.push_back(Tensor(L"G", bra(p), ket(q), t.symmetry(), t.braket_symmetry(), t.column_symmetry()));
  }
  return r;
}
std::vector<F> elements(const Tensor& t, const num::Model& m, const Ids& ids) {
  if (!is_coulomb(t)) return num::elements(t, m, ids);
  std::vector<F> r;
  for (auto& x : orbit(t)) {
    auto v = num::elements(x, m, ids);
    r.resize(v.size());
    for (std::size_t k = 0; k < v.size(); ++k) r[k] += v[k];
  }
  return r;
}
ExprPtr spelled_out(const ExprPtr& e) {
  if (e->is<Tensor>() && is_coulomb(e->as<Tensor>())) {
    Sum r;
    for (auto& x : orbit(e->as<Tensor>())) r.append(ex<Tensor>(x));
    return ex<Sum>(std::move(r));
  }
  if (e->is<Sum>()) {
    Sum r;
    for (auto& x : *e) r.append(spelled_out(x));
    return ex<Sum>(std::move(r));
  }
  if (e->is<Product>()) {
    Product r;
    r.scale(e->as<Product>().scalar());
    for (auto& x : *e) r.append(1, spelled_out(x), Product::Flatten::No);
    return ex<Product>(std::move(r));
  }
  return e;
}

struct Cell {
  std::vector<F> v;
  bool defined = true;
};
struct Memory {
  num::Model m;
  std::map<std::wstring, Cell> loaded, stored;
  std::vector<std::wstring> order;   // of loading
  std::map<std::wstring, Cell> data;   // leaves under a name of their own (rewritten tensors)
};

enum Style { declare_late = 1 };
struct Settings {
  DeclarationScope index = DeclarationScope::Global, variable = DeclarationScope::Global, tensor = DeclarationScope::Global;
  PrunableScalars prune = PrunableScalars::All;
  bool sections = true, requires_sections = false, batching = false;
};

template <class Ctx>
class VM : public Generator<Ctx> {
 public:
  Settings o;
  Memory& mem;
  // which names belong to the expressions (not made by the export)
  std::set<std::wstring> leaves;
  std::vector<std::wstring> persisted;
  std::map<std::wstring, Ids> persisted_ids;
  long computed = 0, created = 0, max_loaded = 0, reused = 0;
  std::vector<std::string> log;
  std::string bad;

  VM(Settings s, Memory& m) : o(s), mem(m) {}
  void want(bool ok, const std::string& what) {
    if (!ok && bad.empty()) {
      bad = what;
      std::string l;
      for (auto& x : log) l += "\n  " + x;
      throw pbt::Fail(what + "; calls:" + l);
    }
  }

  std::string get_format_name() const override { return "vm"; }
  bool supports_named_sections() const override { return o.sections; }
  bool requires_named_sections() const override { return o.requires_sections; }
  bool supports_index_batching() const override { return o.batching; }
  DeclarationScope index_declaration_scope() const override { return o.index; }
  DeclarationScope variable_declaration_scope() const override { return o.variable; }
  DeclarationScope tensor_declaration_scope() const override { return o.tensor; }
  PrunableScalars prunable_scalars() const override { return o.prune; }
  std::string represent(const Index& i, const Ctx&) const override { return show(i); }
  std::string represent(const Tensor& t, const Ctx&) const override { return show(t.clone()); }
  std::string represent(const Variable& t, const Ctx&) const override { return show(t.clone()); }
  std::string represent(const Constant& t, const Ctx&) const override { return show(t.clone()); }
  std::string represent(const Power& t, const Ctx&) const override { return show(t.clone()); }

  std::size_t size_of(const Tensor& t) const {
    std::size_t n = 1;
    for (auto& i : ids_of(t)) n *= mem.m.orbitals(i.space()).size();
    return n;
  }
  std::size_t size_of(const Variable&) const { return 1; }
  std::vector<F> leaf(const Tensor& t) const { return num::elements(t, mem.m, ids_of(t)); }
  std::vector<F> leaf(const Variable& v) const {
    num::EvalOptions eo;
    eo.externals = num::IndexSet{};
    return {num::eval(v.clone(), mem.m, eo)};
  }
  void put(const std::wstring& k, Cell c) {
    mem.loaded[k] = std::move(c);
    mem.order.push_back(k);
    max_loaded = std::max(max_loaded, (long)mem.loaded.size());
  }
  template <class T>
  void touch(const T& t, const char* what) {
    log.push_back(what + (" " + show(t.clone())));
    want(in_expression, std::string(what) + " outside of an expression");
    want(current_declared(t), std::string(what) + " of " + show(t.clone()) + ", which is not declared");
  }
  template <class T>
  void create_(const T& t, bool zero) {
    touch(t, zero ? "create" : "create(no zero)");
    auto k = key_of(t);
    want(!mem.loaded.count(k), "create of something loaded");
    want(!leaves.count(k) || persisted_ids.count(k), "create of a leaf: " + show(t.clone()));
    Cell c;
    c.v.assign(size_of(t), F());
    c.defined = zero;
    put(k, c);
    ++created;
    used_as[k] |= 2;
  }
  template <class T>
  void load_(const T& t, bool zero) {
    touch(t, zero ? "load(zero)" : "load");
    auto k = key_of(t);
    want(!mem.loaded.count(k), "load of something loaded");
    Cell c;
    if (zero)
      c.v.assign(size_of(t), F());
    else if (auto it = mem.stored.find(k); it != mem.stored.end())
      c = it->second, ++reused;
    else if (auto it2 = mem.data.find(k); it2 != mem.data.end())
      c = it2->second;
    else if (leaves.count(k))
      c.v = leaf(t);
    else
      c.v.assign(size_of(t), F()), c.defined = false;
    want(c.v.size() == size_of(t), "data of " + show(t.clone()) + " has another size than its indices say");
    put(k, c);
  }
  template <class T>
  void zero_(const T& t) {
    touch(t, "zero");
    auto it = mem.loaded.find(key_of(t));
    want(it != mem.loaded.end(), "set_to_zero of something not loaded");
    it->second.v.assign(size_of(t), F());
    it->second.defined = true;
    ++reused;
  }
  template <class T>
  void unload_(const T& t) {
    touch(t, "unload");
    auto k = key_of(t);
    want(mem.loaded.count(k), "unload of something not loaded");
    // stack-like allocation is enough (PreprocessVisitor)
    want(mem.order.back() == k, "unload not in the reverse order of loading");
    mem.order.pop_back();
    mem.loaded.erase(k);
  }
  template <class T>
  void persist_(const T& t, Ids ids) {
    touch(t, "persist");
    auto k = key_of(t);
    want(mem.loaded.count(k), "persist of something not loaded");
    want(mem.loaded.at(k).defined, "persist of undefined data");
    mem.stored[k] = mem.loaded.at(k);
    persisted.push_back(k);
    persisted_ids[k] = ids;
  }

  void create(const Tensor& t, bool z, const Ctx&) override { create_(t, z); }
  void create(const Variable& t, bool z, const Ctx&) override { create_(t, z); }
  void load(const Tensor& t, bool z, const Ctx&) override { load_(t, z); }
  void load(const Variable& t, bool z, const Ctx&) override { load_(t, z); }
  void set_to_zero(const Tensor& t, const Ctx&) override { zero_(t); }
  void set_to_zero(const Variable& t, const Ctx&) override { zero_(t); }
  void unload(const Tensor& t, const Ctx&) override { unload_(t); }
  void unload(const Variable& t, const Ctx&) override { unload_(t); }
  void destroy(const Tensor& t, const Ctx&) override { unload_(t); }
  void destroy(const Variable& t, const Ctx&) override { unload_(t); }
  void persist(const Tensor& t, const Ctx&) override { persist_(t, ids_of(t)); }
  void persist(const Variable& t, const Ctx&) override { persist_(t, {}); }

  struct Operand {
    Ids ids;
    const std::vector<F>* v;
  };
  const Cell& operand(const std::wstring& k, const std::string& what, const std::wstring& result) {
    auto it = mem.loaded.find(k);
    want(it != mem.loaded.end(), "operand " + what + " is not loaded");
    want(it->second.defined, "operand " + what + " has undefined data");
    want(k != result, "operand " + what + " is the result, too");
    return it->second;
  }
  // the conjugate is loaded itself, or formed from the variable
  F variable(const Variable& v, const std::wstring& result) {
    if (v.conjugated() && !mem.loaded.count(key_of(v))) {
      Variable plain = v;
      plain.conjugate();
      return operand(key_of(plain), show(v.clone()), result).v.at(0).conj();
    }
    return operand(key_of(v), show(v.clone()), result).v.at(0);
  }
  void collect(const Expr& e, F& f, std::vector<Operand>& ops, const std::wstring& result) {
    if (e.is<Constant>())
      f *= mem.m.constant(e.as<Constant>());
    else if (e.is<Variable>())
      f *= variable(e.as<Variable>(), result);
    else if (e.is<Power>()) {
      auto& b = *e.as<Power>().base();
      F x(1, 0);
      if (b.is<Variable>())
        x = variable(b.as<Variable>(), result);
      else if (b.is<Constant>())
        x = mem.m.constant(b.as<Constant>());
      else
        want(false, "power of something else than a scalar in a computation");
      // exponents are small integers here (else the expression is not generated)
      auto n = e.as<Power>().exponent();
      if (denominator(n) != 1) throw pbt::Discard{};
      auto k = static_cast<long>(numerator(n));
      if (k < 0) x = x.inv(), k = -k;
      f *= x.pow((std::uint64_t)k);
    } else if (e.is<Tensor>())
      ops.push_back({ids_of(e.as<Tensor>()), &operand(key_of(e.as<Tensor>()), show(e.clone()), result).v});
    else if (e.is<Product>()) {
      f *= mem.m.constant(Constant(e.as<Product>().scalar()));
      for (auto& x : e) collect(*x, f, ops, result);
    } else
      want(false, "computation of something else than a product: " + show(e.clone()));
  }
  void compute_(const Expr& e, const Ids& out, const std::wstring& k) {
    auto it = mem.loaded.find(k);
    want(it != mem.loaded.end(), "result of a computation is not loaded");
    want(it->second.defined, "result of a computation has undefined data");
    F f(1, 0);
    std::vector<Operand> ops;
    collect(e, f, ops, k);
    want(ops.size() <= 2, "computation with more than two tensors");
    std::map<Index, std::size_t, Index::FullLabelCompare> pos;
    std::vector<std::size_t> n;
    auto add = [&](const Index& i) {
      if (pos.emplace(i, n.size()).second) n.push_back(mem.m.orbitals(i.space()).size());
    };
    std::set<Index, Index::FullLabelCompare> have;
    for (auto& i : out) add(i);
    want(pos.size() == out.size(), "result has an index twice");
    for (auto& q : ops)
      for (auto& i : q.ids) add(i), have.insert(i);
    for (auto& i : out) want(have.count(i), "index " + show(i) + " of the result is in no operand");
    double vol = 1;
    for (auto x : n) vol *= (double)x;
    if (vol > 3e5) throw pbt::Discard{};
    auto strides = [&](const Ids& a) {
      std::vector<std::size_t> s(n.size(), 0);
      std::size_t st = 1;
      for (auto q = a.size(); q-- > 0;) s[pos.at(a[q])] += st, st *= n[pos.at(a[q])];
      return s;
    };
    std::vector<std::vector<std::size_t>> st;
    for (auto& q : ops) st.push_back(strides(q.ids));
    auto so = strides(out);
    std::vector<std::size_t> x(n.size(), 0);
    bool done = false;
    for (auto q : n) done |= q == 0;
    while (!done) {
      F y = f;
      for (std::size_t a = 0; a < ops.size(); ++a) {
        std::size_t p = 0;
        for (std::size_t q = 0; q < n.size(); ++q) p += st[a][q] * x[q];
        y *= ops[a].v->at(p);
      }
      std::size_t p = 0;
      for (std::size_t q = 0; q < n.size(); ++q) p += so[q] * x[q];
      it->second.v.at(p) += y;
      done = true;
      for (auto q = n.size(); q-- > 0;) {
        if (++x[q] < n[q]) {
          done = false;
          break;
        }
        x[q] = 0;
      }
    }
    ++computed;
  }
  void compute(const Expr& e, const Tensor& r, const Ctx&) override {
    touch(r, ("compute " + show(e.clone()) + " ->").c_str());
    compute_(e, ids_of(r), key_of(r));
  }
  void compute(const Expr& e, const Variable& r, const Ctx&) override {
    touch(r, ("compute " + show(e.clone()) + " ->").c_str());
    compute_(e, {}, key_of(r));
  }

  // ---- declarations
  struct Declared {
    std::set<Index, Index::FullLabelCompare> indices;
    std::map<std::wstring, UsageSet> tensors, variables;
  };
  std::map<DeclarationScope, Declared> decl;
  std::optional<DeclarationScope> declaring;
  std::map<std::wstring, int> used_as;
  long n_i = 0, n_t = 0, n_v = 0;
  bool in_export = false, in_expression = false;
  std::optional<std::string> section;
  std::set<std::wstring> result_names;
  std::vector<std::string> sections;
  long expressions = 0;

  bool current_declared(const Tensor& t) {
    for (auto& i : ids_of(t))
      if (!decl[o.index].indices.count(i)) want(false, "index " + show(i) + " of " + show(t.clone()) + " is not declared");
    return decl[o.tensor].tensors.count(key_of(t));
  }
  bool current_declared(const Variable& t) { return decl[o.variable].variables.count(key_of(t)); }
  void declare(const Index& i, const Ctx&) override {
    want(declaring == o.index, "declaration of an index in another scope");
    want(decl[o.index].indices.insert(i).second, "index " + show(i) + " declared twice");
    ++n_i;
  }
  void declare(const Variable& v, UsageSet u, const Ctx&) override {
    want(declaring == o.variable, "declaration of a variable in another scope");
    want(decl[o.variable].variables.emplace(key_of(v), u).second, "variable declared twice");
    ++n_v;
  }
  void declare(const Tensor& t, UsageSet u, const Ctx&) override {
    want(declaring == o.tensor, "declaration of a tensor in another scope");
    log.push_back("declare " + show(t.clone()));
    want(decl[o.tensor].tensors.emplace(key_of(t), u).second, "tensor " + show(t.clone()) + " declared twice");
    ++n_t;
  }
  void all_indices_declared(std::size_t n, const Ctx&) override { want((long)n == n_i, "all_indices_declared: wrong number"), n_i = 0; }
  void all_variables_declared(std::size_t n, const Ctx&) override { want((long)n == n_v, "all_variables_declared: wrong number"), n_v = 0; }
  void all_tensors_declared(std::size_t n, const Ctx&) override { want((long)n == n_t, "all_tensors_declared: wrong number"), n_t = 0; }
  void begin_declarations(DeclarationScope s, const Ctx&) override {
    want(!declaring, "nested declarations");
    want(in_export && !in_expression, "declarations at a wrong place");
    declaring = s;
    decl[s] = {};
    n_i = n_t = n_v = 0;
  }
  void end_declarations(DeclarationScope s, const Ctx&) override {
    want(declaring == s, "end of other declarations than begun");
    declaring.reset();
  }
  void insert_comment(const std::string&, const Ctx&) override {}
  void begin_named_section(std::string_view n, const Ctx& c) override {
    want(o.sections, "named section for a generator without");
    want(!section && !in_expression && in_export, "named section begins at a wrong place");
    section = std::string(n);
    sections.push_back(*section);
    log.push_back("section " + *section);
    want(c.inside_named_section() && c.current_section_name() == n, "context has another section");
  }
  void end_named_section(std::string_view n, const Ctx&) override {
    want(section == std::string(n), "end of another section than begun");
    want(!in_expression, "section ends in an expression");
    section.reset();
  }
  void begin_expression(const Ctx& c) override {
    want(in_export && !in_expression && !declaring, "expression begins at a wrong place");
    want(!o.requires_sections || section, "expression outside of a named section");
    want(c.has_current_expression_id(), "expression without an id");
    in_expression = true;
    log.push_back("begin expression");
    want(mem.loaded.empty(), "something is loaded at the beginning of an expression");
    persisted_before = persisted.size();
  }
  std::size_t persisted_before = 0;
  void end_expression(const Ctx&) override {
    want(in_expression, "end of no expression");
    in_expression = false;
    ++expressions;
    want(persisted.size() == persisted_before + 1, "an expression persists " + std::to_string(persisted.size() - persisted_before) + " results");
    want(mem.loaded.size() == 1 && mem.loaded.count(persisted.back()), "something besides the result is loaded at the end of an expression");
    mem.loaded.clear();
    mem.order.clear();
    result_names.insert(persisted.back());
    // usage: declared kinds include how things were used
  }
  void begin_export(const Ctx&) override { want(!in_export, "nested export"), in_export = true; }
  void end_export(const Ctx&) override { want(in_export && !in_expression && !section && !declaring, "end of export at a wrong place"), in_export = false, ended = true; }
  bool ended = false;
  std::string get_generated_code() const override { return ""; }
};

// the value of a result, contracted with the weights of its indices
F folded(const std::vector<F>& v, const Ids& ix, const num::Model& m, const num::IndexSet& ext) {
  num::IndexSet have(ix.begin(), ix.end());
  F extra(1, 0);
  for (auto& i : have)
    if (!ext.count(i)) throw pbt::Fail("result has the index " + show(i));
  for (auto& i : ext)
    if (!have.count(i)) throw pbt::Fail("result lacks the index " + show(i));
  std::vector<std::vector<F>> w;
  for (auto& i : ix) {
    w.emplace_back();
    for (auto q : m.orbitals(i.space())) w.back().push_back(m.weight(i, q));
  }
  F total;
  std::vector<std::size_t> x(ix.size(), 0);
  for (auto& y : v) {
    F z = y;
    for (std::size_t k = 0; k < ix.size(); ++k) z *= w[k].at(x[k]);
    total += z;
    for (std::size_t k = ix.size(); k-- > 0;) {
      if (++x[k] < w[k].size()) break;
      x[k] = 0;
    }
  }
  return total * extra;
}

struct Problem {
  ExprPtr e;
  num::IndexSet ext;
  ResultExpr re;
  bool bare = false;   // exported without a result
};

NetOptions net_options(Src& s) {
  NetOptions n;
  n.min_tensors = 1 + s.coin();
  n.max_tensors = n.min_tensors + (int)s.below(4);
  n.max_dummies = 4;
  n.hyper = s.chance(1, 3);
  n.trace = false;
  n.halves = false;
  n.protos = false;
  n.rank_labels = true;
  n.special = false;
  n.variables = s.coin();
  n.max_volume = 3e3;
  if (s.chance(1, 25)) n.max_tensors = 9, n.max_dummies = 8;
  return n;
}

// brackets in products
ExprPtr bracket(Src& s, const ExprPtr& e, int depth) {
  if (e->is<Sum>()) {
    Sum r;
    for (auto& x : *e) r.append(bracket(s, x, depth));
    return ex<Sum>(std::move(r));
  }
  if (!e->is<Product>()) return e;
  auto& p = e->as<Product>();
  std::vector<ExprPtr> f;
  for (auto& x : p.factors()) f.push_back(bracket(s, x, depth + 1));
  while (f.size() > 2 && s.chance(2, 3)) {
    const std::size_t n = 2 + s.below((std::uint32_t)std::min<std::size_t>(2, f.size() - 2));
    const std::size_t at = s.below((std::uint32_t)(f.size() - n + 1));
    Product q;
    if (s.chance(1, 6)) q.scale(random_scalar(s));
    for (std::size_t k = 0; k < n; ++k) q.append(1, f[at + k], Product::Flatten::No);
    f.erase(f.begin() + (long)at, f.begin() + (long)(at + n));
    f.insert(f.begin() + (long)at, ex<Product>(std::move(q)));
  }
  Product r;
  r.scale(p.scalar());
  for (auto& x : f) r.append(1, x, Product::Flatten::No);
  return ex<Product>(std::move(r));
}
bool has_adjoint(const ExprPtr& e) {
  bool r = false;
  if (e->is<Tensor>()) r = std::wstring(e->as<Tensor>().label()).find(L'\u207A') != std::wstring::npos;
  if (!e->is_atom())
    for (auto& x : *e) r |= has_adjoint(x);
  return r;
}
void leaf_names(const ExprPtr& e, std::set<std::wstring>& r, std::vector<Tensor>* ts, std::vector<Variable>* vs) {
  if (e->is<Tensor>()) {
    r.insert(key_of(e->as<Tensor>()));
    if (ts) ts->push_back(e->as<Tensor>());
  }
  if (e->is<Variable>()) {
    r.insert(key_of(e->as<Variable>())), vs->push_back(e->as<Variable>());
    r.insert(key_of(Variable{std::wstring(e->as<Variable>().label())}));
  }
  if (e->is<Power>()) leaf_names(e->as<Power>().base(), r, ts, vs);
  if (!e->is_atom() && !e->is<Power>())
    for (auto& x : *e) leaf_names(x, r, ts, vs);
}
// sums without zeros, no empty products: what an evaluation tree can represent
bool odd(const ExprPtr& e, bool top = true) {
  if (e->is<Sum>() && e->size() < 2) return true;
  if (e->is<Product>() && (e->empty() || e->as<Product>().scalar().is_zero())) return true;
  if (e->is<Constant>() && e->as<Constant>().value().is_zero()) return true;
  if (e->is_atom() || e->is<Power>()) return false;
  if (e->is<Sum>()) {
    if (e->clone()->size() != e->size()) return true;
    int constants = 0;
    for (auto& x : *e) constants += x->is<Constant>();
    if (constants > 1) return true;
  }
  for (auto& x : *e)
    if (odd(x, false)) return true;
  return false;
}

// each tensor with indices needs some in its bra
bool needs_bra = false;
bool without_bra(const ExprPtr& e) {
  if (e->is<Tensor>()) return e->as<Tensor>().bra_rank() == 0;
  if (!e->is_atom() && !e->is<Power>())
    for (auto& x : *e)
      if (without_bra(x)) return true;
  return false;
}

ResultExpr result_expr(Src& s, const ExprPtr& e, const num::IndexSet& ext, const std::wstring& label) {
  Ids k(ext.begin(), ext.end());
  if (k.empty()) return ResultExpr(Variable(label), e->clone());
  s.shuffle(k);
  container::svector<Index> b[3];
  for (auto& i : k) b[needs_bra && b[0].empty() ? 0 : s.below(3)].push_back(i);
  return ResultExpr(Tensor(label, bra(b[0]), ket(b[1]), aux(b[2]), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e->clone());
}
SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
ExportNode<> tree_of(Src& s, const Problem& p, bool retain) {
  if (p.bare) {
    IndexSet x;
    for (auto& i : p.ext) x.emplace(i);
    return s.coin() ? to_export_tree(p.e, retain) : binarize<ExportExpr>(p.e, x, {.merge_indices = !retain});
  }
  return to_export_tree(p.re, retain);
}
SEQUANT_PRAGMA_IGNORE_DEPRECATED_END

struct Setup {
  std::vector<Problem> ps;
  std::vector<ExportNode<>> trees;
  std::vector<Tensor> tensors;          // leaves
  std::set<std::wstring> leaves;        // their names
  std::vector<Variable> variables;
  bool retain = false;
};
template <class Ctx>
Setup setup(Case& c, Ctx& ctx, World& w, Memory& mem) {
  auto& s = c.s;
  AttrMap attrs;
  if (!coulomb.empty()) attrs[coulomb] = Attr{Symmetry::Nonsymm, s.coin() ? BraKetSymmetry::Nonsymm : BraKetSymmetry::Symm, ColumnSymmetry::Symm, false};
  Setup r;
  mem.m = w.model;
  const int nt = s.weighted({0, 3, 2, 1});
  for (int t = 0; t < nt; ++t) {
    auto ext = random_ext(s, w, 2, s.chance(1, 3));
    ExprOptions eo;
    eo.net = net_options(s);
    eo.max_terms = s.weighted({3, 2, 1, 1}) + 1;
    eo.depth = s.chance(1, 3);
    auto e = bracket(s, random_expr(s, w, attrs, ext, eo), 0);
    for (int k = 0; needs_bra && k < 12 && without_bra(e); ++k) e = bracket(s, random_expr(s, w, attrs, ext, eo), 0);
    if (odd(e) || has_adjoint(e)) throw pbt::Discard{};
    auto all = ext.all();
    Problem p{e, all, result_expr(s, e, all, L"R" + std::to_wstring(t)), false};
    if (s.chance(1, 5)) {
      p.bare = true;
      if (e->is_atom()) p.bare = false;
    }
    c.note("expression " + std::to_string(t) + ": " + (p.bare ? "" : (all.empty() ? show(ex<Variable>(p.re.label())) : show(ex<Tensor>(p.re.result_as_tensor()))) + " = ") + show(e));
    r.ps.push_back(p);
  }
  r.retain = s.chance(1, 3);
  for (auto& p : r.ps) {
    r.trees.push_back(tree_of(s, p, r.retain));
    r.trees.back().visit_leaf([&](auto& n) { leaf_names(n->expr(), r.leaves, &r.tensors, &r.variables); });
  }
  // rewritten leaves have a name of their own
  for (auto& t : r.tensors) {
    Tensor q = t;
    if (!ctx.rewrite(q)) continue;
    if (is_coulomb(t)) {
      // K_pq,rs = (p q|r s) and J_pr,qs = (p q|r s), with the eight permutations
      c.require(q.label() == L"J" || q.label() == L"K", "integrals are called something else than J or K");
      const Ids o = ids_of(q);
      c.require(o.size() == 4, "integrals have another number of indices");
      const bool j = q.label() == L"J";
      auto pairs = [&](const Index& a, const Index& b, const Index& x, const Index& y) {
        std::set<std::set<std::wstring>> r;
        r.insert({std::wstring(a.full_label()), std::wstring(b.full_label())});
        r.insert({std::wstring(x.full_label()), std::wstring(y.full_label())});
        return r;
      };
      c.require(pairs(t.bra()[0], t.ket()[0], t.bra()[1], t.ket()[1]) == (j ? pairs(o[0], o[1], o[2], o[3]) : pairs(o[0], o[2], o[1], o[3])),
                show(q.clone()) + " is none of the permutations of " + show(t.clone()));
      c.tag("integrals " + pbt::to_utf8(std::wstring(q.label())));
    }
    Cell cell;
    cell.v = elements(t, mem.m, ids_of(q));
    auto [it, fresh] = mem.data.emplace(key_of(q), cell);
    if (!fresh && it->second.v != cell.v) c.fail("two tensors with different data are rewritten to the same block " + show(q.clone()));
    r.leaves.insert(key_of(q));
    c.tag("rewritten");
  }
  for (auto& t : r.tensors) {
    Tensor q = t;
    if (ctx.rewrite(q)) continue;
    if (mem.data.count(key_of(t)) && mem.data.at(key_of(t)).v != elements(t, mem.m, ids_of(t)))
      c.fail("the block " + show(t.clone()) + " is also what another tensor is rewritten to");
  }
  return r;
}
std::vector<std::vector<std::size_t>> grouping(Src& s, std::size_t n, bool empty) {
  std::vector<std::vector<std::size_t>> groups;
  for (std::size_t t = 0; t < n; ++t) {
    if (groups.empty() || s.coin()) groups.push_back({});
    groups.back().push_back(t);
  }
  if (empty && s.chance(1, 8)) groups.insert(groups.begin() + s.below((std::uint32_t)groups.size() + 1), std::vector<std::size_t>{});
  return groups;
}

template <class Ctx>
void machine(Case& c, Ctx ctx, World& w) {
  auto& s = c.s;
  Memory mem;
  Settings o;
  auto scope = [&] { return s.pick({DeclarationScope::Global, DeclarationScope::Section, DeclarationScope::Expression}); };
  o.index = scope(), o.variable = scope(), o.tensor = scope();
  o.prune = s.pick({PrunableScalars::None, PrunableScalars::Constants, PrunableScalars::Variables, PrunableScalars::All});
  o.sections = s.chance(3, 4);
  o.requires_sections = o.sections && s.coin();
  o.batching = s.coin();
  VM<Ctx> vm{o, mem};
  c.note("scopes " + std::to_string((int)o.index) + std::to_string((int)o.variable) + std::to_string((int)o.tensor) + ", prune " + std::to_string((int)o.prune) + ", sections " +
         std::to_string(o.sections) + std::to_string(o.requires_sections));
  auto su = setup(c, ctx, w, mem);
  auto& ps = su.ps;
  auto& trees = su.trees;
  vm.leaves = su.leaves;

  // strategies for results
  std::map<std::wstring, std::vector<F>> start;
  std::vector<std::vector<F>> initial(ps.size());
  std::vector<std::wstring> keys;
  for (std::size_t t = 0; t < ps.size(); ++t) {
    const auto& tree = trees[t];
    const auto& root = *tree;
    Tensor root_tensor;
    if (root.is_tensor()) root_tensor = root.as_tensor(), ctx.rewrite(root_tensor);
    std::wstring k = root.is_tensor() ? key_of(root_tensor) : key_of(root.as_variable());
    c.require(root.is_tensor() || root.is_variable(), "root is neither a tensor nor a variable");
    if (ps[t].bare && !tree.leaf() == false) throw pbt::Discard{};
    keys.push_back(k);
    if (!ps[t].bare && s.chance(1, 4)) {
      // accumulate on an existing result, or overwrite it
      const int how = (int)s.below(3);
      StrategyPair sp = how == 0 ? StrategyPair(LoadStrategy::Load, ZeroStrategy::NeverZero) : how == 1 ? StrategyPair(LoadStrategy::Load, ZeroStrategy::ZeroOnLoad) : StrategyPair(LoadStrategy::Create, ZeroStrategy::AlwaysZero);
      std::optional<std::size_t> id;
      if (s.coin()) id = root.id();
      c.note("strategy of " + pbt::to_utf8(k) + ": " + (how == 0 ? "accumulate" : how == 1 ? "load and zero" : "create") + (id ? " in its expression" : ""));
      if (root.is_tensor()) {
        // AlwaysZero includes zeroing on reuse, which is for intermediates
        if (how == 2) sp.zero = ZeroStrategy::ZeroOnCreate;
        ctx.setLoadStrategy(root_tensor, sp.load, id);
        ctx.setZeroStrategy(root_tensor, sp.zero, id);
      } else {
        if (how == 2) sp.zero = ZeroStrategy::ZeroOnCreate;
        ctx.setLoadStrategy(root.as_variable(), sp.load, id);
        ctx.setZeroStrategy(root.as_variable(), sp.zero, id);
      }
      if (how == 0) {
        std::size_t n = root.is_tensor() ? vm.size_of(root_tensor) : 1;
        for (std::size_t q = 0; q < n; ++q) initial[t].push_back(mem.m.random(q * 77 + t));
        mem.stored[k] = Cell{initial[t], true};
        c.tag("accumulate");
      } else if (how == 1) {
        std::size_t n = root.is_tensor() ? vm.size_of(root_tensor) : 1;
        mem.stored[k] = Cell{std::vector<F>(n, F::of(7)), true};
      }
    }
  }
  auto groups = grouping(s, ps.size(), true);
  const bool named = groups.size() > 1 ? s.chance(9, 10) : s.coin();
  std::vector<ExpressionGroup<>> gs;
  std::vector<std::string> names;
  for (auto& g : groups) {
    std::optional<std::string> name;
    if (named) name = "section" + std::to_string(gs.size());
    ExpressionGroup<> eg(name);
    for (auto t : g) eg.add(trees[t]);
    if (name) names.push_back(*name);
    else names.push_back("unnamed");
    gs.push_back(std::move(eg));
  }
  c.note(std::to_string(groups.size()) + " groups, " + (named ? "named" : "unnamed"));
  const bool refused = groups.size() > 1 && (!o.sections || !named);
  std::vector<std::size_t> done;
  bool threw = false;
  try {
    if (groups.size() == 1 && groups[0].size() == 1 && !named && s.coin())
      export_expression(trees[0], vm, ctx);
    else if (groups.size() == 1 && s.coin())
      export_group(gs[0], vm, ctx);
    else
      export_groups(gs, vm, ctx);
  } catch (const Exception& x) {
    threw = true;
    if (!refused) c.fail(std::string("exception: ") + x.what());
  }
  if (refused) {
    c.require(threw, "unnamed or unsupported groups are exported");
    c.require(vm.log.empty(), "refused export has called the generator");
    c.tag("refused");
    return;
  }
  c.require(vm.ended, "export has not ended");
  c.require(vm.persisted.size() == ps.size(), "not every result is persisted");
  if (o.sections) {
    std::vector<std::string> expect;
    if (named) expect = names;
    else if (o.requires_sections) expect = {"unnamed"};
    c.require(vm.sections == expect, "other sections than the groups");
  }
  // values: several bare expressions may have the same name; the last one stays
  std::map<std::wstring, std::size_t> last;
  for (std::size_t t = 0; t < ps.size(); ++t) {
    c.require(vm.persisted[t] == keys[t], "another result is persisted: " + pbt::to_utf8(vm.persisted[t]) + " instead of " + pbt::to_utf8(keys[t]));
    last[keys[t]] = t;
  }
  for (auto& [k, t] : last) {
    auto v = mem.stored.at(k).v;
    const auto& ids = vm.persisted_ids.at(k);
    if (!initial[t].empty())
      for (std::size_t q = 0; q < v.size(); ++q) v[q] = v[q] - initial[t][q];
    num::EvalOptions no;
    no.externals = ps[t].ext;
    no.max_work = 1e6;
    auto want = num::eval(ps[t].e, mem.m, no);
    auto got = folded(v, ids, mem.m, ps[t].ext);
    if (!(want == got)) {
      std::string l;
      for (auto& x : vm.log) l += "\n  " + x;
      c.fail("value of result " + std::to_string(t) + " is " + got.str() + " instead of " + want.str() + "; calls:" + l);
    }
  }
  c.nontrivial = vm.computed > 1;
  if (vm.reused) c.tag("reuse");
  if (ps.size() > 1) c.tag("several expressions");
}

World world(Src& s, int simple = 0) {
  WorldOptions wo;
  if (simple == 1) wo.kinds = {0, 0, 0, 2, 1};
  if (simple == 2) wo.aux = false;
  wo.spin = s.weighted({5, 1, 1});
  wo.max_extent = 3;
  return make_world(s, wo);
}
void vm_body(Case& c) {
  auto w = world(c.s);
  try {
    machine(c, ExportContext{}, w);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}
void vm_reorder(Case& c) {
  auto w = world(c.s);
  ReorderingContext ctx(c.s.pick({MemoryLayout::RowMajor, MemoryLayout::ColumnMajor, MemoryLayout::Unspecified}));
  if (c.s.chance(1, 8)) ctx.enable_rewriting(false);
  try {
    machine(c, ctx, w);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}

// ---- interpreters of generated programs -------------------------------------
enum class Lang { numpy, torch, julia, tensorkit, itensor, text, itf };
bool is_julia(Lang l) { return l == Lang::julia || l == Lang::tensorkit || l == Lang::itensor; }
struct Interp {
  Lang lang;
  std::map<std::string, std::pair<std::vector<std::size_t>, std::vector<F>>> vars, files;
  std::map<std::string, std::size_t> extent;   // text: of an index by its space
  F imag{0, 1};

  [[noreturn]] void err(const std::string& what) const { throw pbt::Fail(what + " in line: " + line); }
  std::string line;
  std::string t;
  std::size_t p = 0;
  bool eof() const { return p >= t.size(); }
  void ws() {
    while (!eof() && t[p] == ' ') ++p;
  }
  bool at(const std::string& x) const { return t.compare(p, x.size(), x) == 0; }
  bool eat(const std::string& x) {
    ws();
    if (!at(x)) return false;
    p += x.size();
    return true;
  }
  void need(const std::string& x) {
    if (!eat(x)) err("expected " + x + " at position " + std::to_string(p));
  }
  static bool alpha(unsigned char c) { return std::isalpha(c) || c == '_' || c >= 128; }
  static bool alnum(unsigned char c) { return alpha(c) || std::isdigit(c); }
  std::string name() {
    ws();
    const auto b = p;
    if (eof() || !alpha((unsigned char)t[p])) err("expected a name at position " + std::to_string(p));
    while (!eof() && alnum((unsigned char)t[p])) ++p;
    return t.substr(b, p - b);
  }
  F digits() {
    if (eof() || !std::isdigit((unsigned char)t[p])) err("expected a number at position " + std::to_string(p));
    F r;
    while (!eof() && std::isdigit((unsigned char)t[p])) r = r * F::of(10) + F::of(t[p++] - '0');
    if (!eof() && t[p] == '.') {
      F d(1, 0);
      for (++p; !eof() && std::isdigit((unsigned char)t[p]); ++p) r = r * F::of(10) + F::of(t[p] - '0'), d = d * F::of(10);
      r *= d.inv();
    }
    return r;
  }
  struct Op {
    std::vector<std::string> ix;
    std::vector<std::size_t> dims;
    const std::vector<F>* v;
  };
  struct Val {
    F s{1, 0};
    std::vector<Op> t;
    std::vector<std::shared_ptr<std::vector<F>>> own;
  };
  const std::pair<std::vector<std::size_t>, std::vector<F>>& var(const std::string& n) {
    auto it = vars.find(n);
    if (it == vars.end()) err("undefined name " + n);
    return it->second;
  }
  std::vector<std::string> index_list() {   // after [
    std::vector<std::string> r;
    ws();
    if (eat("]")) return r;
    for (;;) {
      ws();
      const auto b = p;
      while (!eof() && t[p] != ',' && t[p] != ']' && t[p] != ' ') ++p;
      r.push_back(t.substr(b, p - b));
      if (r.back().empty()) err("empty index");
      if (eat("]")) return r;
      need(",");
    }
  }
  static std::string space_of(const std::string& ix) {
    auto k = ix.rfind('_');
    return ix.substr(0, k);
  }
  std::string text_key(const std::string& n, const std::vector<std::string>& ix) {
    std::string r = n + "[";
    for (auto& i : ix) r += space_of(i) + ",";
    return r;
  }
  void check_ix(const std::vector<std::string>& ix, const std::vector<std::size_t>& dims) {
    if (ix.size() != dims.size()) err("wrong number of indices");
  }
  Val scalar(F f) {
    Val v;
    v.s = f;
    return v;
  }
  F only(const Val& v) {
    F f = v.s;
    for (auto& o : v.t) {
      if (lang != Lang::itensor || o.dims.size()) err("scalar expected");
      f *= o.v->at(0);
    }
    return f;
  }
  Val atom() {
    ws();
    if (eof()) err("expression expected");
    if (eat("(")) {
      auto v = expr();
      need(")");
      return v;
    }
    if (std::isdigit((unsigned char)t[p])) {
      F f = digits();
      if (lang == Lang::text || lang == Lang::itf) {
        if (!eof() && t[p] == '/') ++p, f *= digits().inv();
        return scalar(f);
      }
      const std::string unit = is_julia(lang) ? "im" : "j";
      if (at(unit) && (p + unit.size() >= t.size() || !alnum((unsigned char)t[p + unit.size()]))) p += unit.size(), f *= imag;
      return scalar(f);
    }
    if (lang == Lang::text && t[p] == 'i' && p + 1 < t.size() && std::isdigit((unsigned char)t[p + 1])) {
      ++p;
      return scalar(imag * only(atom()));
    }
    if (lang == Lang::itf) {
      if (t[p] == 'j' && p + 1 < t.size() && std::isdigit((unsigned char)t[p + 1])) {
        ++p;
        return scalar(imag * only(atom()));
      }
      auto [n, ix] = itf_ref();
      auto& v = var(n);
      itf_in_memory(n, ix);
      check_ix(ix, v.first);
      Val r;
      r.t.push_back({ix, v.first, &v.second});
      return r;
    }
    const std::string mod = lang == Lang::numpy ? "np." : lang == Lang::torch ? "torch." : "";
    if (eat(mod + "conj(")) {
      auto f = only(expr()).conj();
      need(")");
      return scalar(f);
    }
    if ((lang == Lang::numpy || lang == Lang::torch) && eat(mod + "einsum('")) {
      std::vector<std::vector<std::string>> in(1);
      std::vector<std::string> out;
      bool arrow = false;
      for (; !eof() && t[p] != '\''; ++p) {
        const char ch = t[p];
        if (ch == ',' && !arrow) in.emplace_back();
        else if (ch == '-' && p + 1 < t.size() && t[p + 1] == '>' && !arrow) arrow = true, ++p;
        else if (std::isalpha((unsigned char)ch)) (arrow ? out : in.back()).push_back(std::string(1, ch));
        else err("bad subscripts of einsum");
      }
      need("'");
      std::vector<Op> ops;
      bool opt = false;
      while (eat(",")) {
        if (eat("optimize=True")) {
          opt = true;
          break;
        }
        auto n = name();
        auto& v = var(n);
        if (ops.size() >= in.size()) err("more operands than subscripts");
        check_ix(in[ops.size()], v.first);
        ops.push_back({in[ops.size()], v.first, &v.second});
      }
      need(")");
      if (opt != (lang == Lang::numpy)) err("optimize");
      if (ops.size() != in.size()) err("fewer operands than subscripts");
      Val v;
      std::vector<std::size_t> dims;
      auto a = std::make_shared<std::vector<F>>(contract(F(1, 0), ops, out, dims, {}));
      if (out.empty()) return scalar(a->at(0));
      v.own.push_back(a);
      v.t.push_back({out, dims, a.get()});
      return v;
    }
    auto n = name();
    if (is_julia(lang) || lang == Lang::text) {
      if (lang == Lang::text ? (!eof() && t[p] == '[') : at("[")) {
        need("[");
        auto ix = index_list();
        auto& v = var(lang == Lang::text ? text_key(n, ix) : n);
        check_ix(ix, v.first);
        Val r;
        r.t.push_back({ix, v.first, &v.second});
        return r;
      }
    }
    auto& v = var(n);
    if (lang == Lang::itensor) {
      if (!index_set.count(n)) err(n + " has no indices");
      Val r;
      r.t.push_back({index_set.at(n), v.first, &v.second});
      return r;
    }
    if (v.first.size()) err("array " + n + " used as a scalar");
    return scalar(v.second.at(0));
  }
  Val power() {
    auto v = atom();
    if (lang == Lang::itf && eat(".conjugate()")) return scalar(only(v).conj());
    if (eat(is_julia(lang) || lang == Lang::text ? "^" : "**")) {
      // exponent: integer, possibly in brackets
      const bool br = eat("(");
      const bool neg = eat("-");
      ws();
      long k = 0;
      if (eof() || !std::isdigit((unsigned char)t[p])) err("exponent expected");
      while (!eof() && std::isdigit((unsigned char)t[p])) k = 10 * k + (t[p++] - '0');
      if (br && eat("/")) throw pbt::Discard{};
      if (br) need(")");
      auto f = only(v);
      if (neg) f = f.inv();
      return scalar(f.pow((std::uint64_t)k));
    }
    return v;
  }
  Val unary() {
    if (eat("-")) {
      auto v = unary();
      v.s = -v.s;
      return v;
    }
    return power();
  }
  Val term() {
    auto v = unary();
    auto times = [&](Val w) {
      v.s *= w.s;
      v.t.insert(v.t.end(), w.t.begin(), w.t.end());
      v.own.insert(v.own.end(), w.own.begin(), w.own.end());
    };
    for (;;) {
      ws();
      if (lang == Lang::text) {
        if (eof() || t[p] == ')' || t[p] == '+' || t[p] == '-') return v;
        times(power());
        continue;
      }
      if (lang == Lang::itf) {
        if (eof() || t[p] == ')' || t[p] == '+' || t[p] == '-') return v;
        times(eat("*") ? unary() : power());
        continue;
      }
      if (at("**")) err("power of a power");
      if (eat("*"))
        times(unary());
      else if (eat("/"))
        v.s *= only(unary()).inv();
      else
        return v;
    }
  }
  Val expr() {
    auto v = term();
    for (;;) {
      if (eat("+"))
        v = scalar(only(v) + only(term()));
      else if (eat("-"))
        v = scalar(only(v) - only(term()));
      else
        return v;
    }
  }
  std::vector<F> contract(F f, const std::vector<Op>& ops, const std::vector<std::string>& out, std::vector<std::size_t>& dims, const std::vector<std::size_t>& want) {
    std::map<std::string, std::size_t> pos;
    std::vector<std::size_t> n;
    for (auto& o : ops)
      for (std::size_t k = 0; k < o.ix.size(); ++k) {
        auto [it, fresh] = pos.emplace(o.ix[k], n.size());
        if (fresh) n.push_back(o.dims[k]);
        else if (n[it->second] != o.dims[k]) err("index " + o.ix[k] + " has two extents");
      }
    dims.clear();
    std::set<std::string> seen;
    for (auto& i : out) {
      if (!pos.count(i)) err("index " + i + " of the result is in no operand");
      if (!seen.insert(i).second) err("index " + i + " is twice in the result");
      dims.push_back(n[pos[i]]);
    }
    if (want.size() && want != dims) err("result has another shape");
    double vol = 1;
    for (auto x : n) vol *= (double)x;
    if (vol > 3e5) throw pbt::Discard{};
    auto strides = [&](const std::vector<std::string>& a) {
      std::vector<std::size_t> st(n.size(), 0);
      std::size_t q = 1;
      for (auto k = a.size(); k-- > 0;) st[pos.at(a[k])] += q, q *= n[pos.at(a[k])];
      return st;
    };
    std::vector<std::vector<std::size_t>> st;
    for (auto& o : ops) st.push_back(strides(o.ix));
    auto so = strides(out);
    std::size_t size = 1;
    for (auto d : dims) size *= d;
    std::vector<F> r(size);
    std::vector<std::size_t> x(n.size(), 0);
    bool done = false;
    for (auto q : n) done |= q == 0;
    while (!done) {
      F y = f;
      for (std::size_t a = 0; a < ops.size(); ++a) {
        std::size_t q = 0;
        for (std::size_t k = 0; k < n.size(); ++k) q += st[a][k] * x[k];
        y *= ops[a].v->at(q);
      }
      std::size_t q = 0;
      for (std::size_t k = 0; k < n.size(); ++k) q += so[k] * x[k];
      r.at(q) += y;
      done = true;
      for (auto k = n.size(); k-- > 0;) {
        if (++x[k] < n[k]) {
          done = false;
          break;
        }
        x[k] = 0;
      }
    }
    return r;
  }
  std::vector<std::size_t> numbers(const std::string& close) {
    std::vector<std::size_t> r;
    while (!eat(close)) {
      if (eat(",")) continue;
      ws();
      if (eof() || !std::isdigit((unsigned char)t[p])) err("extent expected");
      std::size_t k = 0;
      while (!eof() && std::isdigit((unsigned char)t[p])) k = 10 * k + (std::size_t)(t[p++] - '0');
      r.push_back(k);
    }
    return r;
  }
  void zeros(const std::string& n, std::vector<std::size_t> d) {
    std::size_t k = 1;
    for (auto x : d) k *= x;
    vars[n] = {d, std::vector<F>(k)};
  }
  void add(const std::string& n, const Val& v, const std::vector<std::string>* ix) {
    auto it = vars.find(n);
    if (it == vars.end()) err("undefined name " + n);
    auto& tgt = it->second;
    for (auto& o : v.t)
      if (o.v == &tgt.second) err("operand is the result, too");
    std::vector<std::size_t> dims;
    std::vector<std::string> out;
    if (ix) {
      check_ix(*ix, tgt.first);
      out = *ix;
    } else {
      if (v.t.size() > 1) err("several arrays");
      if (v.t.size()) out = v.t[0].ix;
    }
    auto r = contract(v.s, v.t, out, dims, {});
    if (dims != tgt.first) err("shapes differ");
    for (std::size_t k = 0; k < r.size(); ++k) tgt.second[k] += r[k];
  }
  void end() {
    ws();
    if (!eof()) err("trailing " + t.substr(p));
  }
  std::vector<std::string> results;   // persisted
  void save(const std::string& n) {
    files[n] = var(n);
    results.push_back(n);
  }
  void load(const std::string& n, const std::string& file, const std::string& ext) {
    if (file != n + ext) err("loads another file than it is named like");
    auto it = files.find(n);
    if (it == files.end()) err("no such file " + file);
    vars[n] = it->second;
  }
  std::string quoted(char q) {
    need(std::string(1, q));
    const auto b = p;
    while (!eof() && t[p] != q) ++p;
    auto r = t.substr(b, p - b);
    need(std::string(1, q));
    return r;
  }
  void python(const std::string& l) {
    const std::string mod = lang == Lang::numpy ? "np." : "torch.", ext = lang == Lang::numpy ? ".npy" : ".pt";
    t = l, p = 0;
    if (eat("del ")) {
      auto n = name();
      end();
      var(n);
      vars.erase(n);
      return;
    }
    if (eat(mod + "save(")) {
      std::string n, f;
      if (lang == Lang::numpy) f = quoted('\''), need(","), n = name();
      else n = name(), need(","), f = quoted('\'');
      need(")");
      end();
      if (f != n + ext) err("saves to another file than it is named like");
      return save(n);
    }
    auto n = name();
    if (eat(lang == Lang::numpy ? ".fill(0)" : ".zero_()")) {
      end();
      var(n);
      return zeros(n, vars.at(n).first);
    }
    if (eat("+=")) {
      auto v = expr();
      end();
      return add(n, v, nullptr);
    }
    need("=");
    if (eat(mod + "zeros((")) {
      auto d = numbers(")");
      if (lang == Lang::numpy) {
        need(", order='");
        if (!eat("F'") && !eat("C'")) err("order");
      } else
        need(", dtype=torch.float64");
      need(")");
      end();
      return zeros(n, d);
    }
    if (eat(mod + "load(")) {
      auto f = quoted('\'');
      need(")");
      end();
      return load(n, f, ext);
    }
    need("0.0");
    end();
    vars[n] = {{}, {F()}};
  }
  void julia(const std::string& l) {
    t = l, p = 0;
    if (eat("return ")) {
      auto n = name();
      end();
      return save(n);
    }
    if (eat("@tensor ")) {
      auto n = name();
      std::optional<std::vector<std::string>> ix;
      if (at("[")) need("["), ix = index_list();
      else ix.emplace();
      need("+=");
      auto v = expr();
      end();
      return add(n, v, &*ix);
    }
    auto n = name();
    if (lang == Lang::itensor && eat("+=")) {
      auto v = expr();
      end();
      if (!vars.count(n) || !index_set.count(n)) err("undefined result " + n);
      auto ix = index_set.at(n);
      // common indices are summed over, always
      std::map<std::string, int> k;
      for (auto& o : v.t) for (auto& i : o.ix) ++k[i];
      for (auto& [i, q] : k)
        if (q > 2 || (q == 2) == (std::find(ix.begin(), ix.end(), i) != ix.end())) throw pbt::Discard{};
      return add(n, v, &ix);
    }
    need("=");
    if (lang == Lang::tensorkit && eat("TensorMap(")) {
      std::vector<std::size_t> d;
      if (eat("zeros(Float64")) {
        d = numbers(")");
        zeros(n, d);
      } else {
        need("deserialize(");
        auto f = quoted('"');
        need(")");
        load(n, f, ".jlbin");
        d = vars.at(n).first;
      }
      need(",");
      int commas = 0;
      for (std::size_t k = 0; k < d.size(); ++k) {
        need("ℝ^");
        std::size_t q = 0;
        while (!eof() && std::isdigit((unsigned char)t[p])) q = 10 * q + (std::size_t)(t[p++] - '0');
        if (q != d[k]) err("the space of a map does not match its data");
        if (eat(",")) ++commas;
        else if (k + 1 < d.size()) need("⊗");
      }
      if (commas > 1 || (commas == 0 && d.size())) err("a map has one domain and one codomain");
      need(")");
      return end();
    }
    if (lang == Lang::itensor && eat("Index(")) {
      auto d = numbers(",");
      if (d.size() != 1 || quoted('"') != n) err("declaration of an index");
      need(")");
      end();
      if (!extent.emplace(n, d[0]).second) err("index declared twice");
      return;
    }
    if (lang == Lang::itensor && eat("ITensor(")) {
      std::vector<std::string> ix;
      if (eat("tmpvar")) {
        vars[n] = var("tmpvar");
        vars.erase("tmpvar");
      } else {
        if (eat("zeros(Float64")) {
          auto d = numbers(")");
          zeros(n, d);
        } else {
          need("deserialize(");
          auto f = quoted('"');
          need(")");
          load(n, f, ".jlbin");
        }
        need(",");
        while (ws(), !at(")")) {
          ix.push_back(name());
          if (!eat(",")) break;
        }
      }
      need(")");
      end();
      std::vector<std::size_t> d;
      for (auto& i : ix) {
        if (!extent.count(i)) err("index " + i + " is not declared");
        d.push_back(extent.at(i));
      }
      if (d != vars.at(n).first) err("indices do not match the data");
      index_set[n] = ix;
      return;
    }
    if (lang == Lang::itensor && n == "tmpvar" && eat("deserialize(")) {
      auto f = quoted('"');
      need(")");
      end();
      if (f.size() < 6 || f.substr(f.size() - 6) != ".jlbin" || !files.count(f.substr(0, f.size() - 6))) err("no such file");
      vars[n] = files.at(f.substr(0, f.size() - 6));
      return;
    }
    if (eat("nothing")) {
      end();
      var(n);
      vars.erase(n);
      return;
    }
    if (eat("zeros(Float64")) {
      auto d = numbers(")");
      end();
      return zeros(n, d);
    }
    if (eat("deserialize(")) {
      auto f = quoted('"');
      need(")");
      end();
      return load(n, f, ".jlbin");
    }
    if (!eat("0.0")) need("0");
    end();
    vars[n] = {{}, {F()}};
  }
  std::string text_name(std::vector<std::string>* ix = nullptr, std::vector<std::size_t>* dims = nullptr) {
    auto n = name();
    if (eof() || t[p] != '[') return n;
    need("[");
    auto i = index_list();
    if (ix) *ix = i;
    if (dims)
      for (auto& x : i) {
        if (!extent.count(space_of(x))) err("unknown index " + x);
        dims->push_back(extent.at(space_of(x)));
      }
    return text_key(n, i);
  }
  std::set<std::string> declared;
  void declare(std::string n) {
    if (!declared.insert(n).second) err(n + " declared twice");
  }
  void text(const std::string& l) {
    t = l, p = 0;
    std::vector<std::size_t> d;
    std::vector<std::string> ix;
    if (eat("Declare index ")) {
      p = 0;
      return declare(t);
    }
    if (eat("Declare variable ") || eat("Declare tensor ")) return declare(text_name());
    auto known = [&](const std::string& n) {
      if (!declared.count(n)) err(n + " is not declared");
    };
    if (eat("Create ")) {
      auto n = text_name(&ix, &d);
      known(n);
      need("and initialize to zero");
      end();
      if (vars.count(n)) err("created twice");
      return zeros(n, d);
    }
    if (eat("Load ")) {
      auto n = text_name(&ix, &d);
      known(n);
      if (vars.count(n)) err("loaded twice");
      if (eat("and set it to zero")) return end(), zeros(n, d);
      end();
      if (!files.count(n)) err("no data for " + n);
      vars[n] = files.at(n);
      return;
    }
    if (eat("Setting ")) {
      auto n = text_name(&ix, &d);
      need("to zero");
      end();
      var(n);
      return zeros(n, d);
    }
    if (eat("Unload ")) {
      auto n = text_name();
      end();
      var(n);
      vars.erase(n);
      return;
    }
    if (eat("Persist ")) {
      auto n = text_name();
      end();
      save(n);
      // nothing else is done with it, other results may have the same name
      vars.erase(n);
      return;
    }
    need("Compute ");
    auto n = text_name(&ix);
    need("+=");
    auto v = expr();
    end();
    add(n, v, &ix);
  }
  std::map<std::string, std::vector<std::string>> index_set;   // ITensor: of arrays

  // ---- ITF
  struct ItfTensor {
    std::string spaces, import;
  };
  std::map<std::string, std::string> itf_tags, itf_names;      // of spaces: tag -> name
  std::map<std::string, std::string> itf_indices;              // declared ones: tag of the space
  std::map<std::string, ItfTensor> itf_tensors;
  decltype(files) itf_dropped;
  std::map<std::string, int> itf_loaded;
  std::vector<std::vector<std::string>> itf_loops;             // open ones
  std::vector<std::vector<std::string>> itf_batches;           // indices of the loops around each result
  std::string itf_index() {
    if (eof()) err("index expected");
    if (t[p] != '{') {
      if (!std::isalpha((unsigned char)t[p])) err("names of indices are letters");
      return std::string(1, t[p++]);
    }
    const auto e = t.find('}', p);
    if (e == std::string::npos || e < p + 3) err("name of an index");
    auto r = t.substr(p, e + 1 - p);
    p = e + 1;
    return r;
  }
  std::string itf_word(const std::string& close) {
    ws();
    const auto b = p;
    while (!eof() && close.find(t[p]) == std::string::npos) ++p;
    if (b == p) err("name expected");
    return t.substr(b, p - b);
  }
  // tensor with indices; the tags in its name are those of the indices
  std::pair<std::string, std::vector<std::string>> itf_ref() {
    auto n = itf_word("[] ");
    std::vector<std::string> ix;
    need("[");
    while (!eof() && t[p] != ']') ix.push_back(itf_index());
    need("]");
    std::string tags;
    for (auto& i : ix) {
      if (!itf_indices.count(i)) err("index " + i + " is not declared");
      tags += itf_indices.at(i);
    }
    const auto k = n.find(':');
    if ((k == std::string::npos ? std::string() : n.substr(k + 1)) != tags) err("block " + n + " has other spaces than its indices: " + tags);
    return {n, ix};
  }
  std::vector<std::size_t> itf_dims(const std::vector<std::string>& ix) {
    std::vector<std::size_t> d;
    for (auto& i : ix) d.push_back(extent.at("tag " + itf_indices.at(i)));
    return d;
  }
  // in a loop there is only the part of a tensor that belongs to the values of
  // the indices looped over
  std::map<std::string, std::map<std::string, int>> itf_parts;
  std::string itf_part(const std::vector<std::string>& ix) {
    std::string r;
    for (auto& i : ix) {
      bool looped = false;
      for (auto& l : itf_loops) looped |= std::find(l.begin(), l.end(), i) != l.end();
      r += looped ? i : "*";
    }
    return r;
  }
  void itf_in_memory(const std::string& n, const std::vector<std::string>& ix) {
    if (!itf_parts[n].count(itf_part(ix))) err("another part of " + n + " is in memory");
  }
  void itf_out(const std::string& n, const std::vector<std::string>& ix) {
    itf_in_memory(n, ix);
    if (!--itf_parts[n][itf_part(ix)]) itf_parts[n].erase(itf_part(ix));
  }
  void itf(const std::string& program) {
    std::istringstream in(program);
    enum { begin, decl, code, done } at_ = begin;
    std::vector<std::string> open_loop;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      std::size_t depth = 0;
      while (depth < line.size() && line[depth] == '\t') ++depth;
      t = line.substr(depth), p = 0;
      if (at_ == done) err("something after the end");
      if (eat("---- ")) {
        if (depth) err("indentation");
        itf_loops.clear();
        if (eat("decl")) {
          if (at_ != begin) err("second declarations");
          at_ = decl;
        } else if (eat("end"))
          at_ = done;
        else {
          need("code(");
          sections.push_back(quoted('"'));
          need(")");
          if (at_ == begin) err("code without declarations");
          at_ = code;
          vars.clear(), itf_loaded.clear(), itf_parts.clear();
        }
        end();
        continue;
      }
      if (at_ == decl) {
        if (depth) err("indentation");
        if (eat("index-space: ")) {
          auto i = itf_index();
          need(",");
          auto n = itf_word(",");
          need(",");
          auto g = itf_word(" ,");
          end();
          if (!itf_tags.count(g) || itf_tags.at(g) != n) err("space " + n + " with tag " + g);
          if (!itf_indices.emplace(i, g).second) err("index declared twice");
          continue;
        }
        need("tensor: ");
        auto [n, ix] = itf_ref();
        need(",");
        auto imp = itf_word("");
        if (!itf_tensors.emplace(n, ItfTensor{"", imp}).second) err("tensor declared twice");
        continue;
      }
      if (at_ != code) err("statement outside of a section");
      if (eat("for [")) {
        if (depth > itf_loops.size()) err("indentation");
        itf_loops.resize(depth);
        std::vector<std::string> l;
        while (!eat("]")) {
          l.push_back(itf_index());
          if (!itf_indices.count(l.back())) err("loop over an index that is not declared");
          eat(", ");
        }
        if (l.empty()) err("loop over nothing");
        need(":");
        end();
        itf_loops.push_back(l);
        continue;
      }
      if (depth > itf_loops.size()) err("indentation");
      itf_loops.resize(depth);
      auto known = [&](const std::string& n) {
        if (!itf_tensors.count(n)) err(n + " is not declared");
      };
      if (eat("alloc ")) {
        auto [n, ix] = itf_ref();
        end(), known(n);
        if (vars.count(n)) err("allocated twice");
        zeros(n, itf_dims(ix));
        ++itf_parts[n][itf_part(ix)];
      } else if (eat("load ")) {
        auto [n, ix] = itf_ref();
        end(), known(n);
        // one tensor with several indices: each of them is loaded and dropped
        if (vars.count(n) && !itf_loaded.count(n)) err("load of what has been computed");
        // what is not imported keeps its elements when it is dropped
        auto& from = itf_tensors.at(n).import[0] == '!' ? itf_dropped : files;
        if (!from.count(n)) err("no data for " + n);
        if (itf_loaded[n]++ && !(vars.at(n) == from.at(n))) err("changed between two loads");
        vars[n] = from.at(n);
        ++itf_parts[n][itf_part(ix)];
        if (vars[n].first != itf_dims(ix)) err("another shape");
      } else if (eat("drop ")) {
        auto [n, ix] = itf_ref();
        end(), var(n), known(n);
        itf_out(n, ix);
        if (itf_tensors.at(n).import[0] == '!') itf_dropped[n] = vars.at(n);
        if (auto it = itf_loaded.find(n); it != itf_loaded.end()) {
          if (--it->second) continue;
          itf_loaded.erase(it);
        }
        vars.erase(n);
      } else if (eat("store ")) {
        auto [n, ix] = itf_ref();
        end(), save(n);
        itf_out(n, ix);
        vars.erase(n), itf_loaded.erase(n);
        if (vars.size()) err("something is left");
        itf_batches.push_back({});
        for (auto& l : itf_loops) for (auto& i : l) itf_batches.back().push_back(i);
      } else {
        need(".");
        auto [n, ix] = itf_ref();
        known(n), var(n);
        itf_in_memory(n, ix);
        if (eat(":= 0 * One[]")) {
          end(), var(n);
          zeros(n, vars.at(n).first);
          continue;
        }
        need("+=");
        auto v = expr();
        end();
        add(n, v, &ix);
      }
    }
    if (at_ != done) err("no end");
  }

  std::vector<std::string> sections;
  void run(const std::string& program) {
    if (lang == Lang::itf) return itf(program);
    std::istringstream in(program);
    bool inside = false;
    const std::string indent = lang == Lang::text ? "  " : "    ";
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      const bool python_like = lang == Lang::numpy || lang == Lang::torch;
      auto l = line;
      if (python_like && (l == "import numpy as np" || l == "import torch" || l == "import os")) {
        if (l == (lang == Lang::numpy ? "import torch" : "import numpy as np")) err("wrong import");
        continue;
      }
      if (python_like && l.substr(0, 4) == "def ") {
        inside = true;
        vars.clear();
        sections.push_back(l.substr(4, l.size() - 7));
        if (l.substr(l.size() - 3) != "():") err("definition of a function");
        continue;
      }
      if (lang == Lang::text && l.substr(0, 8) == "section ") {
        auto k = l.find('(');
        sections.push_back(l.substr(8, k - 8));
        if (k == std::string::npos || l.back() != ')') err("section");
        inside = true;
        vars.clear();
        // arguments are declared
        std::set<std::string> keep;
        for (auto& x : declared)
          if (x.substr(0, 8) == "Declare ") keep.insert(x);
        declared = keep;
        t = l.substr(k + 1, l.size() - k - 2), p = 0;
        bool first = true;
        while (ws(), !eof()) {
          if (!first) need(",");
          first = false;
          if (!eat("variable ")) need("tensor ");
          declare(text_name());
        }
        continue;
      }
      if (lang == Lang::text && l == "end section") {
        if (!inside) err("no section");
        inside = false;
        vars.clear();
        continue;
      }
      if (inside) {
        if (l.substr(0, indent.size()) != indent) {
          if (!python_like) err("indentation");
          inside = false;
        } else
          l = l.substr(indent.size());
      }
      if (l[0] == ' ') err("indentation");
      if (lang == Lang::numpy || lang == Lang::torch) python(l);
      else if (is_julia(lang)) julia(l);
      else text(l);
      if (!is_julia(lang) || l.substr(0, 7) != "return ") {
      } else
        vars.clear();
    }
  }
};

template <class Gen>
struct Make {
  Gen operator()() const { return {}; }
};
template <class Gen>
struct Make<GenerationOptimizer<Gen>> {
  auto operator()() const { return GenerationOptimizer<Gen>(Gen{}); }
};
template <class Gen, class Ctx>
void program(Case& c, Lang lang) {
  auto& s = c.s;
  auto w = world(s, lang == Lang::itf ? 1 : lang == Lang::tensorkit ? 2 : 0);
  // tags and extents of all spaces
  Ctx ctx;
  coulomb.clear();
  needs_bra = lang == Lang::tensorkit;
  struct Reset { ~Reset() { coulomb.clear(), needs_bra = false; } } reset;
  if constexpr (std::is_base_of_v<ItfContext, Ctx>) {
    coulomb = s.coin() ? L"g220" : L"g";
    ctx.set_two_electron_integral_label(coulomb);
    if (s.coin()) ctx.set_index_id_offset(1);
  }
  std::map<IndexSpace, std::string> tags;
  if constexpr (std::is_base_of_v<ReorderingContext, Ctx>) {
    if (s.chance(1, 3)) ctx.enable_rewriting(false);
  }
  Interp in;
  in.lang = lang;
  int k = 0;
  for (auto& sp : *get_default_context().index_space_registry()->spaces()) {
    if (!sp) continue;
    const std::string tag(1, k < 26 ? (char)('a' + k) : (char)('A' + k - 26));
    ++k;
    tags[sp] = tag;
    const auto n = w.model.orbitals(sp).size();
    if constexpr (std::is_base_of_v<PythonEinsumGeneratorContext, Ctx>) ctx.set_tag(sp, tag), ctx.set_shape(sp, std::to_string(n));
    if constexpr (std::is_base_of_v<JuliaTensorOperationsGeneratorContext, Ctx>) ctx.set_tag(sp, tag), ctx.set_dim(sp, std::to_string(n));
    if constexpr (std::is_base_of_v<ItfContext, Ctx>) {
      ctx.set_tag(sp, tag), ctx.set_name(sp, "Space" + tag);
      in.itf_tags[tag] = "Space" + tag;
      in.extent["tag " + tag] = n;
    }
    in.extent[pbt::to_utf8(std::wstring(sp.base_key()))] = n;
  }
  Memory mem;
  auto su = setup(c, ctx, w, mem);
  auto& ps = su.ps;
  auto name_of = [&](const Tensor& t) {
    std::string r = pbt::to_utf8(std::wstring(t.label()));
    if (lang == Lang::text) {
      r += "[";
      for (auto& i : ids_of(t)) r += Interp::space_of(pbt::to_utf8(std::wstring(i.label()))) + ",";
      return r;
    }
    if (lang != Lang::itf) r += "_";
    else if (ids_of(t).size()) r += ":";
    for (auto& i : ids_of(t)) r += tags.at(i.space());
    return r;
  };
  // things that cannot be written in a language
  {
    std::map<std::string, Index> reps;
    std::map<std::string, Ids> blocks;
    for (auto& tree : su.trees) {
      if (lang == Lang::itensor) blocks.clear();
      auto look = [&](const auto& n) {
        if (lang == Lang::itf && n->expr()->template is<Variable>() && n->expr()->template as<Variable>().conjugated()) throw pbt::Discard{};
        if (!n->is_tensor()) return;
        if constexpr (std::is_base_of_v<ItfContext, Ctx>)
          for (auto& i : ids_of(n->as_tensor())) {
            // letters of different spaces meet sooner or later
            auto [it, fresh] = reps.emplace(ctx.index_name(i.space(), i.ordinal().value()), i);
            if (!fresh && it->second != i) throw pbt::Discard{};
          }
        if (lang == Lang::itensor) {
          // arrays have their indices, hence one tensor cannot be used with others
          Tensor q = n->as_tensor();
          ctx.rewrite(q);
          auto [it, fresh] = blocks.emplace(name_of(q), ids_of(q));
          if (!fresh && it->second != ids_of(q)) throw pbt::Discard{};
        }
      };
      tree.visit([&](const auto& n) { look(n); return true; });
    }
  }
  auto dims_of = [&](const Tensor& t) {
    std::vector<std::size_t> d;
    for (auto& i : ids_of(t)) d.push_back(mem.m.orbitals(i.space()).size());
    return d;
  };
  for (auto& t : su.tensors) {
    Tensor q = t;
    ctx.rewrite(q);
    in.files[name_of(q)] = {dims_of(q), elements(t, mem.m, ids_of(q))};
  }
  bool conjugated = false;
  for (auto& v : su.variables) {
    conjugated |= v.conjugated();
    num::EvalOptions eo;
    eo.externals = num::IndexSet{};
    Variable plain{std::wstring(v.label())};
    in.files[pbt::to_utf8(std::wstring(v.label()))] = {{}, {num::eval(plain.clone(), mem.m, eo)}};
  }
  if (conjugated) c.tag("conjugated variable");
  Gen gen = Make<Gen>()();
  std::vector<std::vector<std::size_t>> groups = is_julia(lang) ? std::vector<std::vector<std::size_t>>{{}} : grouping(s, ps.size(), false);
  if (is_julia(lang))
    for (std::size_t q = 0; q < ps.size(); ++q) groups[0].push_back(q);
  const bool named = is_julia(lang) ? false : groups.size() > 1 || s.coin();
  std::vector<ExpressionGroup<>> gs;
  std::vector<std::string> names;
  std::vector<Ids> root_ids;
  std::vector<std::string> root_names;
  for (auto& t : su.trees) {
    Ids ids;
    std::string n;
    if (t->is_tensor()) {
      Tensor q = t->as_tensor();
      ctx.rewrite(q);
      ids = ids_of(q), n = name_of(q);
    } else
      n = pbt::to_utf8(std::wstring(t->as_variable().label()));
    // there is nothing to compute for an expression that is a leaf
    if (t.leaf()) throw pbt::Discard{};
    root_ids.push_back(ids), root_names.push_back(n);
  }
  for (auto& g : groups) {
    std::optional<std::string> name;
    if (named) name = "section" + std::to_string(gs.size()), names.push_back(*name);
    ExpressionGroup<> eg(name);
    for (auto t : g) eg.add(su.trees[t]);
    gs.push_back(std::move(eg));
  }
  std::vector<std::vector<std::string>> batches;
  if constexpr (std::is_base_of_v<ItfContext, Ctx>) {
    // loops over some of the indices that stay; and names to import things by
    if (s.chance(1, 3)) {
      for (auto& g : groups)
        for (auto t : g) {
          Ids ix;
          if (s.chance(3, 4)) {
            if (batches.size() && s.coin() && t) ix = ctx.batch_indices(su.trees[t - 1]->id());
            for (auto& i : ps[t].ext)
              if (s.chance(1, 3) && std::find(ix.begin(), ix.end(), i) == ix.end()) ix.push_back(i);
            for (auto i = ix.begin(); i != ix.end();) i = ps[t].ext.count(*i) ? i + 1 : ix.erase(i);
          }
          ctx.set_batch_indices(ix, su.trees[t]->id());
          batches.emplace_back();
          for (auto& i : ctx.batch_indices(su.trees[t]->id())) batches.back().push_back(gen.represent(i, ctx));
        }
    }
  }
  try {
    export_groups(gs, gen, ctx);
  } catch (const Exception& x) {
    const std::string what = x.what();
    if (what.find("ITF only supports Power") != what.npos || what.find("zero-dimensional domain") != what.npos) throw pbt::Discard{};
    throw;
  }
  auto code = gen.get_generated_code();
  c.note(code);
  in.run(code);
  c.require(in.results == root_names, "other results are persisted");
  if (lang == Lang::itf && !named) names = {"unnamed"};
  if (named || lang == Lang::itf) c.require(in.sections == names, "other sections than the groups");
  if (batches.size()) {
    c.tag("loops");
    c.require(in.itf_batches == batches, "other loops than the indices to loop over");
  }
  if (lang == Lang::itf) {
    std::set<std::string> outside(root_names.begin(), root_names.end());
    for (auto& [n, v] : in.files) outside.insert(n);
    // a result without a name has the one of intermediates
    for (auto& [n, v] : in.itf_tensors) if (n[0] != 'Z' && n[0] != 'I') c.require((v.import[0] == '!') == !outside.count(n), n + " is declared as " + v.import);
  }
  std::map<std::string, std::size_t> last;
  for (std::size_t t = 0; t < ps.size(); ++t) last[root_names[t]] = t;
  for (auto& [n, t] : last) {
    num::EvalOptions no;
    no.externals = ps[t].ext;
    no.max_work = 1e6;
    auto want = num::eval(spelled_out(ps[t].e), mem.m, no);
    auto got = folded(in.files.at(n).second, root_ids[t], mem.m, ps[t].ext);
    if (!(want == got)) c.fail("value of result " + std::to_string(t) + " is " + got.str() + " instead of " + want.str());
  }
  c.nontrivial = std::count(code.begin(), code.end(), '+') > 1;
}
template <class Gen, class Ctx, Lang lang>
void program_body(Case& c) {
  try {
    program<Gen, Ctx>(c, lang);
  } catch (const num::Undefined&) {
    throw pbt::Discard{};
  }
}
template <class Gen, class Ctx, Lang lang>
void optimized(Case& c) {
  program_body<GenerationOptimizer<Gen>, Ctx, lang>(c);
}
void optimizer_body(Case& c) {
  switch (c.s.below(4)) {
    case 0: return optimized<ItfGenerator<>, ItfContext, Lang::itf>(c);
    case 1: return optimized<TextGenerator<>, TextGeneratorContext, Lang::text>(c);
    case 2: return optimized<NumPyEinsumGenerator, NumPyEinsumGeneratorContext, Lang::numpy>(c);
    default: return optimized<JuliaTensorOperationsGenerator<>, JuliaTensorOperationsGeneratorContext, Lang::julia>(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C18";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"machine", "more than one computation", vm_body, 20000, 300000},
      {"reorder", "more than one computation", vm_reorder, 20000, 300000},
      {"numpy", "interpreted programs; non-trivial: more than one computation", program_body<NumPyEinsumGenerator, NumPyEinsumGeneratorContext, Lang::numpy>, 15000, 200000},
      {"torch", "interpreted programs; non-trivial: more than one computation", program_body<PyTorchEinsumGenerator, PyTorchEinsumGeneratorContext, Lang::torch>, 15000, 200000},
      {"julia", "interpreted programs; non-trivial: more than one computation", program_body<JuliaTensorOperationsGenerator<>, JuliaTensorOperationsGeneratorContext, Lang::julia>, 15000, 200000},
      {"tensorkit", "interpreted programs; non-trivial: more than one computation", program_body<JuliaTensorKitGenerator<>, JuliaTensorKitGeneratorContext, Lang::tensorkit>, 15000, 200000},
      {"itensor", "interpreted programs; non-trivial: more than one computation", program_body<JuliaITensorGenerator<>, JuliaITensorGeneratorContext, Lang::itensor>, 15000, 200000},
      {"itf", "interpreted programs; non-trivial: more than one computation", program_body<ItfGenerator<>, ItfContext, Lang::itf>, 25000, 300000},
      {"optimizer", "interpreted programs; non-trivial: more than one computation", optimizer_body, 20000, 300000},
      {"text", "interpreted programs; non-trivial: more than one computation", program_body<TextGenerator<>, TextGeneratorContext, Lang::text>, 15000, 200000},
  };
  return pbt::run(p, argc, argv);
}
