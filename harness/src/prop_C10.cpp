// C10: rewriting of integrals. Density fitting, tensor hypercontraction and the
// transformation from cluster-specific virtuals must give expressions whose value
// is that of the original with the tensors replaced by their definitions.
#include "gen.hpp"
#include "rewrite.hpp"

#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/rules/csv.hpp>
#include <SeQuant/domain/mbpt/rules/df.hpp>
#include <SeQuant/domain/mbpt/rules/thc.hpp>

#include <algorithm>

namespace {
using namespace sequant;
namespace mb = sequant::mbpt;
using Fp = num::F;
using gen::World;
using pbt::Case;
using pbt::Src;
using Model = num::Model;
using Keys = std::vector<std::uint64_t>;

std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull;
  return a ^ (a >> 33);
}
/// real function of labelled orbitals
Fp value_of(const Model& m, std::uint64_t what, std::initializer_list<std::uint64_t> keys) {
  std::uint64_t h = what;
  for (auto k : keys) h = mix(h, k);
  return m.random(h, true);
}
Keys keys(const Model& m, const IndexSpace& s) {
  Keys r;
  for (auto o : m.orbitals(s)) r.push_back(1 + (std::uint64_t)o);
  return r;
}
template <class F> void for_tensors(const ExprPtr& e, const F& f) {
  if (e->is<Tensor>()) f(e->as<Tensor>());
  if (e->is<Product>()) for (auto& x : e->as<Product>().factors()) for_tensors(x, f);
  if (e->is<Sum>()) for (auto& x : e->as<Sum>().summands()) for_tensors(x, f);
}
template <class F> ExprPtr map_tensors(const ExprPtr& e, const F& f) {
  if (e->is<Tensor>()) return f(e->as<Tensor>());
  if (e->is<Product>()) {
    auto r = std::make_shared<Product>();
    r->scale(e->as<Product>().scalar());
    for (auto& x : e->as<Product>().factors()) r->append(1, map_tensors(x, f), Product::Flatten::No);
    return r;
  }
  if (e->is<Sum>()) {
    container::svector<ExprPtr> v;
    for (auto& x : e->as<Sum>().summands()) v.push_back(map_tensors(x, f));
    return ex<Sum>(v.begin(), v.end());
  }
  return e->clone();
}

struct Gen {
  World w;
  gen::AttrMap attrs;
  ExprPtr e;
  num::IndexSet ext;
};
Gen make(Src& s, bool protos, bool special, std::vector<std::wstring> labels, bool rank2_only_antisymm) {
  Gen g;
  gen::WorldOptions wo;
  wo.kinds = protos ? std::vector<int>{0, 1, 4} : std::vector<int>{0, 1, 2, 3, 4};
  g.w = gen::make_world(s, wo);
  if (rank2_only_antisymm) {
    auto a = gen::random_attr(s);
    if (a.s == Symmetry::Symm) a.s = Symmetry::Antisymm;
    a.c = a.s == Symmetry::Antisymm ? ColumnSymmetry::Symm : a.c;
    for (auto& l : labels) if (l == L"g" || l == L"h") g.attrs[l] = a;
  }
  gen::ExprOptions o;
  o.max_terms = 3;
  o.depth = s.chance(1, 4) ? 1 : 0;
  o.net.max_tensors = 3;
  o.net.max_dummies = 4;
  o.net.protos = protos;
  o.net.special = special;
  if (special && s.coin()) o.net.min_tensors = 2;
  o.net.variables = true;
  o.net.labels = labels;
  o.net.max_volume = 3e4;
  auto ext = gen::random_ext(s, g.w, 2, true);
  g.e = gen::random_expr(s, g.w, g.attrs, ext, o);
  if (s.chance(1, 6)) {  // a lone tensor
    std::vector<ExprPtr> v;
    for_tensors(g.e, [&](const Tensor& t) { v.push_back(t.clone()); });
    if (!v.empty()) g.e = s.pick(v);
  }
  g.ext = num::open_indices(g.e);
  return g;
}
Fp value(const ExprPtr& e, const Model& m, const num::IndexSet& ext, double work = 6e5) {
  num::EvalOptions o;
  o.externals = ext;
  o.max_work = work;
  return num::eval(e, m, o);
}
void check(Case& c, const ExprPtr& r, const Model& m, const num::IndexSet& ext, Fp v, const std::string& what) {
  c.require(bool(r), what + ": null");
  c.require(value(r, m, ext) == v, what + ": wrong value of " + num::show(r));
  // the symmetries claimed by its tensors
  auto s = expand(r->clone());
  simplify(s);
  c.require(value(s, m, ext) == v, what + ": simplified to " + num::show(s));
}

// --- density fitting -----------------------------------------------------------
bool is_g(const AbstractTensor& t, const Keys& b, const Keys& k, const Keys& a, const std::wstring& label) {
  return t._label() == label && b.size() == 2 && k.size() == 2 && a.empty() && b[0] && b[1] && k[0] && k[1];
}
void f_df(Case& c) {
  auto& s = c.s;
  auto g = make(s, false, false, {L"g", L"g", L"h", L"t", L"B"}, true);
  // null slots are not generated
  const auto aux = g.w.isr->retrieve(s.chance(4, 5) ? L"Κ" : L"z");
  const std::wstring factor = s.coin() ? L"B" : L"DF";
  c.note(g.w.name);
  c.note(num::show(g.e));
  Model m = g.w.model;
  m.tensor_override = [&, base = g.w.model](const Model&, const AbstractTensor& t, const Keys& b, const Keys& k, const Keys& a) -> std::optional<Fp> {
    const std::wstring label(t._label());
    auto B = [&](std::uint64_t p, std::uint64_t q, std::uint64_t x) { return value_of(base, 77, {std::min(p, q), std::max(p, q), x}); };
    if (label == factor && b.size() == 1 && k.size() == 1 && a.size() == 1) return B(b[0], k[0], a[0]);
    for (const wchar_t* l : {L"g", L"h"})
      if (is_g(t, b, k, a, l)) {
        Fp r;
        for (auto x : keys(base, aux)) {
          r += B(b[0], k[0], x) * B(b[1], k[1], x);
          if (t._symmetry() == Symmetry::Antisymm) r = r - B(b[1], k[0], x) * B(b[0], k[1], x);
        }
        return r;
      }
    return std::nullopt;
  };
  int ng = 0, nh = 0;
  for_tensors(g.e, [&](const Tensor& t) {
    const bool four = t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0;
    if (four) ng += t.label() == L"g", nh += t.label() == L"h";
  });
  c.nontrivial = ng > 0 && (g.e->is<Sum>() || g.e->is<Product>());
  if (ng + nh > 3) throw pbt::Discard{};
  const Fp v = value(g.e, m, g.ext);
  auto in = g.e->clone();
  auto r = mb::density_fit(in, aux, L"g", factor);
  c.require(*in == *g.e, "density_fit changes its argument");
  auto left = [&](const ExprPtr& x, const std::wstring& l) {
    for_tensors(x, [&](const Tensor& t) { c.require(!(t.label() == l && t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0), "tensor not fitted in " + num::show(x)); });
  };
  left(r, L"g");
  if (ng == 0) c.require(*r == *g.e, "expression without the tensor changed");
  check(c, r, m, g.ext, v, "density_fit");
  if (nh > 0 && s.coin()) {
    c.tag("second label");
    r = mb::density_fit(r, aux, L"h", factor);
    left(r, L"h");
    check(c, r, m, g.ext, v, "density_fit of another label");
  }
}

// --- hypercontraction -----------------------------------------------------------
void f_thc(Case& c) {
  auto& s = c.s;
  auto g = make(s, false, false, {L"g", L"g", L"h", L"t"}, true);
  mb::add_thc_spaces(g.w.isr);
  const auto aux = g.w.isr->retrieve(L"L");
  c.note(g.w.name);
  c.note(num::show(g.e));
  Model m = g.w.model;
  m.extent[{32, 0}] = 1 + (int)s.below(2);
  const auto rs = keys(m, aux);
  m.tensor_override = [&, base = m](const Model&, const AbstractTensor& t, const Keys& b, const Keys& k, const Keys& a) -> std::optional<Fp> {
    const std::wstring label(t._label());
    auto B = [&](std::uint64_t p, std::uint64_t r) { return value_of(base, 78, {p, r}); };
    const bool plain = g.attrs[L"g"].c == ColumnSymmetry::Nonsymm;
    auto C = [&](std::uint64_t p, std::uint64_t r) { return plain ? value_of(base, 79, {p, r}) : value_of(base, 79, {std::min(p, r), std::max(p, r)}); };
    if (label == L"B" && b.size() + k.size() == 1 && a.size() == 1) return B(b.empty() ? k[0] : b[0], a[0]);
    if (label == L"C" && b.empty() && k.empty() && a.size() == 2) return C(a[0], a[1]);
    for (const wchar_t* l : {L"g", L"h"})
      if (is_g(t, b, k, a, l)) {
        Fp r;
        for (auto x : rs)
          for (auto y : rs) {
            r += B(b[0], x) * B(k[0], x) * B(b[1], y) * B(k[1], y) * C(x, y);
            if (t._symmetry() == Symmetry::Antisymm) r = r - B(b[1], x) * B(k[0], x) * B(b[0], y) * B(k[1], y) * C(x, y);
          }
        return r;
      }
    return std::nullopt;
  };
  int ng = 0, nh = 0, other = 0;
  for_tensors(g.e, [&](const Tensor& t) {
    const bool four = t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0;
    ng += four && t.label() == L"g", nh += four && t.label() == L"h";
    other += !four && t.label() == L"g";
  });
  if (ng + nh > 2) throw pbt::Discard{};
  c.nontrivial = ng > 0 && !g.e->is<Tensor>();
  if (other) c.tag("other tensors of the label");
  const Fp v = value(g.e, m, g.ext);
  auto in = g.e->clone();
  auto r = mb::tensor_hypercontract(in, aux, L"g", L"B", L"C");
  c.require(*in == *g.e, "tensor_hypercontract changes its argument");
  auto left = [&](const ExprPtr& x, const std::wstring& l) {
    for_tensors(x, [&](const Tensor& t) { c.require(!(t.label() == l && t.bra_rank() == 2 && t.ket_rank() == 2 && t.aux_rank() == 0), "tensor not factorized in " + num::show(x)); });
  };
  left(r, L"g");
  if (ng == 0) c.require(*r == *g.e, "expression without the tensor changed");
  auto again = [&](const ExprPtr& x, const std::string& what) {
    c.require(bool(x), what + ": null");
    c.require(value(x, m, g.ext) == v, what + ": wrong value of " + num::show(x));
  };
  again(r, "tensor_hypercontract");
  if (nh > 0 && s.coin()) {
    c.tag("second label");
    r = mb::tensor_hypercontract(r, aux, L"h", L"B", L"C");
    left(r, L"h");
    again(r, "tensor_hypercontract of another label");
  }
}

// --- cluster-specific virtuals ----------------------------------------------------
/// products of overlaps and amplitudes
Gen chain(Src& s) {
  Gen g;
  g.w = gen::make_world(s, {.kinds = {0, 1}, .max_extent = 2});
  const auto i = g.w.isr->retrieve(L"i"), a = g.w.isr->retrieve(L"a");
  const Index i1(i, 1), i2(i, 2);
  std::vector<Index> pool;
  for (int n = 1; n <= 3; ++n) {
    pool.push_back(Index(a, n));
    pool.push_back(Index(a, n, {i1}));
    pool.push_back(Index(a, n, {i2}));
    if (s.chance(1, 3)) pool.push_back(Index(a, n, {i1, i2}));
  }
  auto deal = [&] {
    auto p = pool;
    s.shuffle(p);
    const int ns = 1 + (int)s.below(3), extra = (int)s.below(3);
    std::vector<ExprPtr> f;
    std::vector<std::vector<Index>> b(2), k(2);
    for (int n = 0; n < ns; ++n) {
      f.push_back(ex<Tensor>(reserved::overlap_label(), bra{p[2 * n]}, ket{p[2 * n + 1]}, aux{}, Symmetry::Nonsymm));
      k[s.below(2)].push_back(p[2 * n]);
      b[s.below(2)].push_back(p[2 * n + 1]);
    }
    for (int n = 2 * ns; n < 2 * ns + extra && n < (int)p.size(); ++n) {
      const int t = (int)s.below(2);
      b[t].push_back(p[n]);
      k[1 - t].push_back(p[n]);
    }
    for (int t = 0; t < 2; ++t)
      if (b[t].size() + k[t].size()) f.push_back(ex<Tensor>(s.coin() ? L"t" : L"f", bra(b[t]), ket(k[t]), aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
    f.push_back(ex<Tensor>(L"u", bra{i1}, ket{i2}, aux{}));
    s.shuffle(f);
    auto r = std::make_shared<Product>();
    for (auto& x : f) r->append(1, x, Product::Flatten::No);
    return ExprPtr(r);
  };
  if (s.chance(1, 8)) {  // only auxiliary indices are dependent
    auto term = [&](const wchar_t* l) { return ex<Tensor>(l, bra{i1}, ket{i2}, aux{Index(g.w.isr->retrieve(L"Κ"), 1, {i1})}); };
    g.e = term(L"f");
    if (s.coin()) g.e = g.e + term(L"t");
    g.ext = num::open_indices(g.e);
    return g;
  }
  g.e = deal();
  if (s.coin()) g.e = g.e + deal();
  g.ext = num::open_indices(g.e);
  return g;
}
void f_csv(Case& c) {
  auto& s = c.s;
  auto g = s.chance(1, 3) ? chain(s) : make(s, true, true, {L"f", L"g", L"f", L"g", L"t", L"B"}, false);
  if (s.coin()) mb::add_pao_spaces(g.w.isr);
  else if (g.w.name.substr(0, 3) != "f12") mb::add_ao_spaces(g.w.isr);
  Model m = g.w.model;
  for (int b = 0; b < 8; ++b) m.extent[{8, b}] = m.extent[{4, b}] = 1;
  m.orthonormal = false;
  const std::wstring S(reserved::overlap_label());
  container::svector<std::wstring> labels;
  const bool defaults = s.chance(1, 3);
  for (auto& l : {std::wstring(L"f"), std::wstring(L"g"), S}) if (defaults || s.chance(3, 4)) labels.push_back(l);
  if (!defaults && s.coin()) labels.push_back(L"B");
  auto listed = [&](std::wstring_view l) { return std::find(labels.begin(), labels.end(), l) != labels.end(); };
  auto dependent = [](const Tensor& t) { return std::ranges::any_of(t.const_braket_indices(), [](const Index& i) { return i.nonnull() && i.has_proto_indices(); }); };
  // a basis that overlaps, if any, allow
  std::vector<IndexSpace> bases;
  for (const wchar_t* k : {L"μ̃", L"μ", L"a", L"p"}) if (g.w.isr->contains(k)) bases.push_back(g.w.isr->retrieve(k));
  bool overlaps = false, dep = false;
  // dependent indices may have the ordinals of plain ones
  if (s.coin()) {
    std::vector<Index> all;
    gen::IndexMap mp;
    std::map<Index, int, Index::FullLabelCompare> used;
    for_tensors(g.e, [&](const Tensor& t) { for (auto& i : t.indices()) if (i.nonnull()) ++used[i]; });
    for (auto& [i, n] : used) all.push_back(i);
    for (auto& i : all)
      if (i.has_proto_indices() && s.coin()) {
        const Index j(i.space(), s.pick(all).ordinal(), i.proto_indices(), i.symmetric_proto_indices());
        if (!used.count(j)) mp[i] = j, used[j] = 1;
      }
    if (!mp.empty()) {
      c.tag("equal ordinals");
      g.e = gen::map_expr(g.e, mp);
      g.ext = num::open_indices(g.e);
    }
  }
  for_tensors(g.e, [&](const Tensor& t) {
    dep |= listed(t.label()) && dependent(t);
    int n = 0;
    for (auto& i : t.const_braket_indices()) n += i.nonnull() && i.has_proto_indices();
    if (n > 4) throw pbt::Discard{};
    if (t.label() == S && dependent(t) && listed(S)) {
      overlaps = true;
      std::erase_if(bases, [&](auto& b) {
        const auto q = b.qns().to_int32();
        return !(q & 12) && (t.bra()[0].space() != b || t.ket()[0].space() != b);
      });
    }
  });
  if (bases.empty()) throw pbt::Discard{};
  const auto basis = s.pick(bases);
  const bool ao = basis.qns().to_int32() & 12;
  const std::wstring coeff = s.coin() ? L"C" : L"X";
  c.note(g.w.name + "; basis " + gen::u8(std::wstring(basis.base_key())));
  for (auto& l : labels) c.note(gen::u8(l));
  c.note(num::show(g.e));
  c.nontrivial = dep;
  if (overlaps) c.tag(ao ? "overlap in AOs" : "overlap");
  const auto xs = keys(m, basis);
  const Model base = m;
  m.tensor_override = [&, base](const Model&, const AbstractTensor& t, const Keys& b, const Keys& k, const Keys& a) -> std::optional<Fp> {
    const std::wstring label(t._label());
    auto C = [&](std::uint64_t p, std::uint64_t x) { return value_of(base, 80, {std::min(p, x), std::max(p, x)}); };
    if (label == coeff) return C(b.at(0), k.at(0));
    if (!listed(label)) return std::nullopt;
    Keys all = b;
    all.insert(all.end(), k.begin(), k.end());
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < all.size(); ++i) if (all[i] >> 33) at.push_back(i);
    if (at.empty()) return std::nullopt;
    // s{p;q} of an orthonormal basis is a delta
    if (label == S && !ao) {
      if (at.size() == 1) return C(b[0], k[0]);
      Fp r;
      for (auto x : xs) r += C(b[0], x) * C(k[0], x);
      return r;
    }
    Fp r;
    auto loop = [&](std::size_t n, Fp f, Keys v, auto& self) -> void {
      if (n == at.size()) {
        r += f * base.tensor(t, label, t._symmetry(), t._braket_symmetry(), t._column_symmetry(), Keys(v.begin(), v.begin() + b.size()), Keys(v.begin() + b.size(), v.end()), a);
        return;
      }
      for (auto x : xs) {
        auto u = v;
        u[at[n]] = x;
        self(n + 1, f * C(v[at[n]], x), u, self);
      }
    };
    loop(0, Fp(1, 0), all, loop);
    return r;
  };
  const Fp v = value(g.e, m, g.ext);
  auto in = g.e->clone();
  auto r = defaults ? mb::csv_transform(in, basis, coeff) : mb::csv_transform(in, basis, coeff, labels);
  c.require(bool(r), "null");
  c.require(*in == *g.e, "csv_transform changes its argument");
  for_tensors(r, [&](const Tensor& t) { c.require(!(listed(t.label()) && dependent(t)), "dependent index left in " + num::show(r)); });
  if (!dep) c.require(*r == *g.e || num::show(r) == num::show(g.e), "expression without such tensors changed");
  Fp u;
  try {
    u = value(r, m, g.ext, 3e6);
  } catch (num::Undefined& e) {
    if (std::string(e.what()) == "too much work") throw pbt::Discard{};
    throw;
  }
  c.require(u == v, "wrong value of " + num::show(r));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C10";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  p.facets = {
      {"df", "random sums of products (some nested) of tensors, up to three to be fitted; non-trivial: some in a sum or product", f_df, 12000, 300000},
      {"thc", "as above, up to two to be factorized; non-trivial: some in a sum or product", f_thc, 12000, 300000},
      {"csv", "networks with dependent indices and overlaps; non-trivial: a dependent index in a tensor to be transformed", f_csv, 12000, 300000},
  };
  return pbt::run(p, argc, argv);
}
