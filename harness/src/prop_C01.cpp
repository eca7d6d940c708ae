// Expression algebra: histories of API operations over a pool of expressions,
// each shadowed by its value (2x2 matrices over GF(p^2)).
#include <SeQuant/core/expressions/power.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <array>

#include "gen.hpp"
using namespace sequant;
using num::F;

namespace {
struct Mat {
  std::array<F, 4> v{};
  static Mat scalar(F s) { Mat r; r.v[0] = r.v[3] = s; return r; }
  bool operator==(const Mat&) const = default;
  Mat operator+(const Mat& o) const { Mat r; for (int k = 0; k < 4; ++k) r.v[k] = v[k] + o.v[k]; return r; }
  Mat operator-() const { Mat r; for (int k = 0; k < 4; ++k) r.v[k] = -v[k]; return r; }
  Mat operator-(const Mat& o) const { return *this + (-o); }
  Mat operator*(const Mat& o) const {
    Mat r;
    for (int i = 0; i < 2; ++i)
      for (int j = 0; j < 2; ++j) r.v[2 * i + j] = v[2 * i] * o.v[j] + v[2 * i + 1] * o.v[2 + j];
    return r;
  }
  Mat dagger() const { Mat r; r.v = {v[0].conj(), v[2].conj(), v[1].conj(), v[3].conj()}; return r; }
  std::string str() const { return "[" + v[0].str() + " " + v[1].str() + ";" + v[2].str() + " " + v[3].str() + "]"; }
};

// user-defined noncommuting atom
class Op : public Expr, public MutatableLabeled {
 public:
  Op(std::wstring l, bool d = false) : l_(std::move(l)), d_(d) {}
  std::wstring_view label() const override { return l_; }
  void set_label(std::wstring l) override { l_ = std::move(l); reset_hash_value(); }
  bool dagger() const { return d_; }
  std::wstring to_latex() const override { return L"{" + l_ + (d_ ? L"^+" : L"") + L"}"; }
  ExprPtr clone() const override { return ex<Op>(l_, d_); }
  void adjoint() override { d_ = !d_; reset_hash_value(); }
  bool is_cnumber() const override { return false; }
  type_id_type type_id() const override { return get_type_id<Op>(); }

 private:
  std::wstring l_;
  bool d_;
  hash_type memoizing_hash() const override {
    if (!hash_value_) {
      auto v = hash::value(l_);
      hash::combine(v, d_);
      hash_value_ = v;
    }
    return *hash_value_;
  }
  bool static_equal(const Expr& o) const override { auto& x = static_cast<const Op&>(o); return l_ == x.l_ && d_ == x.d_; }
  bool commutes_with_atom(const Expr& o) const override { return !o.is<Op>() || *this == o; }
};

F root(const std::wstring& l) {
  const auto h = num::mix(num::hash(l) ^ 0x1234);
  return F((std::uint32_t)(h % num::P), (std::uint32_t)((h >> 32) % num::P));
}
F root(const num::Model& m, const Constant& c) {
  // only non-negative reals
  const auto v = c.value();
  auto isq = [](const auto& n) -> std::optional<long long> {
    long long x = n.template convert_to<long long>(), r = 0;
    while (r * r < x) ++r;
    return r * r == x ? std::optional<long long>(r) : std::nullopt;
  };
  auto p = isq(numerator(v.real())), q = isq(denominator(v.real()));
  if (p && q) return F::of(*p) * F::of(*q).inv();
  const F x = m.constant(c);
  F r = x.pow((num::P + 1) / 4);
  if (r * r == x) return r;
  return F(0, 1) * (-x).pow((num::P + 1) / 4);
}

const num::Model& model() { static num::Model m; return m; }

Mat value(const Expr& e) {
  if (e.is<Constant>()) return Mat::scalar(model().constant(e.as<Constant>()));
  if (e.is<Variable>()) {
    F r = root(std::wstring(e.as<Variable>().label()));
    r = r * r;
    return Mat::scalar(e.as<Variable>().conjugated() ? r.conj() : r);
  }
  if (e.is<Power>()) {
    auto& p = e.as<Power>();
    const bool half = denominator(p.exponent()) == 2;
    F b;
    if (p.base()->is<Variable>()) {
      auto& v = p.base()->as<Variable>();
      b = root(std::wstring(v.label()));
      if (!half) b = b * b;
      if (v.conjugated()) b = b.conj();
    } else
      b = half ? root(model(), p.base()->as<Constant>()) : model().constant(p.base()->as<Constant>());
    long long n = numerator(p.exponent()).convert_to<long long>();
    F r = n < 0 ? b.inv().pow(-n) : b.pow(n);
    return Mat::scalar(p.conjugated() ? r.conj() : r);
  }
  if (e.is<Op>()) {
    Mat m;
    for (int k = 0; k < 4; ++k) {
      const auto h = num::mix(num::hash(e.as<Op>().label()) * 4 + k);
      m.v[k] = F((std::uint32_t)(h % num::P), (std::uint32_t)((h >> 32) % num::P));
    }
    return e.as<Op>().dagger() ? m.dagger() : m;
  }
  if (e.is<Tensor>()) {
    F f = num::eval(e.clone(), model());
    return Mat::scalar(f);
  }
  if (e.is<Sum>()) {
    Mat r;
    for (auto& x : e.as<Sum>().summands()) r = r + value(*x);
    return r;
  }
  if (dynamic_cast<const Product*>(&e)) {
    auto& p = static_cast<const Product&>(e);
    Mat r = Mat::scalar(model().constant(Constant(p.scalar())));
    for (auto& x : p.factors()) r = r * value(*x);
    return r;
  }
  throw std::logic_error("unknown expression");
}

std::string text(const Expr& e) {
  if (e.is<Constant>()) return pbt::to_utf8(e.to_latex());
  if (e.is<Sum>()) {
    std::string r;
    for (auto& x : e.as<Sum>().summands()) r += (r.empty() ? "" : " + ") + text(*x);
    return "(" + r + ")";
  }
  if (auto p = dynamic_cast<const Product*>(&e)) {
    std::string r = pbt::to_utf8(Constant(p->scalar()).to_latex());
    for (auto& x : p->factors()) r += " " + text(*x);
    return (dynamic_cast<const NCProduct*>(p) ? "NC[" : dynamic_cast<const CProduct*>(p) ? "C[" : "[") + r + "]";
  }
  if (e.is<Power>())
    return text(*e.as<Power>().base()) + "**" + e.as<Power>().exponent().str() + (e.as<Power>().conjugated() ? "*" : "");
  if (e.is<Variable>()) return pbt::to_utf8(std::wstring(e.as<Variable>().label())) + (e.as<Variable>().conjugated() ? "*" : "");
  if (e.is<Tensor>()) return pbt::to_utf8(std::wstring(e.as<Tensor>().label())) + "{}";
  return pbt::to_utf8(e.to_latex());
}

using scalar_type = Constant::scalar_type;

ExprPtr atom(pbt::Src& s) {
  const std::vector<std::wstring> ops = {L"A", L"B", L"C"}, vars = {L"x", L"y"};
  switch (s.weighted({8, 3, 5, 2, 2})) {
    case 0: return ex<Op>(s.pick(ops), s.chance(1, 4));
    case 1: return ex<Constant>(gen::random_scalar(s, true, true));
    case 2: {
      auto v = ex<Variable>(s.pick(vars));
      if (s.chance(1, 4)) v->as<Variable>().conjugate();
      return v;
    }
    case 3: {
      ExprPtr b = s.coin() ? ex<Variable>(s.pick(vars)) : ex<Constant>(rational(s.pick({1, 4, 2, 9, 3}), s.pick({1, 4, 9, 2})));
      if (b->is<Variable>() && s.chance(1, 4)) b->as<Variable>().conjugate();
      auto p = ex<Power>(b, s.coin() ? rational(s.pick({0, 1, 2, -1, 3, -2})) : rational(s.pick({1, 3, -1, 5}), 2));
      if (s.chance(1, 4)) p->as<Power>().conjugate();
      return p;
    }
    default:
      return ex<Tensor>(s.pick({L"h", L"k"}), bra{}, ket{}, Symmetry::Nonsymm,
                        BraKetSymmetry::Symm);
  }
}

struct Item {
  ExprPtr e;
  Mat v;
};

void check_item(pbt::Case& c, const Item& it, const std::string& what) {
  const Mat v = value(*it.e);
  c.require(v == it.v, what + " is " + v.str() + ", expected " + it.v.str() + ": " + text(*it.e));
}

// no Sum inside of a Product
bool expanded(const Expr& e, bool in_product = false) {
  if (e.is<Sum>()) {
    if (in_product) return false;
    for (auto& x : e.as<Sum>().summands())
      if (!expanded(*x)) return false;
  } else if (auto p = dynamic_cast<const Product*>(&e)) {
    for (auto& x : p->factors())
      if (!expanded(*x, true)) return false;
  }
  return true;
}
std::size_t weight(const Expr& e) {
  std::size_t n = 1;
  for (auto& x : e) n += weight(*x);
  return n;
}
// number of terms expand() makes
double terms(const Expr& e) {
  if (e.is<Sum>()) {
    double r = 0;
    for (auto& x : e.as<Sum>().summands()) r += terms(*x);
    return r;
  }
  double r = 1;
  if (auto p = dynamic_cast<const Product*>(&e))
    for (auto& x : p->factors()) r *= terms(*x);
  return r;
}
ExprPtr as_product(const ExprPtr& e) {
  if (dynamic_cast<Product*>(e.get())) return e->clone();
  return ex<Product>(ExprPtrList{e});
}
ExprPtr as_sum(const ExprPtr& e) { return e->is<Sum>() ? e->clone() : ex<Sum>(ExprPtrList{e}); }

void history(pbt::Case& c) {
  std::vector<Item> pool;
  auto& s = c.s;
  auto add = [&](ExprPtr e, Mat v, const std::string& what) {
    Item it{std::move(e), v};
    c.note(what + " -> " + text(*it.e));
    check_item(c, it, what);
    pool.push_back(std::move(it));
  };
  for (int k = 0; k < 3; ++k) {
    auto a = atom(s);
    auto v = value(*a);
    add(a, v, "atom");
  }
  const int steps = s.range(1, 14);
  int compound = 0;
  for (int step = 0; step < steps; ++step) {
    const std::size_t ia = s.below(pool.size()), ib = s.below(pool.size());
    // copies of the shared pointers: operators must not alter them
    const ExprPtr a = pool[ia].e, b = pool[ib].e;
    const Mat va = pool[ia].v, vb = pool[ib].v;
    const std::string n = "#" + std::to_string(ia) + ",#" + std::to_string(ib);
    const bool small = weight(*a) + weight(*b) < 60;
    if (s.chance(1, 4)) {  // memoize hashes
      for (auto& it : pool) (void)it.e->hash_value();
      c.note("hash all");
    }
    const int kind = s.weighted({6, 6, 6, 2, 3, 3, 3, 3, 3, 3, 4, 4, 4, 3, 2, 3, 2, 2, 3, 2, 2});
    c.note("step " + std::to_string(kind) + " " + n);
    switch (kind) {
      case 0: if (small) { ++compound; add(a * b, va * vb, "mul " + n); } break;
      case 1: if (small) { ++compound; add(a + b, va + vb, "add " + n); } break;
      case 2: if (small) { ++compound; add(a - b, va - vb, "sub " + n); } break;
      case 3: if (small) { ++compound; add(a ^ b, va * vb, "ncmul " + n); } break;
      case 4: {  // in-place with pool element
        if (!small) break;
        ++compound;
        auto& x = pool[ia];
        const int k = s.range(0, 2);
        c.note(std::string(k == 0 ? "+= " : k == 1 ? "-= " : "*= ") + n);
        c.tag(ia == ib ? "self-referential" : "in place");
        if (k == 0) { x.e += b; x.v = va + vb; }
        if (k == 1) { x.e -= b; x.v = va - vb; }
        if (k == 2) { x.e *= b; x.v = va * vb; }
        check_item(c, x, "in-place result");
        break;
      }
      case 5: {  // append/prepend to a product
        if (!small) break;
        ++compound;
        auto p = as_product(a);
        const auto sc = gen::random_scalar(s, true, true);
        const auto f = s.pick({Product::Flatten::Yes, Product::Flatten::No, Product::Flatten::Once});
        const bool pre = s.coin();
        const F fs = model().constant(Constant(sc));
        auto& pr = static_cast<Product&>(*p);
        if (pre) pr.prepend(sc, b, f); else pr.append(sc, b, f);
        add(p, Mat::scalar(fs) * (pre ? vb * va : va * vb),
            std::string(pre ? "prepend " : "append ") + pbt::to_utf8(Constant(sc).to_latex()) + " " + n + " flatten " +
                (f == Product::Flatten::Yes ? "yes" : f == Product::Flatten::No ? "no" : "once"));
        break;
      }
      case 6: {
        if (!small) break;
        ++compound;
        auto p = as_sum(a);
        const bool pre = s.coin();
        if (pre) p->as<Sum>().prepend(b); else p->as<Sum>().append(b);
        add(p, va + vb, std::string("sum ") + (pre ? "prepend " : "append ") + n);
        break;
      }
      case 7: if (weight(*a) < 80) add(a->clone(), va, "clone " + n); break;
      case 8: if (weight(*a) < 80) add(adjoint(a), va.dagger(), "adjoint " + n); break;
      case 9: {
        auto& x = pool[ia];
        c.note("adjoint in place " + n);
        x.e->adjoint();
        x.v = va.dagger();
        check_item(c, x, "adjoint in place");
        break;
      }
      case 10: {
        if (terms(*a) > 200) break;
        auto x = s.chance(1, 3) ? a : a->clone();
        if (x.get() == a.get()) { pool[ia].e = nullptr; }
        expand(x);
        c.require(expanded(*x), "expand left a sum inside of a product: " + text(*x));
        if (!pool[ia].e) { pool[ia].e = x; c.note("expand in place " + n); check_item(c, pool[ia], "expand"); }
        else add(x, va, "expand " + n);
        break;
      }
      case 11: { auto x = a->clone(); flatten(x); add(x, va, "flatten " + n); break; }
      case 12: {
        if (terms(*a) > 200) break;
        auto x = a->clone();
        const int k = s.range(0, 4);
        if (s.coin()) (void)x->hash_value();
        if (k == 0) rapid_simplify(x);
        if (k == 1) non_canon_simplify(x);
        if (k == 2) simplify(x);
        if (k == 3) canonicalize(x);
        if (k == 4) { x->rapid_canonicalize(); }
        c.require(x->hash_value() == x->clone()->hash_value(), "hash after simplify variant " + std::to_string(k) + ": " + text(*x));
        add(x, va, std::string("simplify variant ") + std::to_string(k) + " " + n);
        if (k == 2) {
          auto y = pool.back().e->clone();
          simplify(y);
          c.require(*y == *pool.back().e, "simplify not idempotent: " + text(*pool.back().e) + " -> " + text(*y));
        }
        break;
      }
      case 13: {
        ++compound;
        const int q = s.range(1, 5);
        const F fq = F::of(q);
        const Mat mq = Mat::scalar(fq);
        switch (s.range(0, 8)) {
          case 0: add(a * q, va * mq, "times number " + n); break;
          case 1: add(q * a, va * mq, "number times " + n); break;
          case 2: add(a / int(q), va * Mat::scalar(fq.inv()), "divided by number " + n); break;
          case 3: add(a + q, va + mq, "plus number " + n); break;
          case 4: add(q + a, va + mq, "number plus " + n); break;
          case 5: add(a - q, va - mq, "minus number " + n); break;
          case 6: add(q - a, mq - va, "number minus " + n); break;
          case 7: { auto v = value(Variable(L"y")); add(a * L"y", va * v, "times variable " + n); break; }
          default: { auto v = value(Variable(L"y")); add(L"y" - a, v - va, "variable minus " + n); break; }
        }
        break;
      }
      case 14: {
        if (!a->is<Sum>()) break;
        const auto k = s.below(a->size() + 2);
        auto& sum = a->as<Sum>();
        auto x = sum.take_n(k), y = sum.take_n(k, sum.size());
        const auto vx = value(*x), vy = value(*y);
        c.require(vx + vy == va, "take_n does not split the sum");
        add(x, vx, "take_n " + n);
        break;
      }
      case 15: {  // eager accumulation
        ++compound;
        std::vector<ExprPtr> xs;
        Mat v;
        const int k = s.range(2, 6);
        std::string d;
        for (int q = 0; q < k; ++q) {
          const auto i = s.below(pool.size());
          if (weight(*pool[i].e) > 20) continue;
          auto e = pool[i].e->clone();
          auto z = gen::random_scalar(s, false);
          if (s.coin()) { xs.push_back(e); v = v + pool[i].v; }
          else { xs.push_back(ex<Constant>(z) * e); v = v + Mat::scalar(model().constant(Constant(z))) * pool[i].v; }
          d += " #" + std::to_string(i);
        }
        const bool fl = s.coin(), can = s.coin();
        auto r = transform_sum_expr(xs, [](const ExprPtr& e) { return e; }, {.canonicalize = can, .flatten = fl});
        add(r, v, "accumulate" + d + (can ? " canonicalize" : "") + (fl ? " flatten" : ""));
        break;
      }
      case 16: {  // replace a subexpression through iterators
        auto x = a->clone();
        if (x->is_atom()) break;
        if (s.coin()) (void)x->hash_value();
        const auto k = s.below(x->size());
        auto y = b->clone();
        if (weight(*y) > 20) break;
        *(x->begin() + k) = y;
        (void)x->hash_value();
        const auto v = value(*x);
        const auto vc = value(*x->clone());
        c.require(v == vc, "value of a copy differs: " + text(*x) + " and " + text(*x->clone()));
        add(x, v, "replace subexpression " + n);
        break;
      }
      case 17: {  // relabel the atoms by mutating visit
        auto x = a->clone();
        if (s.coin()) (void)x->hash_value();
        if (x->is_atom()) break;
        x->visit([](ExprPtr& e) { if (e->is<Op>() && e->as<Op>().label() == L"A") e = ex<Op>(L"D", e->as<Op>().dagger()); }, true);
        bool left = false;
        x->visit([&](const ExprPtr& e) { left |= e->is<Op>() && e->as<Op>().label() == L"A"; }, true);
        c.require(!left, "visit missed an atom: " + text(*x));
        std::size_t na = 0, nb = 0;
        std::function<void(const Expr&)> count = [&](const Expr& e) { if (e.is_atom()) ++na; for (auto& y : e) count(*y); };
        count(*x);
        x->visit([&](const ExprPtr&) { ++nb; }, true);
        c.require(na == nb, "visit saw " + std::to_string(nb) + " of " + std::to_string(na) + " atoms: " + text(*x));
        const auto v = value(*x);
        add(x, v, "relabel " + n);
        break;
      }
      case 18: {  // x - x = 0, x + x = 2 x
        if (terms(*a) > 60) break;
        auto z = a - a;
        simplify(z);
        c.require(z->is<Constant>() && z->is_zero(), "x - x simplifies to " + text(*z) + " for x = " + text(*a));
        auto d = a + a, t = 2 * a;
        simplify(d);
        simplify(t);
        c.require(*d == *t, "x + x and 2 x simplify to " + text(*d) + " and " + text(*t));
        c.note("cancel " + n);
        break;
      }
      case 19: {  // comparisons
        if (*a == *b) {
          c.require(va == vb, "equal expressions with different values: " + text(*a) + " and " + text(*b));
          c.require(a->hash_value() == b->hash_value(), "equal expressions with different hashes: " + text(*a) + " and " + text(*b));
          c.tag("equal");
        }
        c.require(*a == *a, "expression differs from itself: " + text(*a));
        if (va == vb && weight(*a) < 30 && weight(*b) < 30 && *a == *a->clone()) {}
        break;
      }
      default: {  // power arithmetic
        if (!a->is<Power>()) break;
        auto x = a->clone();
        try {
          *x *= *b;
        } catch (const Exception&) {
          break;
        }
        add(x, va * vb, "power *= " + n);
        auto y = x->clone();
        Power::flatten(y);
        add(y, va * vb, "power flatten " + n);
      }
    }
    // nothing else may have changed
    for (std::size_t k = 0; k < pool.size(); ++k) check_item(c, pool[k], "after step, #" + std::to_string(k));
    if (pool.size() > 12) pool.erase(pool.begin());
  }
  c.nontrivial = compound >= 3;
  c.tag("steps", steps);
}

// commutes_with / is_commutative / adjoint of products of operators
void commuting(pbt::Case& c) {
  std::vector<ExprPtr> f;
  const int n = c.s.range(1, 5);
  for (int k = 0; k < n; ++k) {
    ExprPtr x = atom(c.s);
    if (c.s.chance(1, 4)) x = x * atom(c.s);
    if (c.s.chance(1, 5)) x = x + atom(c.s);
    f.push_back(x);
  }
  auto p = ex<Product>(1, f.begin(), f.end(), Product::Flatten::No);
  c.note(text(*p));
  c.nontrivial = n > 1;
  auto& pr = p->as<Product>();
  if (pr.is_commutative()) {
    c.tag("commutative");
    auto g = f;
    c.s.shuffle(g);
    auto q = ex<Product>(1, g.begin(), g.end(), Product::Flatten::No);
    c.require(value(*p) == value(*q), "commutative product depends on the order: " + text(*p));
  }
  for (auto& x : f)
    for (auto& y : f) {
      const bool xy = x->commutes_with(*y);
      c.require(xy == y->commutes_with(*x), "commutes_with is not symmetric: " + text(*x) + ", " + text(*y));
      if (xy) {
        auto a = value(*x), b = value(*y);
        c.require(a * b == b * a, "do not commute: " + text(*x) + ", " + text(*y));
      }
    }
  auto q = adjoint(adjoint(p));
  c.require(value(*adjoint(p)) == value(*p).dagger(), "adjoint of " + text(*p));
  c.require(value(*q) == value(*p), "double adjoint of " + text(*p));
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C01";
  p.facets = {
      {"history", "1-14 operations (arithmetic, in-place arithmetic, append/prepend, clone, adjoint, expand, flatten, simplify, canonicalize, accumulate, iterator and visitor mutation) over a pool of expressions, each shadowed by its 2x2 matrix value; after every step every pool element must have its value; non-trivial: >=3 composing operations", history, 120000, 2000000},
      {"commuting", "products of operators and scalars: declared commutativity and adjoints against matrices; non-trivial: >1 factor", commuting, 60000, 800000},
  };
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
