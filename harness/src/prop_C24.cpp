// Results do not depend on the number of threads.
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/runtime.hpp>

#include <unistd.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "wickgen.hpp"

namespace {
using num::show;

struct Threads {
  explicit Threads(int n) { set_num_threads(n); }
  ~Threads() { set_num_threads(1); }
};

/// gives other threads a chance to run, at points drawn by the case
std::atomic<std::uint32_t> g_pause{0}, g_ticks{0};
void pause_here() {
  const auto p = g_pause.load(std::memory_order_relaxed);
  if (!p) return;
  const auto t = g_ticks.fetch_add(1, std::memory_order_relaxed) * 2654435761u ^ p;
  if ((t >> 7) % 4 == 0) std::this_thread::yield();
  if ((t >> 9) % 64 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
}
struct Canonicalizer : DefaultTensorCanonicalizer {
  ExprPtr apply(AbstractTensor& t) const override {
    pause_here();
    auto r = DefaultTensorCanonicalizer::apply(t);
    pause_here();
    return r;
  }
};
void schedule(Case& c) { g_pause = c.s.chance(1, 4) ? 0 : 1 + c.s.below(1000); g_ticks = 0; }

/// an operation with one thread and then, several times, with more
template <class Op, class Same>
void compare_runs(Case& c, Op&& op, Same&& same) {
  schedule(c);
  auto ref = op();
  const int runs = 1 + (int)c.s.below(3);
  for (int k = 0; k < runs; ++k) {
    const int nt = c.s.pick({2, 3, 4, 8});
    c.note("threads " + std::to_string(nt));
    Threads t(nt);
    auto r = op();
    c.require(num_threads() == nt, "the number of threads changed");
    same(ref, r, nt);
  }
}
num::F value_of(const ExprPtr& e, const World& w, const num::IndexSet& ext) {
  num::EvalOptions o;
  o.externals = ext;
  o.max_work = 3e6;
  return num::eval(e, w.model, o);
}

/// summands of one type and one hash are in no particular order
bool tied(const ExprPtr& e) {
  if (e->is_atom()) return false;
  bool r = false;
  if (e->is<Sum>()) {
    std::set<std::pair<std::size_t, std::size_t>> seen;
    for (auto& x : e->as<Sum>().summands()) r = r || !seen.emplace(x->type_id(), x->hash_value()).second;
  }
  for (auto& x : *e) r = r || tied(x);
  return r;
}

/// canonicalization of sums: the very same text
void sums(Case& c) {
  auto& s = c.s;
  const bool loose = s.chance(1, 5);
  WorldOptions wo;
  wo.loose = loose;
  auto w = make_world(s, wo);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, true);
  const int terms = 2 + (int)s.below(11);
  auto sum = std::make_shared<Sum>();
  ExprOptions o;
  o.net.loose = loose;
  o.net.max_tensors = 3;
  o.net.max_dummies = 4;
  o.net.protos = s.chance(1, 4);
  o.net.halves = s.chance(1, 4);
  o.net.variables = s.chance(1, 4);
  o.net.special = s.chance(1, 6);
  o.max_terms = 2;
  o.depth = s.weighted({4, 1, 1});
  o.net.max_volume = 2e4;
  bool nt = false;
  const bool flat = s.coin();
  bool nested = false;
  for (int k = 0; k < terms; ++k) {
    ExprPtr e;
    if (flat || s.chance(3, 4)) {
      auto n = random_net(s, w, attrs, ext, o.net);
      if (n.factors.empty()) continue;
      nt = nt || (n.tensors > 1 && n.dummies > 0);
      e = n.product(random_scalar(s));
    } else {
      nested = true;
      auto oo = o;
      oo.net.protos = false;
      e = random_expr(s, w, attrs, ext, oo);
    }
    // a term may come twice, with another coefficient
    if (s.chance(1, 6)) sum->append(ex<Constant>(random_scalar(s)) * e->clone());
    sum->append(e);
  }
  if (sum->size() < 2) throw pbt::Discard{};
  ExprPtr e(sum);
  c.note(w.name);
  c.note(show(e));
  const int what = s.weighted({4, 3, 2, 2});
  container::set<Index> named;
  for (auto& i : ext.all()) named.insert(i);
  auto opt = CanonicalizeOptions::default_options().copy_and_set(s.pick({CanonicalizationMethod::Complete, CanonicalizationMethod::Topological, CanonicalizationMethod::Lexicographic}));
  if (s.coin()) opt = opt.copy_and_set(std::optional<container::set<Index>>(named));
  c.note("operation " + std::to_string(what));
  c.nontrivial = nt && sum->size() > 2;
  c.tag("summands", (long)sum->size());
  guard([&] {
    const auto before = value_of(e, w, ext.all());
    auto op = [&] {
      Index::reset_tmp_index();
      auto x = e->clone();
      switch (what) {
        case 0: canonicalize(x, opt); break;
        case 1: simplify(x, SimplifyOptions(opt)); break;
        case 2: { auto bp = x->rapid_canonicalize(); if (bp) x = bp * x; break; }
        default: expand(x); flatten(x); canonicalize(x, opt);
      }
      return x;
    };
    const auto text = show(e);
    compare_runs(c, op, [&](const ExprPtr& a, const ExprPtr& b, int) {
      c.require(show(e) == text, "the input changed");
      auto v = value_of(b, w, ext.all());
      // nested sums: see the known finding of C02
      if (!(v == before) && !(nested && (what == 0 || what == 2))) c.fail("value changed from " + before.str() + " to " + v.str() + ": " + show(b));
      if (tied(a)) c.tag("tied summands");
      else if (what != 2) c.require(show(a) == show(b), "one thread: " + show(a) + "\nseveral: " + show(b));
      c.require(a->size() == b->size() && a->is<Sum>() == b->is<Sum>(), "one thread: " + show(a) + "\nseveral: " + show(b));
    });
  });
}

/// Wick's theorem applied to sums
void wick(Case& c) {
  auto& s = c.s;
  auto st = make_setting(c, true);
  const bool full = s.chance(3, 4), topo = full && s.chance(2, 3);
  const bool many = s.chance(1, 8);   // a crowd of small terms
  const bool skip = many || s.chance(1, 4);
  std::vector<Block> blocks;
  std::vector<OpProduct> terms;
  num::IndexSet none;
  const int n = many ? 20 + (int)s.below(60) : 2 + (int)s.below(5);
  for (int k = 0; k < n; ++k) {
    auto mark = st.w.next;
    terms.push_back(block_product(c, st, blocks, many ? 2 : k < 2 ? 6 : 4, &none));
    if (many || s.coin()) st.w.next = mark;
  }
  container::svector<ExprPtr> v;
  for (auto& t : terms) v.push_back(t.expr());
  auto e = ex<Sum>(v.begin(), v.end());
  const bool give_ext = s.coin();
  c.note(st.w.name + (st.vac == Vacuum::Physical ? " physical" : " fermi") + (st.spinfree ? " spin-free" : "") + (full ? " full " : " all ") + (topo ? "topology " : "") + (skip ? "skip " : ""));
  c.note(show(e));
  if (e->size() < 2) throw pbt::Discard{};
  guard([&] {
    auto o = st.eval;
    o.vacuum_expectation = full;
    install_contractions(st.w);
    const auto expected = num::eval(e, st.w.model, o);
    c.nontrivial = !expected.zero();
    struct Out { ExprPtr e; std::size_t attempted, useful; };
    auto op = [&] {
      Index::reset_tmp_index();
      auto x = e->clone();
      FWickTheorem wt(x);
      wt.full_contractions(full).use_topology(topo);
      if (give_ext) wt.set_external_indices(container::svector<Index>{});
      auto r = wt.compute(false, skip);
      return Out{r, wt.stats().num_attempted_contractions.load(), wt.stats().num_useful_contractions.load()};
    };
    compare_runs(c, op, [&](const Out& a, const Out& b, int) {
      auto val = num::eval(b.e, st.w.model, o);
      if (!(val == expected)) c.fail("expected " + expected.str() + ", got " + val.str() + ": " + show(b.e));
      c.require(a.attempted == b.attempted && a.useful == b.useful,
                "statistics: " + std::to_string(a.attempted) + "/" + std::to_string(a.useful) + " contractions with one thread, " + std::to_string(b.attempted) + "/" + std::to_string(b.useful) + " with several");
      if (full && !skip) {
        auto x = a.e->clone(), y = b.e->clone();
        Threads one(1);
        simplify(x);
        simplify(y);
        c.require(show(x) == show(y), "one thread: " + show(x) + "\nseveral: " + show(y));
      }
    });
  });
}

/// optimization of sums: the very same tree
void optimizer(Case& c) {
  auto& s = c.s;
  WorldOptions wo;
  wo.spin = s.weighted({5, 1, 1});
  auto w = make_world(s, wo);
  AttrMap attrs;
  auto ext = random_ext(s, w, 2, s.chance(1, 4));
  NetOptions no;
  no.max_tensors = 4;
  no.max_dummies = 5;
  no.trace = false;
  no.hyper = s.chance(1, 3);
  no.variables = s.coin();
  no.max_volume = 3e4;
  const int terms = 2 + (int)s.below(9);
  auto sum = std::make_shared<Sum>();
  int big = 0;
  std::vector<Net> nets;
  for (int k = 0; k < terms; ++k) {
    auto n = random_net(s, w, attrs, ext, no);
    if (n.factors.empty()) continue;
    big += n.tensors > 2;
    nets.push_back(n);
    sum->append(n.product(random_scalar(s)));
  }
  // summands that share their factors
  if (!nets.empty() && s.chance(1, 2)) {
    const int more = 1 + (int)s.below(4);
    for (int k = 0; k < more; ++k) sum->append(nets[s.below((std::uint32_t)nets.size())].product(random_scalar(s)));
  }
  if (sum->size() < 2) throw pbt::Discard{};
  ExprPtr e(sum);
  c.nontrivial = big > 1;
  OptimizeOptions o;
  const int obj = s.weighted({3, 1, 2});
  o.objective_function = obj == 0 ? ObjectiveFunction::DenseFLOPs : obj == 1 ? ObjectiveFunction::DenseSize : ObjectiveFunction::DensePeakSize;
  o.reorder = s.coin() ? ReorderSum::Reorder : ReorderSum::NoReorder;
  if (obj < 2) o.CSE.subnet = s.coin();
  std::map<std::wstring, std::size_t> m;
  for (auto& x : *w.isr->spaces()) m[std::wstring(x.base_key())] = 1 + s.below(40);
  o.idx_to_extent = [m](const Index& i) {
    pause_here();
    auto it = m.find(std::wstring(i.space().base_key()));
    return it == m.end() ? std::size_t(5) : it->second;
  };
  c.note(w.name + " objective " + std::to_string(obj) + (o.reorder == ReorderSum::Reorder ? " reorder" : "") + (o.CSE.subnet ? " subnet" : ""));
  c.note(show(e));
  const auto text = show(e);
  compare_runs(c, [&] { Index::reset_tmp_index(); return optimize(e, o); }, [&](const ExprPtr& a, const ExprPtr& b, int) {
    c.require(show(e) == text, "the input changed");
    c.require(show(a) == show(b) && *a == *b, "one thread: " + show(a) + "\nseveral: " + show(b));
  });
}

/// the helpers themselves: each item once, whatever the schedule
void helpers(Case& c) {
  auto& s = c.s;
  schedule(c);
  const int nt = 1 + (int)s.below(8), n = s.chance(1, 8) ? (int)s.below(3) : (int)s.below(200);
  const int kind = s.weighted({3, 3, 2, 3, 1});
  c.note("kind " + std::to_string(kind) + " threads " + std::to_string(nt) + " items " + std::to_string(n));
  c.nontrivial = nt > 1 && n > nt;
  Threads t(nt);
  c.require(num_threads() == nt, "num_threads() after set_num_threads(" + std::to_string(nt) + "): " + std::to_string(num_threads()));
  switch (kind) {
    case 0: {
      std::vector<std::pair<int, std::atomic<int>>> v(n);
      for (int k = 0; k < n; ++k) v[k].first = k;
      std::atomic<int> calls = 0, running = 0, most = 0;
      sequant::for_each(v, [&](auto& x) {
        int r = ++running, m = most;
        while (r > m && !most.compare_exchange_weak(m, r)) {}
        pause_here();
        ++x.second;
        ++calls;
        pause_here();
        --running;
      });
      c.require(calls == n, "for_each made " + std::to_string(calls) + " calls");
      for (auto& x : v) c.require(x.second == 1, "for_each visited item " + std::to_string(x.first) + " " + std::to_string(x.second) + " times");
      c.require(most <= nt, "for_each ran " + std::to_string(most) + " calls at a time");
      break;
    }
    case 1: {  // a sum that is not commutative in its parts cannot be expected; a product over a modulus can
      std::vector<std::uint64_t> v;
      for (int k = 0; k < n; ++k) v.push_back(s.bits() >> 8);
      const std::uint64_t init = s.below(1000);
      std::uint64_t want = init;
      for (auto x : v) want += x * x + 1;
      auto got = sequant::transform_reduce(v, init, [](std::uint64_t a, std::uint64_t b) { pause_here(); return a + b; }, [](std::uint64_t x) { pause_here(); return x * x + 1; });
      c.require(got == want, "transform_reduce: " + std::to_string(got) + " for " + std::to_string(want));
      break;
    }
    case 2: {
      std::vector<std::atomic<int>> ids(nt + 1);
      std::atomic<int> other = 0;
      sequant::parallel_do([&](int id) {
        pause_here();
        if (id < 0 || id >= nt) ++other; else ++ids[id];
      });
      c.require(other == 0, "parallel_do used an id outside of the range");
      for (int k = 0; k < nt; ++k) c.require(ids[k] == 1, "parallel_do ran task " + std::to_string(k) + " " + std::to_string(ids[k]) + " times");
      break;
    }
    case 3: {  // eager sums
      const int types = 1 + (int)s.below(6);
      std::vector<ExprPtr> v;
      using Coefs = std::map<std::string, Constant::scalar_type>;
      Coefs want;
      auto at = [](Coefs& m, const std::string& k) -> Constant::scalar_type& { return m.try_emplace(k, Constant::scalar_type(0)).first->second; };
      for (int k = 0; k < n; ++k) {
        auto x = ex<Variable>(L"x" + std::to_wstring(s.below(types)));
        auto q = random_scalar(s);
        v.push_back(ex<Constant>(q) * x);
        if (k % 3 != 2) at(want, show(x)) += q;
      }
      std::map<const Expr*, int> pos;
      for (int k = 0; k < n; ++k) pos[v[k].get()] = k;
      const bool canon = s.coin();
      auto r = transform_sum_expr(v, [&](const ExprPtr& x) -> ExprPtr { pause_here(); return pos.at(x.get()) % 3 == 2 ? nullptr : x->clone(); }, {.canonicalize = canon});
      Coefs got;
      auto add = [&](const ExprPtr& x) {
        if (x->is<Constant>()) { c.require(x->as<Constant>().is_zero(), "a number: " + show(x)); return; }
        if (x->is<Variable>()) { at(got, show(x)) += 1; return; }
        c.require(x->is<Product>() && x->size() == 1, "a summand that was not there: " + show(x));
        at(got, show(x->as<Product>().factors()[0])) += x->as<Product>().scalar();
      };
      if (r->is<Sum>()) for (auto& x : r->as<Sum>().summands()) add(x); else add(r);
      for (auto& [k, q] : want) c.require(at(got, k) == q, "coefficient of " + k + " in " + show(r));
      for (auto& [k, q] : got) c.require(at(want, k) == q, "coefficient of " + k + " in " + show(r));
      break;
    }
    default: {
      bool threw = false;
      try { set_num_threads(-(int)s.below(3)); } catch (const std::exception&) { threw = true; }
      c.require(threw, "set_num_threads took a number below 1");
      c.require(num_threads() == nt, "a refused number of threads was kept");
    }
  }
}
}  // namespace

/// a hang takes no CPU time
template <void (*F)(Case&)>
void timed(Case& c) {
  struct Alarm {
    Alarm() { alarm(60); }
    ~Alarm() { alarm(0); }
  } a;
  F(c);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C24";
  p.facets = {
      {"sums", "sums of up to 24 networks canonicalized or simplified with 1 and then 2-8 threads, with pauses in the tensor canonicalizer: same text (rapid: same number of summands), same value; non-trivial: more than 2 summands, one with >1 tensor and dummies", timed<sums>, 12000, 200000, 60, false, 10},
      {"wick", "Wick's theorem applied to sums of 2-6 operator products with 1 and 2-8 threads: value, number of contractions, simplified text; non-trivial: value not zero", timed<wick>, 12000, 200000, 60, false, 10},
      {"optimizer", "optimization of sums of 2-14 products, some with common factors, with 1 and 2-8 threads: the same trees; non-trivial: 2 products of >2 tensors", timed<optimizer>, 10000, 120000, 60, false, 10},
      {"helpers", "for_each, transform_reduce, parallel_do, transform_sum_expr, set_num_threads with 1-8 threads and random pauses against loops; non-trivial: more items than threads", timed<helpers>, 20000, 600000, 60, false, 10},
  };
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<Canonicalizer>());
  };
  return pbt::run(p, argc, argv);
}
