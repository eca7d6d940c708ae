// The optimizer finds a best evaluation tree of a product.
#include <SeQuant/core/optimize/cost_model.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <cmath>
#include "gen.hpp"
using namespace sequant;
using namespace gen;

namespace {
using num::show;
constexpr double EPS = 1e-9;

// ---- the network as the reference sees it: index numbers only
struct Idx {
  Index index;
  std::size_t extent = 1;
  std::vector<int> protos;
  int batch = -1;  // bit number
};
struct Net {
  std::vector<Idx> ix;
  std::vector<std::vector<int>> slots;  // of every tensor
  std::vector<ExprPtr> tensors;
  std::vector<char> vol;
  // cost model
  bool prune = true;
  std::function<double(int, std::size_t)> inner;  // may be empty
  std::size_t batch_size = 1;
  int nbatch = 0;
  double w = 1, fpw = 0, acc = 0;
  bool persistent_only = false;
  RooflineParams roof;

  int n() const { return (int)slots.size(); }
  int full() const { return (1 << n()) - 1; }
  // indices of a subset's result
  std::set<int> open(int m) const {
    std::map<int, int> in, out;
    for (int t = 0; t < n(); ++t)
      for (int i : slots[t]) ++((m >> t & 1) ? in : out)[i];
    std::set<int> r;
    const bool single = (m & (m - 1)) == 0;
    for (auto [i, k] : in)
      if (single || k == 1 || out.count(i)) r.insert(i);
    return r;
  }
  double extent(int i, int B) const {
    double e = (double)ix[i].extent;
    if (ix[i].batch >= 0 && (B >> ix[i].batch & 1)) e = std::min(e, (double)batch_size);
    return e;
  }
  double volume(const std::set<int>& s, int B) const {
    std::set<int> outer;
    std::vector<int> comp;
    for (int i : s)
      if (ix[i].protos.empty())
        outer.insert(i);
      else {
        comp.push_back(i);
        outer.insert(ix[i].protos.begin(), ix[i].protos.end());
      }
    double v = 1;
    for (int i : outer) v *= extent(i, B);
    for (int i : comp) {
      if (inner) {
        std::size_t k = 0;
        for (int j : comp) k += ix[j].protos == ix[i].protos;
        v *= inner(i, k);
      } else
        v *= extent(i, B);
    }
    return v == 1 ? 0 : v;
  }
  int open_batch(int m) const {
    int b = 0;
    for (int i : open(m))
      if (ix[i].batch >= 0) b |= 1 << ix[i].batch;
    return b;
  }
  bool volatile_(int m) const {
    for (int t = 0; t < n(); ++t)
      if ((m >> t & 1) && vol[t]) return true;
    return false;
  }
  double sz(int m, int B) const { return volume(open(m), B); }
  double leaves(int m, int B) const {
    double r = 0;
    for (int t = 0; t < n(); ++t)
      if (m >> t & 1) r += sz(1 << t, B);
    return r;
  }
  double flops(int l, int r) const {
    auto a = open(l), b = open(r);
    a.insert(b.begin(), b.end());
    return volume(a, 0);
  }
  double op_cost(int l, int r) const {  // of the secondary objective
    const double f = flops(l, r), q0 = sz(l, 0) + sz(r, 0) + sz(l | r, 0);
    double c = f;
    if (roof.machine_balance > 0) {
      double q = q0;
      if (roof.fast_mem_elems > 0 && roof.block_tiles > 0) q = std::max(q, roof.block_prefactor * f / std::sqrt(roof.fast_mem_elems / roof.block_tiles));
      c = std::max(f, roof.machine_balance * q);
    }
    return (volatile_(l | r) ? w : 1) * c;
  }
  bool connected(int m) const {
    int reached = m & -m;
    for (bool more = true; more;) {
      more = false;
      for (int t = 0; t < n(); ++t) {
        if (!(m >> t & 1) || (reached >> t & 1)) continue;
        for (int u = 0; u < n() && !(reached >> t & 1); ++u)
          if (reached >> u & 1)
            for (int i : slots[t])
              if (std::count(slots[u].begin(), slots[u].end(), i)) {
                reached |= 1 << t;
                more = true;
                break;
              }
      }
    }
    return reached == m;
  }
};

enum class Obj { Flops, Size, Peak, Batched };

/// one evaluation tree: its costs
struct Point {
  double add = 0;    // additive cost
  double second = 0; // roofline or flops
  std::vector<double> peak;  // by sliced set
};
// all (or, with order given, this) combination of two evaluated trees
Point combine(const Net& N, Obj obj, int l, int r, const Point& pl, const Point& pr, bool any_order) {
  const int m = l | r;
  Point p;
  if (obj == Obj::Flops || obj == Obj::Size) {
    double c = obj == Obj::Flops ? N.flops(l, r) : N.sz(l, 0) + N.sz(r, 0) + N.sz(m, 0);
    const double w = obj == Obj::Flops && N.w > 1 && N.volatile_(m) ? N.w : 1;
    p.add = w * c + N.fpw * N.sz(m, 0) + pl.add + pr.add;
    return p;
  }
  p.second = N.op_cost(l, r) + pl.second + pr.second;
  const int nB = 1 << (obj == Obj::Batched ? N.nbatch : 0);
  p.peak.resize(nB);
  for (int B = 0; B < nB; ++B) {
    int cand = obj == Obj::Batched ? (N.open_batch(l) | N.open_batch(r)) & ~N.open_batch(m) : 0;
    if (N.persistent_only && N.volatile_(m)) cand = 0;
    double best = -1;
    for (int A = 0; A <= cand; ++A) {
      if ((A & cand) != A) continue;
      const int C = B | A;
      auto one = [&](int f, int s, const Point& pf, const Point& ps) {
        return std::max({N.leaves(s, C) + pf.peak[C], N.sz(f, C) + ps.peak[C], N.sz(f, C) + N.sz(s, C) + N.sz(m, B) * (A ? 1 + N.acc : 1)});
      };
      double v = one(l, r, pl, pr);
      if (any_order) v = std::min(v, one(r, l, pr, pl));
      if (best < 0 || v < best) best = v;
    }
    p.peak[B] = best;
  }
  return p;
}
Point leaf(const Net& N, Obj obj, int m) {
  Point p;
  const int nB = 1 << (obj == Obj::Batched ? N.nbatch : 0);
  for (int B = 0; B < nB; ++B) p.peak.push_back(N.sz(m, B));
  return p;
}
/// every tree
std::vector<Point> enumerate(const Net& N, Obj obj) {
  const bool prune = N.prune && N.connected(N.full());
  std::vector<std::vector<Point>> of(N.full() + 1);
  for (int m = 1; m <= N.full(); ++m) {
    if ((m & (m - 1)) == 0) {
      of[m] = {leaf(N, obj, m)};
      continue;
    }
    if (prune && !N.connected(m)) continue;
    const int low = m & -m;
    for (int l = (m - 1) & m; l; l = (l - 1) & m) {
      if (!(l & low)) continue;
      const int r = m & ~l;
      for (auto& a : of[l])
        for (auto& b : of[r]) of[m].push_back(combine(N, obj, l, r, a, b, true));
    }
  }
  return of[N.full()];
}

/// the tree the optimizer returned
Point evaluate(Case& c, const Net& N, Obj obj, const ExprPtr& e, int& mask) {
  if (e->is<Tensor>()) {
    for (int t = 0; t < N.n(); ++t)
      if (!(mask >> t & 1) && *N.tensors[t] == *e) {
        mask = 1 << t;
        return leaf(N, obj, mask);
      }
    c.fail("unknown tensor " + show(e));
  }
  c.require(e->is<Product>(), "not a tree");
  std::vector<ExprPtr> f;
  for (auto& x : e->as<Product>().factors())
    if (!x->is_scalar()) f.push_back(x);
  c.require(f.size() == 2, "not a binary tree: " + show(e));
  int l = mask;
  auto pl = evaluate(c, N, obj, f[0], l);
  int r = mask | l;
  auto pr = evaluate(c, N, obj, f[1], r);
  mask = l | r;
  return combine(N, obj, l, r, pl, pr, false);
}

struct Made {
  Net N;
  std::map<std::wstring, int> by_label;
  std::shared_ptr<IndexSpaceRegistry> isr;
};
int find(const Net& N, const Index& i) {
  for (int k = 0; k < (int)N.ix.size(); ++k)
    if (N.ix[k].index == i) return k;
  return -1;
}

Net make_net(Case& c, const World& w, int min_t, int max_t, bool nulls) {
  auto& s = c.s;
  Net N;
  const int nt = s.range(min_t, max_t);
  N.slots.resize(nt);
  struct T {
    std::vector<Index> bra, ket, aux;
  };
  std::vector<T> ts(nt);
  auto wr = const_cast<World&>(w);
  const int plain = s.range(2, 9);
  auto ext = [&]() -> std::size_t {
    switch (s.weighted({4, 2, 1, 1})) {
      case 0: return 2 + s.below(9);
      case 1: return 10 + s.below(200);
      case 2: return 1;
      default: return 2;
    }
  };
  auto add = [&](int t, int i, int kind) {
    N.slots[t].push_back(i);
    (kind == 0 ? ts[t].bra : kind == 1 ? ts[t].ket : ts[t].aux).push_back(N.ix[i].index);
  };
  const bool comp = s.chance(1, 4);
  for (int k = 0; k < plain; ++k) {
    Idx x;
    x.extent = ext();
    if (comp && k > 1 && s.chance(1, 3)) {
      std::vector<Index> pr;
      for (int j = 0; j < k && pr.size() < 2; ++j)
        if (N.ix[j].protos.empty() && s.coin()) {
          pr.push_back(N.ix[j].index);
          x.protos.push_back(j);
        }
      if (!pr.empty()) x.index = Index(w.isr->retrieve(L"a"), wr.next[L"a"] += 1, container::vector<Index>(pr.begin(), pr.end()), true);
    }
    if (x.protos.empty()) x.index = wr.make(s.chance(2, 3) ? L"i" : L"a");
    N.ix.push_back(x);
    switch (s.weighted({6, 2, 1, 1})) {
      case 0: {  // contracted
        int a = (int)s.below(nt), b = (int)s.below(nt - 1);
        if (b >= a) ++b;
        if (s.chance(1, 4)) {
          add(a, k, 2);
          add(b, k, 2);
        } else {
          add(a, k, 0);
          add(b, k, 1);
        }
        break;
      }
      case 1: add((int)s.below(nt), k, (int)s.below(3)); break;  // external
      case 2: {                                                  // on several tensors
        int n = 0;
        for (int t = 0; t < nt; ++t)
          if (s.coin()) add(t, k, 2), ++n;
        if (!n) add((int)s.below(nt), k, 2);
        break;
      }
      default: {  // within a tensor
        int a = (int)s.below(nt);
        add(a, k, 0);
        add(a, k, 1);
      }
    }
  }
  const wchar_t* labels[] = {L"A", L"B", L"C", L"D", L"E", L"F", L"G", L"H"};
  const bool same = s.chance(1, 4);
  for (int t = 0; t < nt; ++t) {
    auto b = ts[t].bra, k = ts[t].ket;
    if (nulls && s.coin()) {
      if (b.size() < k.size()) b.resize(k.size());
      if (k.size() < b.size()) k.resize(b.size());
    }
    auto label = labels[same ? s.below(2) : (std::uint32_t)t];
    N.tensors.push_back(ex<Tensor>(label, bra(b), ket(k), aux(ts[t].aux), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
    N.vol.push_back(0);
  }
  return N;
}
std::string describe(const Net& N) {
  std::string t;
  for (auto& e : N.tensors) t += show(e) + " ";
  t += "\nextents:";
  for (auto& x : N.ix) t += " " + u8(std::wstring(x.index.full_label())) + "=" + std::to_string(x.extent) + (x.batch >= 0 ? "*" : "");
  return t;
}

void body(Case& c, Obj obj, bool nulls) {
  auto& s = c.s;
  WorldOptions wo;
  wo.kinds = {0};
  wo.spin = 0;
  auto w = make_world(s, wo);
  Net N = make_net(c, w, 3, obj == Obj::Batched ? 5 : s.chance(1, 30) ? 7 : 6, nulls);
  OptimizeOptions o;
  o.objective_function = obj == Obj::Flops    ? ObjectiveFunction::DenseFLOPs
                         : obj == Obj::Size   ? ObjectiveFunction::DenseSize
                         : obj == Obj::Peak   ? ObjectiveFunction::DensePeakSize
                                              : ObjectiveFunction::DensePeakSizeBatched;
  auto ext = [&](const Index& i) -> std::size_t {
    const int k = find(N, i);
    return k < 0 ? 7 : N.ix[k].extent;
  };
  o.idx_to_extent = ext;
  N.prune = o.prune_outer_products = s.chance(2, 3);
  std::string opts = N.prune ? "pruned" : "not pruned";
  if (s.chance(1, 3)) {
    const int p = s.range(1, 2);
    N.inner = [&N, p](int i, std::size_t k) { return p == 1 ? (double)N.ix[i].extent : (double)(N.ix[i].extent + k); };
    o.inner_pow = [&N](const Index& i, std::size_t k) { return N.inner(find(N, i), k); };
    opts += " inner_pow " + std::to_string(p);
  }
  if (s.chance(1, 2)) {
    std::set<std::wstring> labels;
    for (auto l : {L"A", L"B", L"C"})
      if (s.coin()) labels.insert(l);
    N.w = o.volatile_weight = s.pick({1.0, 2.0, 10.0, 0.5});
    o.batch_policy.is_volatile_leaf = [labels](const Tensor& t) { return labels.count(std::wstring(t.label())) > 0; };
    for (int t = 0; t < N.n(); ++t) N.vol[t] = labels.count(std::wstring(N.tensors[t]->as<Tensor>().label())) > 0;
    opts += " volatile";
    for (auto& l : labels) opts += " " + u8(l);
    opts += " weight " + std::to_string(N.w);
  }
  if ((obj == Obj::Flops || obj == Obj::Size) && s.chance(1, 3)) N.fpw = o.footprint_weight = s.pick({1.0, 5.0, 100.0});
  o.peak_flops_tolerance = s.pick({0.0, 0.1, 1.0, 10.0});
  if (s.chance(1, 4)) {
    o.roofline.machine_balance = s.pick({1.0, 4.0, 64.0});
    o.roofline.fast_mem_elems = s.pick({0.0, 48.0, 1000.0});
    if (s.coin()) o.roofline.block_tiles = 1, o.roofline.block_prefactor = 2;
    N.roof = o.roofline;
    opts += " roofline " + std::to_string(o.roofline.machine_balance) + "/" + std::to_string(o.roofline.fast_mem_elems);
  }
  if (obj == Obj::Batched) {
    const int want = s.range(0, 2);
    for (auto& x : N.ix) {
      bool used = false, proto = false;
      for (auto& t : N.slots) used |= std::count(t.begin(), t.end(), (int)(&x - N.ix.data())) > 0;
      for (auto& y : N.ix) proto |= std::count(y.protos.begin(), y.protos.end(), (int)(&x - N.ix.data())) > 0;
      if (used && !proto && x.protos.empty() && N.nbatch < want && s.chance(2, 3)) x.batch = N.nbatch++;
    }
    N.batch_size = s.pick({1, 2, 3, 8});
    N.persistent_only = o.batch_policy.persistent_only = s.chance(1, 3);
    if (N.nbatch <= 1 && s.chance(1, 3)) N.acc = o.batch_policy.accumulation_factor = s.pick({0.5, 1.0, 3.0});
    o.batch_policy.is_batchable_index = [&N](const Index& i) {
      const int k = find(N, i);
      return k >= 0 && N.ix[k].batch >= 0;
    };
    o.batch_policy.batch_target_size = [&N](const Index&) { return N.batch_size; };
    opts += " batch " + std::to_string(N.batch_size) + (N.persistent_only ? " persistent only" : "") + " acc " + std::to_string(N.acc);
  }
  c.note(describe(N) + "\noptions: " + opts + " footprint " + std::to_string(N.fpw) + " tolerance " + std::to_string(o.peak_flops_tolerance));
  auto prod = std::make_shared<Product>();
  prod->scale(random_scalar(s));
  for (auto& t : N.tensors) prod->append(1, t, Product::Flatten::No);
  if (s.chance(1, 4)) prod->append(1, ex<Variable>(L"x"), Product::Flatten::No);
  ExprPtr r = optimize(ExprPtr(prod), o);
  c.note("tree: " + show(r));
  int mask = 0;
  const auto got = evaluate(c, N, obj, r, mask);
  c.require(mask == N.full(), "tensors missing");
  const auto all = enumerate(N, obj);
  c.tag("trees", (long)all.size());
  if (obj == Obj::Flops || obj == Obj::Size) {
    double lo = all[0].add, hi = lo;
    for (auto& p : all) lo = std::min(lo, p.add), hi = std::max(hi, p.add);
    c.nontrivial = hi > lo;
    c.require(got.add <= lo * (1 + EPS), "cost " + std::to_string(got.add) + ", best tree " + std::to_string(lo));
  } else {
    double lo = all[0].peak[0], hi = lo;
    for (auto& p : all) lo = std::min(lo, p.peak[0]), hi = std::max(hi, p.peak[0]);
    const double lim = lo * (1 + o.peak_flops_tolerance);
    double second = -1;
    for (auto& p : all)
      if (p.peak[0] <= lim * (1 - EPS) || p.peak[0] == lo) second = second < 0 ? p.second : std::min(second, p.second);
    c.nontrivial = hi > lo;
    c.require(got.peak[0] <= lim * (1 + EPS), "peak " + std::to_string(got.peak[0]) + ", best tree " + std::to_string(lo));
    c.require(got.second <= second * (1 + EPS), "flops " + std::to_string(got.second) + " within the tolerated peak " + std::to_string(lim) + ", best tree " + std::to_string(second));
    for (auto& p : all)
      c.require(p.second != got.second || p.peak[0] >= got.peak[0] * (1 - EPS) || got.second != std::floor(got.second),
                "same flops with a lower peak: " + std::to_string(p.peak[0]) + " < " + std::to_string(got.peak[0]));
    // the peaks the library computes
    if (N.prune && !N.inner) {
      TensorNetwork tn(N.tensors);
      container::svector<Index> none;
      if (obj == Obj::Peak)
        c.require(std::abs(opt::detail::peak_cost(tn, none, ext) - lo) <= EPS * lo, "peak_cost is not the least peak");
      else if (!N.persistent_only && N.acc == 0) {
        auto a = opt::detail::peak_cost_batched(tn, none, ext, o.batch_policy.is_batchable_index, o.batch_policy.batch_target_size, o.batch_policy.is_volatile_leaf);
        c.require(std::abs(a - lo) <= EPS * lo, "peak_cost_batched is not the least peak");
        auto b = opt::detail::reconstructed_batched_peak(tn, none, ext, o.batch_policy.is_batchable_index, o.batch_policy.batch_target_size, o.batch_policy.is_volatile_leaf);
        c.require(std::abs(b - lo) <= EPS * lo, "reconstructed_batched_peak is not the least peak");
      }
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C12";
  p.init = [] {
    set_num_threads(1);
    TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  };
  const std::string rule = "3-6 tensors with random incidences (contracted, external, shared by several, repeated, composite indices) and extents; non-trivial: the trees do not all cost the same";
  p.facets = {
      {"flops", rule, [](Case& c) { body(c, Obj::Flops, c.s.chance(1, 4)); }, 60000, 1500000},
      {"size", rule, [](Case& c) { body(c, Obj::Size, c.s.chance(1, 4)); }, 40000, 1500000},
      {"peak", rule, [](Case& c) { body(c, Obj::Peak, c.s.chance(1, 4)); }, 20000, 400000},
      {"batched", rule, [](Case& c) { body(c, Obj::Batched, c.s.chance(1, 4)); }, 40000, 800000},
  };
  p.assumptions = {"batchable indices have no proto-indices and are not proto-indices"};
  return pbt::run(p, argc, argv);
}
