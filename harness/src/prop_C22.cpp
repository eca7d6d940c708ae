// C22: trees, permutations, sets of bits, numbers, and memoization, each
// against a plain model.
#include <SeQuant/core/algorithm.hpp>
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/complex.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/rational.hpp>
#include <SeQuant/core/utility/conversion.hpp>
#include <SeQuant/core/utility/memoize.hpp>
#include <SeQuant/core/utility/permutation.hpp>
#include <SeQuant/core/utility/swap.hpp>

#include <range/v3/view/zip.hpp>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <future>
#include <mutex>
#include <set>
#include <span>
#include <thread>

#include "pbt.hpp"

using namespace sequant;
using pbt::Case;
using pbt::Src;

namespace {
// -------------------------------------------------------------------- trees
using Node = FullBinaryNode<int>;
struct Model;
using M = std::shared_ptr<const Model>;
struct Model { int v; M l, r; };
M leaf(int v) { return std::make_shared<Model>(Model{v, nullptr, nullptr}); }
M join(int v, M l, M r) { return std::make_shared<Model>(Model{v, std::move(l), std::move(r)}); }
std::string text(const M& m) {
  return m->l ? std::to_string(m->v) + "(" + text(m->l) + "," + text(m->r) + ")" : std::to_string(m->v);
}
std::size_t count(const M& m) { return m->l ? 1 + count(m->l) + count(m->r) : 1; }
bool same(const M& a, const M& b) {
  if (a->v != b->v || !a->l != !b->l) return false;
  return !a->l || (same(a->l, b->l) && same(a->r, b->r));
}
/// the tree has the shape and data of the model, and its links are consistent
void check(Case& c, const Node& n, const M& m, const std::string& where) {
  if (*n != m->v || *n.operator->() != m->v) c.fail(where + ": data " + std::to_string(*n) + " instead of " + std::to_string(m->v));
  if (n.leaf() != !m->l) c.fail(where + ": leaf() is wrong");
  if (n.size() != count(m)) c.fail(where + ": size " + std::to_string(n.size()) + " instead of " + std::to_string(count(m)));
  if (!m->l) {
    try { (void)n.left(); c.fail(where + ": a leaf has a child"); } catch (Exception&) {}
    return;
  }
  if (n.left().root() || &n.left().parent() != &n || n.right().root() || &n.right().parent() != &n) c.fail(where + ": a child has the wrong parent");
  check(c, n.left(), m->l, where + "l");
  check(c, n.right(), m->r, where + "r");
}
void check_root(Case& c, const Node& n, const M& m, const std::string& where) {
  if (!n.root()) c.fail(where + " is not a root");
  try { (void)n.parent(); c.fail(where + " has a parent"); } catch (Exception&) {}
  check(c, n, m, where + " ");
}
Node build(const M& m) {
  return m->l ? Node(m->v, build(m->l), build(m->r)) : Node(m->v);
}
using Path = std::vector<bool>;  // true = right
Path random_path(Src& s, const M& m) {
  Path p;
  for (auto x = m; x->l && s.chance(3, 4);) p.push_back(s.coin()), x = p.back() ? x->r : x->l;
  return p;
}
M at(const M& m, const Path& p) {
  auto x = m;
  for (bool b : p) x = b ? x->r : x->l;
  return x;
}
Node& at(Node& n, const Path& p) {
  auto* x = &n;
  for (bool b : p) x = b ? &x->right() : &x->left();
  return *x;
}
M put(const M& m, const Path& p, const M& y, std::size_t k = 0) {
  if (k == p.size()) return y;
  return p[k] ? join(m->v, m->l, put(m->r, p, y, k + 1)) : join(m->v, put(m->l, p, y, k + 1), m->r);
}
std::string text(const Path& p) { std::string r = "@"; for (bool b : p) r += b ? 'r' : 'l'; return r; }
M random_model(Src& s, int& next, int depth) {
  const int v = s.chance(1, 5) ? s.range(0, 2) : next++;
  if (depth == 0 || s.chance(1, 4)) return leaf(v);
  auto l = random_model(s, next, depth - 1);
  return join(v, l, random_model(s, next, depth - 1));
}
/// histories of making, copying, moving, and assigning trees
void trees(Case& c) {
  auto& s = c.s;
  int next = 10;
  std::deque<Node> nodes;
  std::vector<M> models;
  auto add = [&](Node n, M m) { nodes.push_back(std::move(n)); models.push_back(m); };
  const int steps = s.range(3, 12);
  std::size_t biggest = 0;
  for (int step = 0; step < steps; ++step) {
    const auto kind = nodes.empty() ? s.range(0, 2) : s.range(0, 10);
    const auto i = nodes.empty() ? 0 : s.below(nodes.size());
    const auto j = nodes.empty() ? 0 : s.below(nodes.size());
    switch (kind) {
      case 0: {
        auto m = random_model(s, next, 4);
        c.note("new " + text(m));
        add(build(m), m);
        break;
      }
      case 1: {  // folded from a container: op of a leaf, op of two
        std::vector<int> v;
        for (int n = s.range(1, 5); n--;) v.push_back(s.range(0, 9));
        struct Op {
          int operator()(int x) const { return x + 1; }
          int operator()(int x, int y) const { return 3 * x + y; }
        };
        auto m = leaf(v[0] + 1);
        for (std::size_t k = 1; k < v.size(); ++k) m = join(3 * m->v + v[k] + 1, m, leaf(v[k] + 1));
        c.note("fold " + text(m));
        struct Op1 { int x; };
        add(Node(v, Op{}), m);
        break;
      }
      case 2: {  // folded from nodes
        std::vector<Node> v;
        M m;
        for (int n = s.range(1, 4), k = 0; k < n; ++k) {
          auto x = random_model(s, next, 2);
          v.push_back(build(x));
          m = m ? join(5 * m->v - x->v, m, x) : x;
        }
        c.note("fold nodes " + text(m));
        if (s.coin()) add(fold_left_to_node(v, [](int a, int b) { return 5 * a - b; }), m);
        else add(fold_left_to_node(v, [](const Node& a, const Node& b) { return 5 * *a - *b; }), m);
        break;
      }
      case 3: {
        const auto p = random_path(s, models[i]);
        c.note("copy of " + std::to_string(i) + text(p));
        Node n(at(nodes[i], p));
        auto m = at(models[i], p);
        add(std::move(n), m);
        break;
      }
      case 4: {  // copy assignment, also of a part of a tree to another one
        const auto p = random_path(s, models[i]), q = random_path(s, models[j]);
        c.note(std::to_string(i) + text(p) + " = " + std::to_string(j) + text(q));
        auto m = put(models[i], p, at(models[j], q));
        at(nodes[i], p) = std::as_const(at(nodes[j], q));
        models[i] = m;
        break;
      }
      case 5: {  // a node becomes what one below it was
        const auto p = random_path(s, models[i]);
        auto q = p;
        for (bool b : random_path(s, at(models[i], p))) q.push_back(b);
        if (q.size() == p.size()) break;
        c.note(std::to_string(i) + text(p) + " = move of its " + text(q));
        auto m = put(models[i], p, at(models[i], q));
        at(nodes[i], p) = std::move(at(nodes[i], q));
        models[i] = m;
        break;
      }
      case 6: {  // move from another tree
        if (i == j) break;
        const auto p = random_path(s, models[i]), q = random_path(s, models[j]);
        c.note(std::to_string(i) + text(p) + " = move of " + std::to_string(j) + text(q));
        auto m = put(models[i], p, at(models[j], q));
        at(nodes[i], p) = std::move(at(nodes[j], q));
        models[i] = m;
        models[j] = put(models[j], q, leaf(*at(nodes[j], q)));  // what is left is a leaf
        break;
      }
      case 7: {
        c.note("transform of " + std::to_string(i));
        std::function<M(const M&)> f = [&](const M& m) { return m->l ? join(7 * m->v + 1, f(m->l), f(m->r)) : leaf(7 * m->v + 1); };
        const auto p = random_path(s, models[i]);
        auto m = f(at(models[i], p));
        add(transform_node(at(nodes[i], p), [](int x) { return 7 * x + 1; }), m);
        break;
      }
      case 8: {
        const auto p = random_path(s, models[i]);
        auto x = at(models[i], p);
        c.note("data of " + std::to_string(i) + text(p));
        *at(nodes[i], p) = next;
        models[i] = put(models[i], p, x->l ? join(next, x->l, x->r) : leaf(next));
        ++next;
        break;
      }
      case 9: {  // join two
        if (i == j) break;
        c.note("join " + std::to_string(i) + " and a copy of " + std::to_string(j));
        Node n(next, std::move(nodes[i]), nodes[j]);
        auto m = join(next++, models[i], models[j]);
        models[i] = leaf(*nodes[i]);
        add(std::move(n), m);
        break;
      }
      case 10: {  // swap of the children
        const auto p = random_path(s, models[i]);
        auto x = at(models[i], p);
        if (!x->l) break;
        c.note("swap below " + std::to_string(i) + text(p));
        auto& n = at(nodes[i], p);
        std::swap(n.left(), n.right());
        models[i] = put(models[i], p, join(x->v, x->r, x->l));
        break;
      }
    }
    for (std::size_t k = 0; k < nodes.size(); ++k) {
      check_root(c, nodes[k], models[k], "tree " + std::to_string(k));
      biggest = std::max(biggest, count(models[k]));
    }
    if (!nodes.empty()) {
      const auto a = s.below(nodes.size()), b = s.below(nodes.size());
      const auto p = random_path(s, models[a]), q = random_path(s, models[b]);
      const bool eq = same(at(models[a], p), at(models[b], q));
      bool got = false;
      try { got = at(nodes[a], p) == at(nodes[b], q); } catch (Exception& e) { c.fail("comparison of " + text(at(models[a], p)) + " with " + text(at(models[b], q)) + " threw " + e.what()); }
      if (got != eq) c.fail("comparison of " + text(at(models[a], p)) + " with " + text(at(models[b], q)));
      // drawn as a graph, and read back
      const auto g = at(nodes[a], p).digraph([](const Node& n) { return std::to_string(*n); });
      std::istringstream in(g);
      std::string line;
      std::map<int, int> label;
      std::map<int, std::vector<int>> kids;
      while (std::getline(in, line)) {
        int x, y;
        if (std::sscanf(line.c_str(), "node%d -> node%d", &x, &y) == 2) kids[x].push_back(y);
        else if (std::sscanf(line.c_str(), "node%d[label=%d]", &x, &y) == 2) { if (!label.emplace(x, y).second) c.fail("a node is drawn twice"); }
      }
      std::size_t seen = 0;
      std::function<M(int)> read = [&](int x) -> M {
        if (++seen > 10000 || !label.count(x)) c.fail("drawn graph is not a tree: " + g);
        auto k = kids[x];
        if (k.empty()) return leaf(label[x]);
        if (k.size() != 2) c.fail("drawn graph is not binary: " + g);
        auto l = read(k[0]);
        return join(label[x], l, read(k[1]));
      };
      if (!same(read(0), at(models[a], p))) c.fail("drawn graph differs: " + g);
    }
  }
  c.nontrivial = biggest >= 5 && models.size() >= 2;
}
/// order and extent of visits, from any node of a tree, with pruning and with
/// visitors that cut off what is below
void visits(Case& c) {
  auto& s = c.s;
  int next = 10;
  auto m = random_model(s, next, 5);
  Node n = build(m);
  const auto p = random_path(s, m);
  const auto order = static_cast<TreeTraversal>(s.range(0, 7));
  const auto nodes = s.range(0, 2);  // all, internal, leaves
  const bool bare = s.chance(1, 4), prunes = !bare && s.coin(), cuts = s.chance(1, 3);
  const auto seed = s.below(1000);
  auto decide = [&](const void* key, TreeTraversal t, unsigned salt, unsigned den) {
    std::uint64_t h = std::uint64_t(reinterpret_cast<const Model*>(key)->v) * 7919 + unsigned(t) * 31 + salt * 17 + seed;
    h ^= h >> 7; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    return h % den == 0;
  };
  c.note(text(m) + " from " + text(p) + " order " + std::to_string(int(order)) + " nodes " + std::to_string(nodes) + (bare ? " bare" : "") + (prunes ? " prunes" : "") + (cuts ? " cuts" : "") + " seed " + std::to_string(seed));
  std::map<const Node*, M> of;
  std::function<void(const Node&, const M&)> link = [&](const Node& x, const M& y) {
    of[&x] = y;
    if (y->l) link(x.left(), y->l), link(x.right(), y->r);
  };
  link(n, m);
  using Event = std::pair<const Model*, int>;
  std::vector<Event> want, got;
  std::set<const Model*> cut;
  auto has = [&](TreeTraversal t) { return (order & t) == t; };
  // what happens: returns whether to go on below
  auto step = [&](const Model* x, TreeTraversal t, std::vector<Event>& log) {
    log.push_back({x, bare ? 0 : int(t)});
    return !(prunes && decide(x, t, 1, 4));
  };
  std::function<void(const M&)> run = [&](const M& x) {
    bool isleaf = !x->l;
    auto call = [&](TreeTraversal t) {
      const bool on = step(x.get(), t, want);
      if (cuts && x->l && decide(x.get(), t, 2, 5)) cut.insert(x.get()), isleaf = true;
      return on && !isleaf;
    };
    if (isleaf) { if (nodes != 1) step(x.get(), TreeTraversal::Any, want); return; }
    if (nodes != 2 && has(TreeTraversal::PreOrder) && !call(TreeTraversal::PreOrder)) return;
    run(x->l);
    if (nodes != 2 && has(TreeTraversal::InOrder) && !call(TreeTraversal::InOrder)) return;
    run(x->r);
    if (nodes != 2 && has(TreeTraversal::PostOrder)) call(TreeTraversal::PostOrder);
  };
  if (order != TreeTraversal::None) run(at(m, p));
  auto visitor = [&](auto& x, TreeTraversal t) {
    if (!of.count(&x)) c.fail("visits something that is not in the tree");
    auto y = of.at(&x);
    const bool on = step(y.get(), t, got);
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>)
      if (cuts && y->l && decide(y.get(), t, 2, 5)) x = Node(*x);
    return on;
  };
  auto go = [&](auto& from) {
    auto call = [&](auto&& f) {
      if (nodes == 0) from.visit(f, order);
      else if (nodes == 1) from.visit_internal(f, order);
      else from.visit_leaf(f, order);
    };
    if (bare) call([&](auto& x) { (void)visitor(x, TreeTraversal::None); });
    else call([&](auto& x, TreeTraversal t) { return visitor(x, t); });
  };
  auto& from = at(n, p);
  if (bare && cuts) return;  // a bare visitor is not told when
  if (cuts) go(from);
  else go(std::as_const(from));
  if (want != got) {
    std::string a, b;
    for (auto& [x, t] : want) a += " " + std::to_string(x->v) + "/" + std::to_string(t);
    for (auto& [x, t] : got) b += " " + std::to_string(x->v) + "/" + std::to_string(t);
    c.fail("visits" + b + " instead of" + a);
  }
  std::function<M(const M&)> after = [&](const M& x) { return !x->l || cut.count(x.get()) ? leaf(x->v) : join(x->v, after(x->l), after(x->r)); };
  check_root(c, n, after(m), "tree");
  c.nontrivial = want.size() >= 3;
}

// ------------------------------------------------------------- permutations
template <typename T>
int sign_of(const std::vector<T>& p) {
  int r = 1;
  for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = i + 1; j < p.size(); ++j) if (p[j] < p[i]) r = -r;
  return r;
}
std::string list(const auto& p) { std::string r; for (auto& x : p) r += " " + std::to_string(x); return r; }
template <typename T>
void parity_of(Case& c, const std::vector<int>& perm, bool overwrite) {
  std::vector<T> p(perm.begin(), perm.end());
  const auto before = p;
  const auto got = permutation_parity(std::span<T>(p), overwrite);
  if (got != sign_of(perm)) c.fail("parity of" + list(perm) + " is " + std::to_string(got));
  if (!overwrite && p != before) c.fail("a permutation that was not to be overwritten became" + list(p));
}
void permutations(Case& c) {
  auto& s = c.s;
  std::vector<int> p(s.range(0, 9));
  std::iota(p.begin(), p.end(), 0);
  s.shuffle(p);
  const bool overwrite = s.coin();
  c.note("permutation" + list(p) + (overwrite ? " overwritten" : ""));
  c.nontrivial = p.size() >= 3;
  switch (s.range(0, 3)) {
    case 0: parity_of<int>(c, p, overwrite); break;
    case 1: parity_of<std::size_t>(c, p, overwrite); break;
    case 2: parity_of<unsigned char>(c, p, overwrite); break;
    case 3: parity_of<long>(c, p, overwrite); break;
  }
  // sorting by swaps, counted
  {
    auto v = p;
    for (auto& x : v) if (s.chance(1, 4)) x = s.range(0, 9);
    const bool down = s.coin();
    std::vector<SwapCountable<int>> w;
    for (auto& x : v) w.emplace_back(x);
    reset_ts_swap_counter<int>();
    if (down) bubble_sort(w.begin(), w.end(), [](const auto& a, const auto& b) { return b < a; });
    else bubble_sort(w.begin(), w.end());
    std::vector<int> got(w.begin(), w.end()), want = v;
    std::stable_sort(want.begin(), want.end(), [&](int a, int b) { return down ? b < a : a < b; });
    if (got != want) c.fail("sorted" + list(v) + " to" + list(got));
    auto neg = v;
    if (down) for (auto& x : neg) x = -x;
    if (ts_swap_counter_is_even<int>() != (sign_of(neg) == 1)) c.fail("wrong parity of the swaps that sorted" + list(v));
    if (!ts_swap_counter_is_even<long>()) c.fail("swaps of other types were counted");
    // references to the elements count as well
    reset_ts_swap_counter<int>();
    auto u = v;
    std::vector<SwapCountableRef<int>> refs;
    for (auto& x : u) refs.emplace_back(x);
    bool even = true;
    for (int n = u.empty() ? 0 : s.range(0, 5); n--;) {
      const auto a = s.below(u.size()), b = s.below(u.size());
      if (a == b) continue;
      if ((refs[a] < refs[b]) != (u[a] < u[b])) c.fail("comparison of references");
      auto x = u;
      std::swap(x[a], x[b]);
      if (s.coin()) swap(refs[a], refs[b]);
      else counted_swap(u[a], u[b]);
      if (u != x) c.fail("swapped references are now" + list(u));
      even = !even;
    }
    if (ts_swap_counter_is_even<int>() != even) c.fail("wrong parity of swaps of references");
  }
  // two ranges at once, ordered by both
  {
    std::vector<int> a = p, b;
    for (auto& x : a) { x /= 2; b.push_back(s.range(0, 3)); }
    std::vector<std::pair<int, int>> want;
    for (std::size_t i = 0; i < a.size(); ++i) want.push_back({a[i], b[i]});
    std::sort(want.begin(), want.end());
    const auto a0 = a, b0 = b;
    auto z = ranges::views::zip(a, b);
    bubble_sort(ranges::begin(z), ranges::end(z), std::less<int>{});
    for (std::size_t i = 0; i < a.size(); ++i)
      if (want[i] != std::pair(a[i], b[i])) c.fail("sorted pairs of" + list(a0) + " and" + list(b0) + " to" + list(a) + " and" + list(b));
  }
  // all permutations, in order
  if (p.size() <= 5) {
    auto v = p;
    if (s.coin()) for (auto& x : v) x /= 2;
    const bool distinct = std::set<int>(v.begin(), v.end()).size() == v.size();
    const bool down = s.coin();
    auto cmp = [&](int a, int b) { return down ? b < a : a < b; };
    auto sgn = [&](std::vector<int> x) { if (down) for (auto& y : x) y = -y; return sign_of(x); };
    auto w = v;
    int parity = sgn(v) == 1 ? 0 : 1;
    for (int k = 0, n = s.range(1, 130); k < n; ++k) {
      const auto prev = v;
      const bool a = next_permutation_parity(parity, v.begin(), v.end(), cmp), b = std::next_permutation(w.begin(), w.end(), cmp);
      if (a != b || v != w) c.fail("after" + list(prev) + " comes" + list(v) + " instead of" + list(w));
      if (distinct && (parity % 2 == 0) != (sgn(v) == 1)) c.fail("wrong parity of" + list(v));
      if (!distinct && v != prev) {  // any permutation that leads here
        continue;
      }
    }
  }
}
/// loops of columns, joined wherever a value occurs twice
void loops(Case& c) {
  auto& s = c.s;
  const auto n = s.range(0, 8);
  std::vector<int> all;
  for (int i = 0; i < n; ++i) all.push_back(i), all.push_back(i);
  std::vector<std::string> v0, v1;
  if (s.coin()) {
    std::vector<int> q(n);
    std::iota(q.begin(), q.end(), 0);
    s.shuffle(q);
    all.clear();
    for (int i = 0; i < n; ++i) all.push_back(i), all.push_back(q[i]);
  } else s.shuffle(all);
  for (int i = 0; i < n; ++i) v0.push_back("x" + std::to_string(all[2 * i])), v1.push_back("x" + std::to_string(all[2 * i + 1]));
  std::string t;
  for (int i = 0; i < n; ++i) t += " " + v0[i] + "-" + v1[i];
  c.note("columns" + t);
  c.nontrivial = n >= 3;
  // walk along the columns
  std::vector<bool> done(n);
  std::size_t want = 0;
  for (int i = 0; i < n; ++i) {
    if (done[i]) continue;
    ++want;
    int col = i;
    bool second = true;  // leaves by the second row
    while (!done[col]) {
      done[col] = true;
      const int slot = 2 * col + second;
      int other = 0;
      for (int k = 0; k < 2 * n; ++k) if (k != slot && all[k] == all[slot]) other = k;
      col = other / 2;
      second = other % 2 == 0;
    }
  }
  const auto got = count_cycles(v0, v1);
  if (got != want) c.fail(std::to_string(got) + " loops instead of " + std::to_string(want) + " in" + t);
}

// --------------------------------------------------------------------- bits
template <std::unsigned_integral T>
void bit_sets(Case& c) {
  auto& s = c.s;
  std::set<unsigned> on;
  for (int n = s.range(0, 8); n--;) on.insert(s.below(sizeof(T) * 8));
  T mask = 0;
  for (auto b : on) mask |= T(T(1) << b);
  c.note("mask " + std::to_string(mask) + " of " + std::to_string(sizeof(T) * 8) + " bits");
  c.nontrivial = on.size() >= 3;
  std::vector<T> subs;  // ascending
  {
    std::vector<unsigned> v(on.begin(), on.end());
    for (std::size_t k = 0; k < (std::size_t(1) << v.size()); ++k) {
      T x = 0;
      for (std::size_t i = 0; i < v.size(); ++i) if (k >> i & 1) x |= T(T(1) << v[i]);
      subs.push_back(x);
    }
  }
  std::vector<T> got;
  for (T x : bits::subsets(mask)) got.push_back(x);
  if (got != subs) c.fail("subsets:" + list(got));
  got.clear();
  for (T x : bits::subsets_ascending(mask)) got.push_back(x);
  if (got != subs) c.fail("ascending subsets:" + list(got));
  got.clear();
  for (T x : bits::subsets_descending(mask)) got.push_back(x);
  std::reverse(got.begin(), got.end());
  if (got != subs) c.fail("descending subsets:" + list(got));
  std::size_t k = 0;
  for (auto [a, b] : bits::bipartitions_ordered(mask)) {
    if (k == subs.size() || a != subs[k] || b != T(mask & ~a)) c.fail("ordered bipartition " + std::to_string(k) + " is " + std::to_string(a) + " " + std::to_string(b));
    ++k;
  }
  if (k != subs.size()) c.fail("not all ordered bipartitions");
  std::set<std::set<T>> parts, want;
  for (T x : subs) if (mask) want.insert({x, T(mask & ~x)});
  std::size_t n = 0;
  for (auto [a, b] : bits::bipartitions(mask)) {
    if (T(a | b) != mask || (a & b)) c.fail("not a bipartition");
    parts.insert({a, b});
    ++n;
  }
  if (n != want.size() || parts != want) c.fail(std::to_string(n) + " unordered bipartitions instead of " + std::to_string(want.size()));
  std::vector<std::size_t> is;
  for (auto i : bits::on_bits_index(mask)) is.push_back(i);
  if (is != std::vector<std::size_t>(on.begin(), on.end())) c.fail("bits that are on:" + list(is));
  std::vector<int> elems;
  for (std::size_t i = 0; i < sizeof(T) * 8; ++i) elems.push_back(1000 + s.range(0, 99));
  std::vector<int> chosen, chose;
  for (auto b : on) chosen.push_back(elems[b]);
  for (auto x : bits::on_bits_index(mask) | bits::sieve(elems)) chose.push_back(x);
  if (chosen != chose) c.fail("sieved" + list(chose) + " instead of" + list(chosen));
  std::size_t len = 0;
  for (auto&& pre : inits(chosen)) {
    ++len;
    std::vector<int> v;
    for (auto&& x : pre) v.push_back(x);
    if (v != std::vector<int>(chosen.begin(), chosen.begin() + len)) c.fail("initial part" + list(v));
  }
  if (len != chosen.size()) c.fail("not all initial parts");
}
void bit_facet(Case& c) {
  switch (c.s.range(0, 3)) {
    case 0: return bit_sets<std::uint8_t>(c);
    case 1: return bit_sets<std::uint16_t>(c);
    case 2: return bit_sets<std::uint32_t>(c);
    default: return bit_sets<std::uint64_t>(c);
  }
}

// ------------------------------------------------------------------ numbers
using Z = Complex<rational>;
rational random_rational(Src& s) {
  rational r(s.range(-9, 9), s.range(1, 7));
  if (s.chance(1, 8)) for (int n = s.range(1, 4); n--;) r *= rational(1000003, 997);
  return r;
}
std::string text(const Z& z) { return "(" + z.re.str() + "," + z.im.str() + ")"; }
void numbers(Case& c) {
  auto& s = c.s;
  auto z = [&] { return Z(random_rational(s), s.chance(1, 3) ? rational(0) : random_rational(s)); };
  const Z a = z(), b = z(), d = z();
  const rational r = random_rational(s);
  const int k = s.range(-4, 4);
  c.note(text(a) + " " + text(b) + " " + text(d) + " " + r.str() + " " + std::to_string(k));
  c.nontrivial = a.im != 0 && b.im != 0;
  auto eq = [&](const Z& x, const rational& re, const rational& im, const char* what) {
    if (x.re != re || x.im != im) c.fail(std::string(what) + " is " + text(x));
    if (!(x == Z(re, im)) || x != Z(re, im)) c.fail(std::string(what) + ": comparison");
    if (x.hash_value() != Z(re, im).hash_value()) c.fail(std::string(what) + ": hash");
  };
  eq(a + b, a.re + b.re, a.im + b.im, "a+b");
  eq(a - b, a.re - b.re, a.im - b.im, "a-b");
  eq(a * b, a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, "a*b");
  eq(-a, -a.re, -a.im, "-a");
  eq(+a, a.re, a.im, "+a");
  eq(conj(a), a.re, -a.im, "conj(a)");
  eq(r * a, r * a.re, r * a.im, "r*a");
  eq(a * r, r * a.re, r * a.im, "a*r");
  eq(k * a, k * a.re, k * a.im, "k*a");
  eq(a * k, k * a.re, k * a.im, "a*k");
  if (norm_squared(a) != a.re * a.re + a.im * a.im) c.fail("norm");
  if (!b.is_zero()) {
    auto q = a / b;
    eq(q * b, a.re, a.im, "(a/b)*b");
    eq((r / b) * b, r, 0, "(r/b)*b");
  }
  {
    Z x = a;
    x += b; eq(x, a.re + b.re, a.im + b.im, "+=");
    x -= d; eq(x, a.re + b.re - d.re, a.im + b.im - d.im, "-=");
    const Z y = x;
    x *= d; eq(x, y.re * d.re - y.im * d.im, y.re * d.im + y.im * d.re, "*=");
    x = y; x *= x; eq(x, y.re * y.re - y.im * y.im, 2 * y.re * y.im, "x*=x");
    x = y; x *= r; eq(x, y.re * r, y.im * r, "*=r");
    x = y; x += r; eq(x, y.re + r, y.im, "+=r");
    x = y; x -= r; eq(x, y.re - r, y.im, "-=r");
  }
  if (a.is_zero() != (a.re == 0 && a.im == 0) || a.is_identity() != (a.re == 1 && a.im == 0)) c.fail("is_zero or is_identity");
  if ((a == k) != (a.im == 0 && a.re == k) || (k == a) != (a == k) || (a != k) == (a == k)) c.fail("comparison with an integer");
  if ((a == r) != (a.im == 0 && a.re == r) || (r == a) != (a == r) || (a != r) == (a == r)) c.fail("comparison with a rational");
  if (a.im == 0 || a.re == 0) { if (abs(a) != (a.im == 0 ? abs(a.re) : abs(a.im))) c.fail("abs"); }
  // factorials, in any order
  const auto n = s.below(60);
  sequant::intmax_t f = 1;
  for (unsigned i = 2; i <= n; ++i) f *= i;
  if (factorial(n) != f) c.fail("factorial of " + std::to_string(n));
  const auto m = s.below(64);
  if (pow2(m) != (std::uint64_t(1) << m)) c.fail("power of 2");
}
/// the simplest fraction within eps, when it is found in the steps allowed
template <typename T>
void approx(Case& c) {
  auto& s = c.s;
  const T eps = s.pick(std::initializer_list<T>{T(0.002), T(0.01), T(0.03), T(0.1), T(0.25)});
  T t = 0;
  switch (s.range(0, 2)) {
    case 0: t = T(s.range(-2000, 2000)) / T(s.range(1, 60)); break;
    case 1: t = T(s.range(-20, 20)) + (s.coin() ? T(1) : T(-1)) * T(s.range(0, 1000)) / T(1000000); break;
    default: t = T(s.bits() % 2000003) / T(1009) - T(700);
  }
  c.note("t = " + std::to_string(t) + " eps " + std::to_string(eps));
  c.nontrivial = t != std::floor(t);
  if (to_rational(t, T(0)) != rational(t)) c.fail("exact conversion");
  const auto got = to_rational(t, eps);
  const rational T0(t), E(eps), slack(std::numeric_limits<T>::epsilon() * 4096);
  if (abs(got - T0) > E + slack) c.fail(got.str() + " is not within " + std::to_string(eps) + " of " + std::to_string(t));
  const auto den = denominator(got);
  for (int q = 1; q < den; ++q) {
    // no simpler one, clear of rounding
    const auto lo = ceil(double(t) * q - double(eps) * q), x = std::round(double(t) * q);
    (void)lo;
    if (std::abs(double(t) * q - x) < (double(eps) - double(slack) - 1e-9) * q && q < den) c.fail(got.str() + " is not the simplest: " + std::to_string((long)x) + "/" + std::to_string(q));
  }
}
void fractions(Case& c) { c.s.coin() ? approx<double>(c) : approx<float>(c); }

/// text to numbers: all of it, or nothing
template <typename T>
void parse_int(Case& c, const std::string& t, bool wide) {
  // the reference: optional minus, digits, in range
  bool ok = !t.empty();
  std::size_t i = 0;
  bool neg = false;
  if (std::is_signed_v<T> && i < t.size() && t[i] == '-') neg = true, ++i;
  ok &= i < t.size();
  sequant::intmax_t v = 0;
  for (; i < t.size(); ++i) {
    if (t[i] < '0' || t[i] > '9') { ok = false; break; }
    v = v * 10 + (t[i] - '0');
  }
  if (neg) v = -v;
  if (ok) ok = v >= sequant::intmax_t(std::numeric_limits<T>::min()) && v <= sequant::intmax_t(std::numeric_limits<T>::max());
  try {
    const T x = wide ? string_to<T>(std::wstring_view(std::wstring(t.begin(), t.end()))) : string_to<T>(std::string_view(t));
    if (!ok) c.fail("'" + t + "' became " + std::to_string(x));
    if (sequant::intmax_t(x) != v) c.fail("'" + t + "' became " + std::to_string(x));
  } catch (ConversionException&) {
    if (ok) c.fail("'" + t + "' was refused");
  }
}
void parsing(Case& c) {
  auto& s = c.s;
  const bool wide = s.coin();
  std::string t;
  switch (s.range(0, 3)) {
    case 0: t = std::to_string((long)(s.bits()) * (s.coin() ? 1 : -1) >> s.range(0, 47)); break;
    case 1: t = std::to_string(s.range(-400, 400)); break;
    case 2: t = s.pick(std::initializer_list<const char*>{"127", "128", "-128", "-129", "255", "256", "2147483647", "2147483648", "-2147483648", "-2147483649",
              "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "00012", "-0", "-", "", "+3"}); break;
    default: for (int n = s.range(0, 5); n--;) t += "0123456789-+ .ex\t"[s.below(17)];
  }
  if (s.chance(1, 6)) t.insert(s.below(t.size() + 1), 1, " .ea-9"[s.below(6)]);
  c.note("'" + t + "'" + (wide ? " wide" : ""));
  c.nontrivial = t.size() >= 2;
  switch (s.range(0, 4)) {
    case 0: parse_int<int>(c, t, wide); break;
    case 1: parse_int<long>(c, t, wide); break;
    case 2: parse_int<unsigned>(c, t, wide); break;
    case 3: parse_int<std::size_t>(c, t, wide); break;
    default: parse_int<short>(c, t, wide);
  }
  // floating point
  double d = 0;
  const auto b = s.bits() << 16 | s.below(0x10000);
  std::memcpy(&d, &b, sizeof d);
  if (std::isfinite(d)) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.17g", d);
    const std::string u(buf);
    const double x = wide ? string_to<double>(std::wstring_view(std::wstring(u.begin(), u.end()))) : string_to<double>(std::string_view(u));
    if (std::memcmp(&x, &d, sizeof d)) c.fail(u + " became " + std::to_string(x));
    try { (void)string_to<double>(std::string_view(u + "x")); c.fail(u + "x was accepted"); } catch (ConversionException&) {}
  }
}

// -------------------------------------------------------------- memoization
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
/// computed once per key, from any number of threads; results stay where they
/// are; a computation that fails can be tried again
void memo(Case& c) {
  auto& s = c.s;
  const int threads = s.range(1, 4);
  struct Call { int key; bool fails; int spin; };
  std::vector<std::vector<Call>> plan(threads);
  std::string t;
  std::map<int, int> calls;
  bool any_fail = false;
  for (auto& p : plan) {
    for (int n = s.range(1, 8); n--;) {
      p.push_back({s.range(0, 6), s.chance(1, 6), s.range(0, 40)});
      t += " " + std::to_string(p.back().key) + (p.back().fails ? "!" : "");
      ++calls[p.back().key];
      any_fail |= p.back().fails;
    }
    t += " |";
  }
  c.note("calls" + t);
  c.nontrivial = calls.size() >= 3;
  struct State {
    std::map<int, std::optional<std::vector<int>>> cache;
    std::mutex mutex;
    std::condition_variable cv;
    std::atomic<int> done[8] = {}, going[8] = {};
    std::mutex log;
    std::string error;
    std::vector<std::pair<int, const std::vector<int>*>> held;
  };
  auto st = std::make_shared<State>();
  auto plan_copy = std::make_shared<const std::vector<std::vector<Call>>>(plan);
  auto work = [st, plan_copy](int me) {
    auto err = [&](std::string m) { std::lock_guard l(st->log); if (st->error.empty()) st->error = m; };
    for (auto& call : (*plan_copy)[me]) {
      bool ran = false;
      try {
        const auto& v = sequant::detail::memoize(st->cache, st->mutex, st->cv, call.key, [&]() -> std::vector<int> {
          ran = true;
          if (st->going[call.key]++) err("two computations of one key at once");
          for (int i = 0; i < call.spin; ++i) std::this_thread::yield();
          --st->going[call.key];
          if (call.fails) throw Boom("no value");
          if (st->done[call.key]++) err("computed twice");
          return std::vector<int>(3 + call.key, call.key);
        });
        if (v != std::vector<int>(3 + call.key, call.key)) err("wrong value");
        std::lock_guard l(st->log);
        st->held.push_back({call.key, &v});
      } catch (Boom&) {
        if (!ran || !call.fails) err("an exception of another computation came out");
      }
    }
  };
  // in a thread of its own, so that it can hang
  auto finished = std::make_shared<std::promise<void>>();
  auto fut = finished->get_future();
  std::thread([work, threads, finished] {
    std::vector<std::thread> ts;
    for (int i = 1; i < threads; ++i) ts.emplace_back(work, i);
    work(0);
    for (auto& x : ts) x.join();
    finished->set_value();
  }).detach();
  if (fut.wait_for(std::chrono::seconds(20)) != std::future_status::ready) c.fail("waits forever");
  if (!st->error.empty()) c.fail(st->error);
  for (auto& [k, v] : st->held)
    if (*v != std::vector<int>(3 + k, k)) c.fail("a value that was returned changed later");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C22";
  p.facets = {
      {"trees", "two or more trees, one of at least 5 nodes", trees, 60000, 2000000},
      {"visits", "three or more visits", visits, 200000, 8000000},
      {"permutations", "three or more elements", permutations, 200000, 6000000},
      {"loops", "three or more columns", loops, 100000, 3000000},
      {"bits", "three or more bits on", bit_facet, 100000, 3000000},
      {"numbers", "both numbers have imaginary parts", numbers, 100000, 3000000},
      {"fractions", "not an integer", fractions, 60000, 2000000},
      {"parsing", "two or more characters", parsing, 100000, 4000000},
      {"memo", "three or more keys", memo, 1500, 60000, 60, true},
  };
  return pbt::run(p, argc, argv);
}
