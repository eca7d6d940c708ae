// Property-based testing core: recorded choice streams, forked workers,
// integrated shrinking on the choice stream, replay files, evidence.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

/// thrown to report that the property under test does not hold for this case
struct Fail : std::runtime_error {
  using std::runtime_error::runtime_error;
};
/// thrown to reject a generated case (does not count as evaluated)
struct Discard {};

/// Stream of bounded choices. In generating mode choices are random and
/// recorded; in replay mode they are read back (0 past the end), so that any
/// edited choice sequence is still a valid input: shrinking works on it.
class Src {
 public:
  Src(std::uint64_t seed);                    // generating
  Src(std::vector<std::uint32_t> choices);    // replaying
  std::uint32_t below(std::uint32_t n);       // uniform in [0,n)
  int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); }
  bool coin() { return below(2) == 1; }
  /// true with probability num/den; shrinks towards false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  std::uint64_t bits() {
    std::uint64_t a = below(0x10000), b = below(0x10000), c = below(0x10000);
    return a | b << 16 | c << 32;
  }
  template <class C>
  const auto& pick(const C& c) { return c[below((std::uint32_t)c.size())]; }
  template <class T>
  T pick(std::initializer_list<T> c) { return c.begin()[below((std::uint32_t)c.size())]; }
  template <class V>
  void shuffle(V& v) {
    for (std::size_t i = v.size(); i > 1; --i) {
      // choice 0 = leave in place
      std::size_t j = i - 1 - below((std::uint32_t)i);
      if (j != i - 1) std::swap(v[i - 1], v[j]);
    }
  }
  /// index by weights, first entry is the shrink target
  int weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w) tot += x;
    int r = (int)below(tot), k = 0;
    for (int x : w) {
      if (r < x) return k;
      r -= x;
      ++k;
    }
    return 0;
  }
  const std::vector<std::uint32_t>& taken() const { return taken_; }

 private:
  bool replay_;
  std::uint64_t s_;
  std::vector<std::uint32_t> in_, taken_;
  std::size_t pos_ = 0;
};

/// Per-case context
struct Case {
  Src& s;
  std::uint64_t case_seed;
  std::string what;      // human-readable input, filled in as it is made
  bool nontrivial = false;
  std::string key;       // identity used for distinctness; default: what
  std::map<std::string, long>* tags = nullptr;
  void note(const std::string& line) {
    what += line;
    what += '\n';
    if (crash_note) save_note(what);
  }
  static char* crash_note;  // shared with the parent: survives a crash
  static void save_note(const std::string& s);
  void tag(const std::string& t, long n = 1) { if (tags) (*tags)[t] += n; }
  [[noreturn]] void fail(const std::string& m) { throw Fail(m); }
  void require(bool ok, const std::string& m) { if (!ok) throw Fail(m); }
};

struct Facet {
  std::string name;
  std::string rule;                 // how cases are made, when non-trivial
  std::function<void(Case&)> body;
  long quick = 1000, thorough = 20000;  // cases
  int cpu_limit_s = 60;             // CPU seconds a single case may use
  bool exclusive = false;           // facet uses its own threads: run one worker
  int reruns = 2;                   // of a crash or hang that did not come back at once
};

struct Property {
  std::string id;
  std::vector<Facet> facets;
  std::vector<std::string> assumptions;
  std::function<void()> init;      // run in every process before any case
};

int run(const Property& p, int argc, char** argv);

std::string to_utf8(const std::wstring& s);

}  // namespace pbt
