#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace pbt {
namespace {

std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
std::uint64_t hash_str(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

constexpr std::size_t kMaxChoices = 1 << 16;
struct Slot {  // shared memory, one per worker
  volatile std::uint64_t case_idx;
  volatile std::uint32_t facet;
  volatile std::uint32_t nchoices;
  volatile long evaluated, discarded, nontrivial;
  volatile int state;  // 0 idle, 1 running a case, 2 finished, 3 failed
  std::uint32_t choices[kMaxChoices];
  char message[1 << 14];
};
Slot* g_slot = nullptr;

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

void arm_cpu_limit(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

std::string json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

constexpr std::size_t kNote = 1 << 16;
}  // namespace
char* Case::crash_note = nullptr;
void Case::save_note(const std::string& s) {
  const auto n = std::min(s.size(), kNote - 1);
  memcpy(crash_note, s.data() + (s.size() - n), n);
  crash_note[n] = 0;
}
namespace {
struct Outcome {
  enum Kind { Pass, Discarded, Failed } kind = Pass;
  std::string message, what, key;
  bool nontrivial = false;
  std::vector<std::uint32_t> choices;
};

Outcome run_one(const Facet& f, Src& src, std::uint64_t cseed,
                std::map<std::string, long>* tags) {
  Case c{src, cseed};
  c.tags = tags;
  Outcome o;
  arm_cpu_limit(f.cpu_limit_s);
  try {
    f.body(c);
  } catch (const Discard&) {
    o.kind = Outcome::Discarded;
  } catch (const Fail& e) {
    o.kind = Outcome::Failed;
    o.message = e.what();
  } catch (const std::exception& e) {
    o.kind = Outcome::Failed;
    o.message = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = Outcome::Failed;
    o.message = "unexpected non-standard exception";
  }
  arm_cpu_limit(0);
  o.what = c.what;
  o.key = c.key.empty() ? c.what : c.key;
  o.nontrivial = c.nontrivial;
  o.choices = src.taken();
  return o;
}

std::string sig_name(int sig) {
  if (sig == SIGPROF) return "CPU time limit exceeded (hang)";
  return std::string("killed by signal ") + strsignal(sig);
}

// run one choice sequence in a forked child; message empty if it passes
struct Attempt {
  bool failed = false;
  std::string message, what;
  std::vector<std::uint32_t> used;
};
Attempt attempt(const Property& p, const Facet& f,
                const std::vector<std::uint32_t>& choices, int cpu_limit,
                const std::vector<std::uint64_t>& history = {}) {
  int fd[2];
  if (pipe(fd)) return {};
  g_slot->nchoices = 0;
  static char* notes = (char*)mmap(nullptr, kNote, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  notes[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    Case::crash_note = notes;
    close(fd[0]);
    if (p.init) p.init();
    Facet ff = f;
    ff.cpu_limit_s = cpu_limit;
    for (auto h : history) {  // cases the same process ran before
      Src hs(h);
      run_one(ff, hs, 0, nullptr);
    }
    g_slot->nchoices = 0;
    Src src(choices);
    auto o = run_one(ff, src, 0, nullptr);
    std::string out(1, o.kind == Outcome::Failed ? 'F' : 'P');
    std::uint32_t n = o.choices.size(), m = o.message.size();
    out.append((char*)&n, 4).append((char*)&m, 4);
    out.append((char*)o.choices.data(), 4 * n).append(o.message).append(o.what);
    for (std::size_t k = 0; k < out.size();) {
      auto w = write(fd[1], out.data() + k, out.size() - k);
      if (w <= 0) break;
      k += w;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string in;
  char buf[65536];
  ssize_t r;
  while ((r = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, r);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Attempt a;
  if (WIFSIGNALED(st) || in.size() < 9) {
    a.failed = true;
    a.message = WIFSIGNALED(st) ? sig_name(WTERMSIG(st)) : "process exited";
    a.used.assign(g_slot->choices,
                  g_slot->choices + std::min<std::size_t>(g_slot->nchoices, kMaxChoices));
    a.what = notes[0] ? std::string(notes) : "(crashed before the case could be described)";
    return a;
  }
  a.failed = in[0] == 'F';
  std::uint32_t n, m;
  memcpy(&n, &in[1], 4);
  memcpy(&m, &in[5], 4);
  a.used.resize(n);
  memcpy(a.used.data(), &in[9], 4 * n);
  a.message = in.substr(9 + 4 * n, m);
  a.what = in.substr(9 + 4 * n + m);
  return a;
}

bool simpler(const std::vector<std::uint32_t>& a, const std::vector<std::uint32_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

Attempt shrink(const Property& p, const Facet& f, Attempt best, double budget_s) {
  const double stop = now() + budget_s;
  const int cpu = std::min(f.cpu_limit_s, 20);
  auto trim = [](std::vector<std::uint32_t> v) {
    while (!v.empty() && v.back() == 0) v.pop_back();
    return v;
  };
  best.used = trim(best.used);
  auto consider = [&](std::vector<std::uint32_t> cand) {
    cand = trim(cand);
    if (!simpler(cand, best.used) || now() > stop) return false;
    auto a = attempt(p, f, cand, cpu);
    if (!a.failed) return false;
    a.used = trim(a.used);
    if (!simpler(a.used, best.used)) a.used = cand;
    best = a;
    return true;
  };
  bool progress = true;
  while (progress && now() < stop) {
    progress = false;
    for (std::size_t len = std::max<std::size_t>(1, best.used.size() / 2); len >= 1; len /= 2) {
      for (std::size_t i = 0; i < best.used.size() && now() < stop;) {
        auto c = best.used;
        c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + len));
        if (consider(c)) { progress = true; continue; }
        c = best.used;
        bool any = false;
        for (std::size_t k = i; k < std::min(c.size(), i + len); ++k) any |= c[k] != 0, c[k] = 0;
        if (any && consider(c)) progress = true;
        i += len;
      }
    }
    for (std::size_t i = 0; i < best.used.size() && now() < stop; ++i) {
      std::uint32_t lo = 0;
      while (i < best.used.size() && lo < best.used[i] && now() < stop) {
        auto c = best.used;
        c[i] = lo + (c[i] - lo) / 2;
        if (c[i] == best.used[i]) break;
        auto mid = c[i];
        if (consider(c)) progress = true;
        else lo = mid + 1;
      }
    }
  }
  return best;
}

struct Totals {
  long evaluated = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, long> tags;
};

struct Known { std::string facet, needle, text; };

}  // namespace

Src::Src(std::uint64_t seed) : replay_(false), s_(seed) {}
Src::Src(std::vector<std::uint32_t> c) : replay_(true), s_(0), in_(std::move(c)) {}
std::uint32_t Src::below(std::uint32_t n) {
  if (n <= 1) return 0;
  std::uint32_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] % n : 0;
    ++pos_;
  } else {
    s_ += 0x9e3779b97f4a7c15ull;
    v = (std::uint32_t)(((mix(s_) >> 32) * n) >> 32);
  }
  if (taken_.size() < kMaxChoices) {
    if (g_slot) {
      g_slot->choices[taken_.size()] = v;
      g_slot->nchoices = taken_.size() + 1;
    }
    taken_.push_back(v);
  }
  return v;
}

std::string to_utf8(const std::wstring& w) {
  std::string r;
  for (wchar_t wc : w) {
    std::uint32_t c = wc;
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) {
      r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63));
    } else {
      r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63));
      r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63));
    }
  }
  return r;
}

int run(const Property& p, int argc, char** argv) {
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
  std::string evidence, replay, only, replay_dir = ".", known_file;
  long cases = -1;
  int workers = 8;
  double budget = 0;
  bool verbose = false, want_shrink = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--facet") only = val();
    else if (a == "--cases") cases = atol(val().c_str());
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--known") known_file = val();
    else if (a == "--no-shrink") want_shrink = false;
    else if (a == "-v") verbose = true;
    else { std::cerr << "unknown argument " << a << "\n"; return 2; }
  }
  if (budget <= 0) budget = tier == "thorough" ? 3000 : 240;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  {  // no core files from crashing cases
    rlimit r{0, 0};
    setrlimit(RLIMIT_CORE, &r);
#ifndef __SANITIZE_THREAD__
    rlimit d{3ul << 30, 3ul << 30};  // a runaway case must not take the machine down
    setrlimit(RLIMIT_DATA, &d);
#endif
  }
  std::size_t bytes = sizeof(Slot) * workers;
  Slot* slots = (Slot*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                            MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_slot = &slots[0];

  std::vector<Known> known;  // lines: facet <TAB> needle <TAB> description
  if (!known_file.empty()) {
    std::ifstream in(known_file);
    std::string l;
    while (std::getline(in, l)) {
      if (l.empty() || l[0] == '#') continue;
      std::istringstream ss(l);
      std::string prop, facet, needle, text;
      std::getline(ss, prop, '\t');
      std::getline(ss, facet, '\t');
      std::getline(ss, needle, '\t');
      std::getline(ss, text, '\t');
      if (prop == p.id) known.push_back({facet, needle, text});
    }
  }

  if (!replay.empty()) {
    std::ifstream in(replay);
    std::string line, facet;
    std::vector<std::uint32_t> ch;
    std::vector<std::uint64_t> hist;
    while (std::getline(in, line)) {
      if (line.rfind("history=", 0) == 0) {
        std::istringstream ss(line.substr(8));
        std::uint64_t v;
        while (ss >> v) hist.push_back(v);
      }
      if (line.rfind("facet=", 0) == 0) facet = line.substr(6);
      if (line.rfind("choices=", 0) == 0) {
        std::istringstream ss(line.substr(8));
        std::uint32_t v;
        while (ss >> v) ch.push_back(v);
      }
    }
    for (auto& f : p.facets)
      if (f.name == facet) {
        auto a = attempt(p, f, ch, f.cpu_limit_s, hist);
        std::cout << a.what << (a.failed ? "FAILED: " + a.message : "passed") << "\n";
        if (a.failed) {
          std::cout << "VIOLATION property=" << p.id << " replay=" << replay << "\n";
          return 1;
        }
        return 0;
      }
    std::cerr << "no facet '" << facet << "'\n";
    return 2;
  }

  const double t0 = now();
  std::vector<Totals> totals(p.facets.size());
  struct Violation { std::size_t facet; Attempt a; std::uint64_t idx; std::vector<std::uint64_t> history; bool asserted; };
  long inconclusive = 0;
  std::vector<Violation> violations;
  std::map<std::string, long> known_hits;
  bool out_of_time = false;
  char tmpl[] = "/tmp/pbt.XXXXXX";
  std::string dir = mkdtemp(tmpl);

  for (std::size_t fi = 0; fi < p.facets.size(); ++fi) {
    const Facet& f = p.facets[fi];
    if (!only.empty() && f.name != only) continue;
    const long n = cases >= 0 ? cases : (tier == "thorough" ? f.thorough : f.quick);
    const int W = f.exclusive ? 1 : workers;
    const std::uint64_t fseed = mix(seed ^ hash_str(p.id + "/" + f.name));
    const double tf = now();
    std::vector<pid_t> pids(W, 0);
    std::vector<std::uint64_t> next(W);
    auto spawn = [&](int w) {
      Slot& sl = slots[w];
      sl.state = 0;
      pid_t pid = fork();
      if (pid == 0) {
        g_slot = &sl;
        if (p.init) p.init();
        std::ofstream out(dir + "/" + std::to_string(fi) + "." + std::to_string(w),
                          std::ios::app | std::ios::binary);
        std::map<std::string, long> tags;
        int nsamp = 0;
        for (std::uint64_t k = next[w]; k < (std::uint64_t)n; k += W) {
          if (now() - t0 > budget) break;
          sl.case_idx = k;
          sl.facet = fi;
          sl.nchoices = 0;
          sl.state = 1;
          Src src(mix(fseed + k * 0x9e3779b97f4a7c15ull));
          auto o = run_one(f, src, k, &tags);
          if (o.kind == Outcome::Failed) {
            strncpy(sl.message, o.message.c_str(), sizeof sl.message - 1);
            sl.state = 3;
            for (auto& [t, v] : tags) out << "T " << v << " " << t << "\n";
            out.flush();
            _exit(9);
          }
          if (o.kind == Outcome::Discarded) sl.discarded = sl.discarded + 1;
          else {
            sl.evaluated = sl.evaluated + 1;
            if (o.nontrivial) {
              sl.nontrivial = sl.nontrivial + 1;
              out << "H " << hash_str(o.key) << "\n";
              if (nsamp < 2 && o.what.size() < 2000) {
                ++nsamp;
                std::string s = o.what;
                for (auto& ch : s) if (ch == '\n') ch = '\x01';
                out << "S " << s << "\n";
              }
            }
          }
        }
        sl.state = 2;
        for (auto& [t, v] : tags) out << "T " << v << " " << t << "\n";
        out.flush();
        _exit(0);
      }
      pids[w] = pid;
    };
    for (int w = 0; w < W; ++w) {
      slots[w].evaluated = slots[w].discarded = slots[w].nontrivial = 0;
      next[w] = w;
      spawn(w);
    }
    int alive = W, restarts = 0;
    while (alive > 0) {
      int st;
      pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) break;
      int w = -1;
      for (int k = 0; k < W; ++k) if (pids[k] == pid) w = k;
      if (w < 0) continue;
      Slot& sl = slots[w];
      --alive;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl.state == 2) continue;
      Attempt a;
      a.failed = true;
      a.used.assign(sl.choices, sl.choices + std::min<std::size_t>(sl.nchoices, kMaxChoices));
      a.message = sl.state == 3 ? std::string(sl.message)
                : WIFSIGNALED(st) ? sig_name(WTERMSIG(st)) : "process exited";
      bool is_known = false;
      // a listed finding is recognised on a rerun, where the description is known
      if (!known.empty()) {
        auto saved = g_slot;
        Slot* tmp = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_slot = tmp;
        auto r = attempt(p, f, a.used, f.cpu_limit_s);
        g_slot = saved;
        munmap(tmp, sizeof(Slot));
        for (auto& k : known)
          if (k.facet == f.name && (r.message + "\n" + r.what).find(k.needle) != std::string::npos) {
            ++known_hits[k.text];
            is_known = true;
            break;
          }
      }
      if (is_known && restarts < 100000) {
        ++restarts;
        next[w] = sl.case_idx + W;
        spawn(w);
        ++alive;
        continue;
      }
      std::vector<std::uint64_t> hist;  // what this process had run before
      for (std::uint64_t k = next[w]; k < sl.case_idx; k += W)
        hist.push_back(mix(fseed + k * 0x9e3779b97f4a7c15ull));
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {  // ended from outside (memory)
        ++inconclusive;
        next[w] = sl.case_idx + W;
        spawn(w);
        ++alive;
        continue;
      }
      violations.push_back({fi, a, sl.case_idx, hist, sl.state == 3});
      // stop the others
      for (int k = 0; k < W; ++k)
        if (k != w && pids[k] > 0) kill(pids[k], SIGKILL);
      while (alive > 0 && waitpid(-1, &st, 0) > 0) --alive;
    }
    auto& T = totals[fi];
    for (int w = 0; w < W; ++w) {
      T.evaluated += slots[w].evaluated;
      T.discarded += slots[w].discarded;
      T.nontrivial += slots[w].nontrivial;
      std::string fn = dir + "/" + std::to_string(fi) + "." + std::to_string(w);
      std::ifstream in(fn, std::ios::binary);
      std::string l;
      while (std::getline(in, l)) {
        if (l.size() < 2) continue;
        if (l[0] == 'H') T.distinct.insert(strtoull(l.c_str() + 2, 0, 10));
        if (l[0] == 'S' && T.samples.size() < 3) {
          for (auto& ch : l) if (ch == '\x01') ch = '\n';
          T.samples.push_back(l.substr(2));
        }
        if (l[0] == 'T') {
          auto sp = l.find(' ', 2);
          T.tags[l.substr(sp + 1)] += atol(l.c_str() + 2);
        }
      }
      unlink(fn.c_str());
    }
    printf("facet %-28s evaluated=%ld discarded=%ld nontrivial=%ld distinct=%zu %.1fs\n",
           f.name.c_str(), T.evaluated, T.discarded, T.nontrivial, T.distinct.size(), now() - tf);
    if (verbose) for (auto& [t, v] : T.tags) printf("    %-40s %ld\n", t.c_str(), v);
    if (!violations.empty()) break;
    if (now() - t0 > budget) { out_of_time = true; break; }
  }
  rmdir(dir.c_str());

  std::string replay_path;
  long reported = 0;
  for (auto& v : violations) {
    const Facet& f = p.facets[v.facet];
    g_slot = &slots[0];
    Attempt best = v.a;
    std::string original = v.a.message;
    auto again = attempt(p, f, v.a.used, f.cpu_limit_s);
    for (int k = 0; k < f.reruns && !again.failed; ++k) again = attempt(p, f, v.a.used, f.cpu_limit_s);
    bool reproduced = again.failed, with_history = false;
    if (!reproduced) {  // depends on earlier cases of the process: shortest suffix that does it
      for (std::size_t len = 1;; len = std::min(len * 4, v.history.size())) {
        std::vector<std::uint64_t> h(v.history.end() - std::min(len, v.history.size()), v.history.end());
        auto r = attempt(p, f, v.a.used, f.cpu_limit_s * 4, h);
        if (r.failed) {
          with_history = true;
          v.history = h;
          best = r;
          best.used = v.a.used;
          break;
        }
        if (len >= v.history.size()) break;
      }
    }
    if (!reproduced && !with_history && !v.asserted) {  // a crash or hang that never came back
      std::cout << "facet " << f.name << ": '" << original << "' did not come back on reruns; inconclusive\n";
      ++inconclusive;
      continue;
    }
    ++reported;
    if (reproduced) {
      again.used = v.a.used;
      best = want_shrink ? shrink(p, f, again, tier == "thorough" ? 120 : 45) : again;
    }
    mkdir(replay_dir.c_str(), 0777);
    replay_path = replay_dir + "/" + p.id + "." + f.name + ".replay";
    std::ofstream out(replay_path);
    out << "property=" << p.id << "\nfacet=" << f.name << "\nseed=" << seed << " case=" << v.idx
        << "\nreproduced_in_fresh_process=" << (reproduced ? "yes" : with_history ? "with history" : "no");
    if (with_history) {
      out << "\nhistory=";
      for (auto h : v.history) out << h << ' ';
    }
    out << "\nchoices=";
    for (auto c : best.used) out << c << ' ';
    out << "\nmessage=" << best.message << "\noriginal_message=" << original
        << "\n--- input ---\n" << best.what << "\n";
    std::cout << "facet " << f.name << " case " << v.idx << (reproduced ? "" : with_history ? " (needs the earlier cases listed in the replay file)" : " (not reproduced in a fresh process)")
              << "\n" << best.what << "\n" << best.message << "\n";
    std::cout << "VIOLATION property=" << p.id << " replay=" << replay_path << "\n";
  }
  for (auto& [t, n] : known_hits)
    std::cout << "KNOWN-FINDING: property=" << p.id << " " << t << " (met " << n << " times)\n";

  long ev = 0, dn = 0, disc = 0;
  for (auto& T : totals) ev += T.evaluated, dn += T.distinct.size(), disc += T.discarded;
  const double wall = now() - t0;
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\"property\":" << json(p.id) << ",\"tier\":" << json(tier) << ",\"seed\":" << seed
      << ",\"level\":\"exploration\",\"coverage\":{\"evaluations\":" << ev
      << ",\"distinct_nontrivial\":" << dn << ",\"discarded\":" << disc << ",\"rule\":";
    std::string rule;
    for (auto& f : p.facets) rule += "[" + f.name + "] " + f.rule + " ";
    o << json(rule) << ",\"samples\":[";
    bool first = true;
    for (std::size_t i = 0; i < totals.size(); ++i)
      for (auto& s : totals[i].samples) {
        o << (first ? "" : ",") << json("[" + p.facets[i].name + "] " + s);
        first = false;
      }
    o << "],\"facets\":{";
    for (std::size_t i = 0; i < totals.size(); ++i) {
      auto& T = totals[i];
      o << (i ? "," : "") << json(p.facets[i].name) << ":{\"evaluations\":" << T.evaluated
        << ",\"discarded\":" << T.discarded << ",\"nontrivial\":" << T.nontrivial
        << ",\"distinct_nontrivial\":" << T.distinct.size() << ",\"tags\":{";
      bool ft = true;
      for (auto& [t, v] : T.tags) { o << (ft ? "" : ",") << json(t) << ":" << v; ft = false; }
      o << "}}";
    }
    o << "},\"stopped_by_time_budget\":" << (out_of_time ? "true" : "false")
      << ",\"inconclusive\":" << inconclusive << ",\"known_findings_met\":" << known_hits.size() << "},\"assumptions\":[";
    for (std::size_t i = 0; i < p.assumptions.size(); ++i)
      o << (i ? "," : "") << json(p.assumptions[i]);
    o << "],\"wall_s\":" << wall << ",\"violations\":" << reported << "}\n";
  }
  printf("property %s: %ld cases, %ld distinct non-trivial, %ld discarded, %.1fs%s\n", p.id.c_str(),
         ev, dn, disc, wall, out_of_time ? " (time budget reached)" : "");
  return reported ? 1 : 0;
}

}  // namespace pbt
