// Common parts of the native (bounded) harnesses.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace nat {

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : static_cast<int>(next() % n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uniform() < p; }
};

inline std::string g_desc, g_prop;
inline long g_case = 0, g_evals = 0;
inline std::unordered_set<std::size_t> g_distinct;
inline std::vector<std::string> g_samples;
inline std::set<std::string> g_known, g_known_seen;

inline void out(const std::string& s) {
  std::fwrite(s.data(), 1, s.size(), stdout);
  std::fputc('\n', stdout);
  std::fflush(stdout);
}

/// Registers the current input (for reports and for counting).
inline void describe(const std::string& d, bool nontrivial = true) {
  g_desc = d;
  ++g_evals;
  if (nontrivial) {
    if (g_distinct.insert(std::hash<std::string>()(d)).second && g_samples.size() < 3)
      g_samples.push_back(d);
  }
}

inline std::string flat(std::string s) {
  for (char& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  return s;
}

/// Reports a violation by the current input. A label identifies the defect:
/// labels of the known-findings file are reported apart.
inline void fail(const std::string& what, const std::string& label = "") {
  if (!label.empty() && g_known.count(label)) {
    if (g_known_seen.insert(label).second)
      out("KNOWN label=" + label + " case=" + std::to_string(g_case) + " :: " + flat(what));
    return;
  }
  out("FAIL case=" + std::to_string(g_case) + (label.empty() ? "" : " label=" + label) + " :: input: " +
      flat(g_desc).substr(0, 3000) + " :: " + flat(what));
  std::fflush(stdout);
  std::_Exit(1);
}

inline void on_signal(int sig) {
  char buf[256];
  int n = std::snprintf(buf, sizeof buf, "FAIL case=%ld :: crash by signal %d :: input: ", g_case, sig);
  (void)!write(1, buf, n);
  std::string d = flat(g_desc).substr(0, 3000);
  (void)!write(1, d.data(), d.size());
  (void)!write(1, "\n", 1);
  _exit(1);
}

struct Run {
  double budget;
  std::uint64_t seed;
  long only = -1;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  long max_cases = 1L << 60;
  double elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  }
  /// Iterates over numbered cases until the time is up.
  void cases(const std::function<void(Rng&, long)>& f, long min_cases = 50) {
    if (only >= 0) {
      g_case = only;
      Rng r(seed * 1000003 + only);
      f(r, only);
      return;
    }
    for (long i = 0; i < max_cases && (i < min_cases || elapsed() < budget) && elapsed() < budget * 4 + 20; ++i) {
      g_case = i;
      Rng r(seed * 1000003 + i);
      f(r, i);
    }
  }
};

using Prop = std::function<void(Run&)>;

inline int drive(int argc, char** argv, const std::map<std::string, Prop>& props) {
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) std::signal(s, on_signal);
  std::set_terminate([] {
    std::string what = "std::terminate";
    out("FAIL case=" + std::to_string(g_case) + " :: terminate :: input: " + flat(g_desc).substr(0, 3000));
    std::_Exit(1);
  });
  // usage: harness PROP BUDGET SEED [--case N] [--known label]...
  if (argc < 4) return 2;
  g_prop = argv[1];
  auto it = props.find(g_prop);
  if (it == props.end()) return 2;
  Run run{std::atof(argv[2]), std::strtoull(argv[3], nullptr, 10)};
  for (int i = 4; i + 1 < argc; i += 2) {
    if (!std::strcmp(argv[i], "--case")) run.only = std::atol(argv[i + 1]);
    if (!std::strcmp(argv[i], "--known")) g_known.insert(argv[i + 1]);
  }
  try {
    it->second(run);
  } catch (const std::exception& e) {
    fail(std::string("unexpected exception: ") + e.what());
  }
  for (auto& s : g_samples) out("SAMPLE " + flat(s).substr(0, 600));
  out("OK evaluations=" + std::to_string(g_evals) + " distinct=" + std::to_string(g_distinct.size()));
  return 0;
}

inline std::string num(double x) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}

inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (a == b) return true;
  double d = a > b ? a - b : b - a;
  double m = (a < 0 ? -a : a) > (b < 0 ? -b : b) ? (a < 0 ? -a : a) : (b < 0 ? -b : b);
  return d <= abs || d <= rel * m;
}

}  // namespace nat
