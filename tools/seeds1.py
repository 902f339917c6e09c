from mkseed import *
make("c01-rehash-key", "C01", "a computation table that grows past its load factor with two old entries landing in one new slot",
 "rehashing keeps the first key but stores the last value, so a later lookup returns the result of another operation",
 [("src/bdd.h", """      new_entry.first = entry.first;
      if (!new_entry.second)
        ++new_size;
""", """      if (!new_entry.second) {
        new_entry.first = entry.first;
        ++new_size;
      }
""")], {"demo.cc": r'''
#include <cstdio>
#include "bdd.h"
#include "zbdd.h"
using namespace scram::core;
int main() {
  // Every entry that is found must be the one stored under its key.
  CacheTable<std::optional<int>> table(3);
  for (int n = 0; n < 4000; ++n) {
    table.emplace({n, 7 * n + 1}, std::optional<int>(n));
    for (int k = n; k >= 0 && k > n - 40; --k) {
      auto it = table.find({k, 7 * k + 1});
      if (it != table.end() && *it->second != k) {
        std::printf("key %d gives the value of key %d\n", k, *it->second);
        return 1;
      }
    }
  }
  return 0;
}
'''}, CPP)
make("c15-prob-off-sil", "C15", "SIL analysis requested first, probability analysis switched off afterwards",
 "probability analysis can be switched off under a requested SIL analysis",
 [("src/settings.h", "    if (!importance_analysis_ && !uncertainty_analysis_ &&\n        !safety_integrity_levels_) {", "    if (!importance_analysis_ && !uncertainty_analysis_) {")],
 {"demo.cc": r'''
#include "settings.h"
int main() {
  scram::core::Settings s;
  s.time_step(1).safety_integrity_levels(true);
  s.probability_analysis(false);
  return s.safety_integrity_levels() && !s.probability_analysis();
}
'''}, CPP)
make("c15-step-zero", "C15", "a time step, then SIL analysis, then the step reset to zero",
 "the time step can be zero with SIL analysis on",
 [("src/settings.cc", "if (!time && safety_integrity_levels_)", "if (!time && safety_integrity_levels_ && !probability_analysis_)")],
 {"demo.cc": r'''
#include "error.h"
#include "settings.h"
int main() {
  scram::core::Settings s;
  s.time_step(1).safety_integrity_levels(true);
  try { s.time_step(0); } catch (const scram::SettingsError&) { return 0; }
  return s.safety_integrity_levels() && s.time_step() == 0;
}
'''}, CPP)
