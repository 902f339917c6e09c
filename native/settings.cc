// C15: settings consistency under arbitrary setter histories.
#include <cmath>
#include <limits>
#include "common.h"
#include "error.h"
#include "settings.h"
using namespace nat;
using namespace scram::core;

namespace {
struct Model {  // the reference
  int alg = 0, apx = 0, order = 20, seed = 0, trials = 1000, quant = 20, bins = 20;
  double mission = 8760, step = 0, cut = 1e-8;
  bool prob = false, sil = false, imp = false, unc = false, ccf = false, pi = false;
};

double pick_double(Rng& r) {
  static const double v[] = {0, -0.0, 1, -1, 0.5, 1e-8, 8760, -1e-300, 1e-320, 1.0000001,
                             std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                             -std::numeric_limits<double>::infinity(), 1e300};
  return v[r.below(sizeof v / sizeof *v)];
}
int pick_int(Rng& r) {
  static const int v[] = {0, 1, -1, 2, 20, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 7};
  return v[r.below(8)];
}

void compare(const Settings& s, const Model& m) {
  auto eq = [](const char* n, double a, double b) {
    if (!(a == b)) fail(std::string(n) + " is " + num(a) + ", expected " + num(b));
  };
  eq("algorithm", static_cast<int>(s.algorithm()), m.alg);
  eq("approximation", static_cast<int>(s.approximation()), m.apx);
  eq("prime implicants", s.prime_implicants(), m.pi);
  eq("limit order", s.limit_order(), m.order);
  eq("seed", s.seed(), m.seed);
  eq("trials", s.num_trials(), m.trials);
  eq("quantiles", s.num_quantiles(), m.quant);
  eq("bins", s.num_bins(), m.bins);
  eq("mission time", s.mission_time(), m.mission);
  eq("time step", s.time_step(), m.step);
  eq("cut-off", s.cut_off(), m.cut);
  eq("probability", s.probability_analysis(), m.prob);
  eq("sil", s.safety_integrity_levels(), m.sil);
  eq("importance", s.importance_analysis(), m.imp);
  eq("uncertainty", s.uncertainty_analysis(), m.unc);
  eq("ccf", s.ccf_analysis(), m.ccf);
  if (m.pi && (m.alg != 0 || m.apx != 0)) fail("reference inconsistency");
}

void run_C15(Run& run) {
  run.cases([](Rng& r, long) {
    Settings s;
    Model m;
    std::string log;
    describe("defaults");
    compare(s, m);
    int n = r.range(2, 12);
    for (int i = 0; i < n; ++i) {
      bool expect_throw = false, threw = false;
      std::function<void()> act;
      bool b = r.below(2);
      int k = pick_int(r);
      double d = pick_double(r);
      Model w = m;
      std::string what;
      switch (r.below(18)) {
        case 0: {
          int a = r.below(3);
          what = "algorithm(" + std::to_string(a) + ")";
          act = [&s, a] { s.algorithm(static_cast<Algorithm>(a)); };
          w.alg = a;
          if (a == 0) w.apx = 0;
          else { if (w.apx == 0) w.apx = 1; w.pi = false; }
          break;
        }
        case 1: {
          static const char* names[] = {"bdd", "zbdd", "mocus", "BDD", "", "mocu"};
          int a = r.below(6);
          what = std::string("algorithm(\"") + names[a] + "\")";
          act = [&s, a] { s.algorithm(names[a]); };
          if (a > 2) { expect_throw = true; break; }
          w.alg = a;
          if (a == 0) w.apx = 0;
          else { if (w.apx == 0) w.apx = 1; w.pi = false; }
          break;
        }
        case 2: {
          int a = r.below(3);
          what = "approximation(" + std::to_string(a) + ")";
          act = [&s, a] { s.approximation(static_cast<Approximation>(a)); };
          expect_throw = a != 0 && m.pi;
          w.apx = a;
          break;
        }
        case 3: {
          static const char* names[] = {"none", "rare-event", "mcub", "rare_event", "x"};
          int a = r.below(5);
          what = std::string("approximation(\"") + names[a] + "\")";
          act = [&s, a] { s.approximation(names[a]); };
          expect_throw = a > 2 || (a != 0 && m.pi);
          w.apx = a;
          break;
        }
        case 4: case 17:
          what = "prime_implicants(" + std::to_string(b) + ")";
          act = [&s, b] { s.prime_implicants(b); };
          expect_throw = b && m.alg != 0;
          w.pi = b;
          if (b) w.apx = 0;
          break;
        case 5: what = "limit_order(" + std::to_string(k) + ")"; act = [&s, k] { s.limit_order(k); }; expect_throw = k < 0; w.order = k; break;
        case 6: what = "seed(" + std::to_string(k) + ")"; act = [&s, k] { s.seed(k); }; expect_throw = k < 0; w.seed = k; break;
        case 7: what = "num_trials(" + std::to_string(k) + ")"; act = [&s, k] { s.num_trials(k); }; expect_throw = k < 1; w.trials = k; break;
        case 8: what = "num_quantiles(" + std::to_string(k) + ")"; act = [&s, k] { s.num_quantiles(k); }; expect_throw = k < 1; w.quant = k; break;
        case 9: what = "num_bins(" + std::to_string(k) + ")"; act = [&s, k] { s.num_bins(k); }; expect_throw = k < 1; w.bins = k; break;
        case 10: what = "cut_off(" + num(d) + ")"; act = [&s, d] { s.cut_off(d); }; expect_throw = !(d >= 0 && d <= 1); w.cut = d; break;
        case 11: what = "mission_time(" + num(d) + ")"; act = [&s, d] { s.mission_time(d); }; expect_throw = !(d >= 0); w.mission = d; break;
        case 12: what = "time_step(" + num(d) + ")"; act = [&s, d] { s.time_step(d); }; expect_throw = !(d >= 0) || (d == 0 && m.sil); w.step = d; break;
        case 13:
          what = "safety_integrity_levels(" + std::to_string(b) + ")";
          act = [&s, b] { s.safety_integrity_levels(b); };
          expect_throw = b && m.step == 0;
          w.sil = b;
          if (b) w.prob = true;
          break;
        case 14: what = "importance(" + std::to_string(b) + ")"; act = [&s, b] { s.importance_analysis(b); }; w.imp = b; if (b) w.prob = true; break;
        case 15: what = "uncertainty(" + std::to_string(b) + ")"; act = [&s, b] { s.uncertainty_analysis(b); }; w.unc = b; if (b) w.prob = true; break;
        case 16:
          if (r.below(2)) { what = "ccf(" + std::to_string(b) + ")"; act = [&s, b] { s.ccf_analysis(b); }; w.ccf = b; }
          else {
            what = "probability(" + std::to_string(b) + ")";
            act = [&s, b] { s.probability_analysis(b); };
            if (!m.imp && !m.unc && !m.sil) w.prob = b;
          }
          break;
      }
      log += what + "; ";
      describe(log);
      try {
        act();
      } catch (const scram::SettingsError&) {
        threw = true;
      }
      if (threw != expect_throw) fail(what + (threw ? " threw unexpectedly" : " accepted an invalid value"));
      if (!threw) m = w;
      compare(s, m);
    }
  }, 20000);
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C15", run_C15}}); }
