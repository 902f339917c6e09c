// End-to-end checks of the fault tree analysis against brute force.
#include <cmath>
#include "ft.h"
using namespace nat;
using namespace ft;
namespace core = scram::core;

namespace {

std::string sfx(const core::Settings& s) { return " limit=" + std::to_string(s.limit_order()); }

// ------------------------------------------------------------------ C01
bool bdd_value(const core::Bdd& bdd, const core::Bdd::Function& f, const std::map<int, bool>& var) {
  bool neg = f.complement;
  core::Bdd::VertexPtr v = f.vertex;
  while (!v->terminal()) {
    core::Ite& ite = core::Ite::Ref(v);
    bool x;
    if (ite.module()) x = bdd_value(bdd, bdd.modules().find(ite.index())->second, var);
    else x = var.at(ite.index());
    if (x) v = ite.high();
    else neg ^= ite.complement_edge(), v = ite.low();
  }
  return !neg;
}

// The computation table never gives back a value of another key.
void cache_table(Rng& r) {
  describe("computation table, seed " + std::to_string(r.s));
  core::CacheTable<std::shared_ptr<int>> t(r.range(1, 60));
  std::map<std::pair<int, int>, int> last;
  int range = r.range(5, 300);
  std::string log;
  for (int n = 0, e = r.range(20, 600); n < e; ++n) {
    std::pair<int, int> k(r.range(-range, range), r.range(-range, range));
    switch (r.below(30)) {
      case 0: t.reserve(r.range(1, 300)); break;
      case 1: if (r.chance(0.1)) t.clear(), last.clear(); break;
      default:
        t.emplace(k, std::make_shared<int>(n));
        last[k] = n;
        auto it = t.find(k);
        if (it == t.end() || *it->second != n) fail("the value just stored is not found");
    }
    k = {r.range(-range, range), r.range(-range, range)};
    auto it = t.find(k);
    if (it != t.end() && (it->first != k || !last.count(k) || *it->second != last[k])) fail("a stale value is found");
    if (r.chance(0.05)) {
      int hits = 0;
      for (auto& [key, v] : last) {
        auto f = t.find(key);
        if (f == t.end()) continue;
        ++hits;
        if (*f->second != v) fail("the value of another key is found");
      }
      if (hits != t.size()) fail("size() is " + std::to_string(t.size()) + " of " + std::to_string(hits) + " entries");
    }
  }
}

void run_C01(Run& run) {
  run.cases([](Rng& r, long n) {
    if (n % 7 == 3) return cache_table(r);
    Options o;
    o.coherent = r.chance(0.3);
    o.max_events = 7;
    Tree t = random_tree(r, o);
    describe(t.str());
    Built b = build(t);
    core::Pdag g(b.root());
    core::CustomPreprocessor<core::Bdd>{&g}();
    core::Settings s;
    core::Bdd bdd(&g, s);
    for (unsigned x = 0; x < (1u << t.n); ++x) {
      PdagEval e = pdag_eval(g, b, x);
      bool want = e.root();
      bool got = bdd_value(bdd, bdd.root(), e.var);
      if (want != got) fail("BDD value differs from the graph at assignment " + std::to_string(x));
      if (got != t.eval(x)) fail("BDD value differs from the fault tree at assignment " + std::to_string(x));
    }
  });
}

// ------------------------------------------------------------------ C03
template <class A>
Sets products(const Tree& t, const Built& b, core::Algorithm a, int limit, bool pi, const char* who, std::vector<int>* dist = nullptr) {
  core::Settings s;
  s.algorithm(a);
  if (pi) s.prime_implicants(true);
  s.limit_order(limit);
  core::FaultTreeAnalyzer<A> fta(b.root(), s);
  fta.Analyze();
  Sets r = collect(fta.products(), b, who);
  // Consistency of the container.
  int n = 0;
  std::map<int, int> orders;
  std::set<int> events;
  for (auto& p : r) {
    ++n;
    ++orders[p.empty() ? 1 : p.size()];
    for (int l : p) events.insert(std::abs(l));
  }
  if (fta.products().size() != n) fail(std::string(who) + ": size() is " + std::to_string(fta.products().size()) + " of " + std::to_string(n));
  const auto& d = fta.products().distribution();
  for (int i = 0; i < (int)d.size() || i < 10; ++i) {
    int got = i < (int)d.size() ? d[i] : 0;
    if (got != orders[i + 1]) fail(std::string(who) + ": distribution at order " + std::to_string(i + 1) + " is " + std::to_string(got));
  }
  if (fta.products().product_events().size() != events.size()) fail(std::string(who) + ": product events");
  for (auto* e : fta.products().product_events())
    if (!events.count(b.index.at(e) + 1)) fail(std::string(who) + ": product events hold a stranger");
  return r;
}

/// Two wide disjunctions of pairs, a_i b_i and b_i c_i, under a conjunction, and maybe an event at the top:
/// a low limit cuts off all or most of their arguments.
void wide(Rng& r) {
  Tree t;
  int pairs = r.range(9, 30), limit = r.range(1, 3);
  t.n = 3 * pairs + 1;
  t.house = {false, true};
  t.p.assign(t.n, 0.1);
  GateSpec both;
  both.conn = mef::kAnd;
  std::vector<int> gates[2];
  Sets want;
  for (int side = 0; side < 2; ++side)
    for (int i = 0; i < pairs; ++i) {
      GateSpec g;
      g.conn = mef::kAnd;
      g.args = {Arg{0, 3 * i + side, false}, Arg{0, 3 * i + side + 1, false}};
      gates[side].push_back(t.gates.size());
      t.gates.push_back(g);
      if (side && limit == 3) want.insert({3 * i + 1, 3 * i + 2, 3 * i + 3});
    }
  for (auto& side : gates) {
    GateSpec g;
    g.conn = mef::kOr;
    for (int k : side) g.args.push_back(Arg{1, k, false});
    both.args.push_back(Arg{1, (int)t.gates.size(), false});
    t.gates.push_back(g);
  }
  t.gates.push_back(both);
  if (r.chance(0.5)) {
    GateSpec top;
    top.conn = mef::kOr;
    top.args = {Arg{1, (int)t.gates.size() - 1, false}, Arg{0, t.n - 1, false}};
    t.gates.push_back(top);
    want.insert({t.n});
  }
  describe(t.str() + " limit=" + std::to_string(limit));
  Built b = build(t);
  Sets got = products<core::Zbdd>(t, b, core::Algorithm::kZbdd, limit, false, "ZBDD");
  if (got != want) fail("ZBDD gives " + str(got) + ", expected " + str(want));
  got = products<core::Mocus>(t, b, core::Algorithm::kMocus, limit, false, "MOCUS");
  if (got != want) fail("MOCUS gives " + str(got) + ", expected " + str(want));
}

void run_C03(Run& run) {
  run.cases([](Rng& r, long n) {
    if (n % 40 == 7) return wide(r);
    Options o;
    o.coherent = r.chance(0.7);
    o.max_events = o.coherent ? 8 : 6;
    o.max_gates = 9;
    Tree t = random_tree(r, o);
    // Products of non-coherent models are limited with their complements.
    int limit = !o.coherent || r.chance(0.5) ? 20 : r.range(1, 5);
    describe(t.str() + " limit=" + std::to_string(limit));
    Built b = build(t);
    Sets want = min_cuts(t.table(), limit);
    auto cmp = [&](const Sets& got, const char* who) {
      if (got != want) fail(std::string(who) + " gives " + str(got) + ", expected " + str(want));
    };
    cmp(products<core::Bdd>(t, b, core::Algorithm::kBdd, limit, false, "BDD"), "BDD");
    cmp(products<core::Zbdd>(t, b, core::Algorithm::kZbdd, limit, false, "ZBDD"), "ZBDD");
    cmp(products<core::Mocus>(t, b, core::Algorithm::kMocus, limit, false, "MOCUS"), "MOCUS");
  });
}

void run_C04(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.max_events = 5;
    o.coherent = r.chance(0.2);
    Tree t = random_tree(r, o);
    int limit = 20;
    describe(t.str());
    Built b = build(t);
    Sets want = primes(t.table(), t.n);
    Sets got = products<core::Bdd>(t, b, core::Algorithm::kBdd, limit, true, "BDD");
    if (got != want) fail("prime implicants are " + str(got) + ", expected " + str(want));
  });
}

// ------------------------------------------------------------------ C05
/// Declarative substitutions (implications) are part of the function, whatever algorithm finds the products.
void check_substitutions(Rng& r, const Tree& t, const Built& b) {
  mef::Model model("model");
  auto tab = t.table();
  std::string d = t.str();
  for (int k = 0, n = r.range(1, 2); k < n; ++k) {
    auto sub = std::make_unique<mef::Substitution>("s" + std::to_string(k));
    bool any = r.chance(0.5), drop = r.chance(0.4);
    mef::Formula::ArgSet args;
    unsigned mask = 0;
    for (int i = 0; i < t.n; ++i)
      if (__builtin_popcount(mask) < 2 || r.chance(0.2)) mask |= 1u << i, args.Add(b.basics[i].get());
    int target = r.below(t.n);
    if (mask >> target & 1) drop = true;
    sub->hypothesis(std::make_unique<mef::Formula>(any ? mef::kOr : mef::kAnd, args));
    if (drop) sub->target(false);
    else sub->target(b.basics[target].get());
    model.Add(std::move(sub));
    d += std::string(" if ") + (any ? "any" : "all") + " of mask " + std::to_string(mask) + " then " + (drop ? "false" : "B" + std::to_string(target));
    for (unsigned x = 0; x < tab.size(); ++x)
      if (any ? (x & mask) != 0 : (x & mask) == mask) tab[x] = tab[x] && !drop && (x >> target & 1);
  }
  describe(d);
  double want = prob(tab, t.p);
  core::Settings s;
  s.probability_analysis(true);
  mef::MissionTime mt(1);
  auto check = [&](double got, const char* who) {
    if (!close(got, want, 1e-9, 1e-12)) fail(std::string(who) + " probability with substitutions " + num(got) + ", expected " + num(want));
  };
  {
    core::FaultTreeAnalyzer<core::Bdd> fta(b.root(), s, &model);
    fta.Analyze();
    core::ProbabilityAnalyzer<core::Bdd> pa(&fta, &mt);
    pa.Analyze();
    check(pa.p_total(), "BDD");
  }
  s.algorithm(core::Algorithm::kZbdd);
  s.approximation(core::Approximation::kNone);
  core::FaultTreeAnalyzer<core::Zbdd> fta(b.root(), s, &model);
  fta.Analyze();
  core::ProbabilityAnalyzer<core::Bdd> pa(&fta, &mt);
  pa.Analyze();
  check(pa.p_total(), "ZBDD+BDD");
}

void run_C05(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.3);
    o.max_events = 7;
    Tree t = random_tree(r, o);
    describe(t.str());
    Built b = build(t);
    if (r.chance(0.25)) return check_substitutions(r, t, b);
    double want = prob(t.table(), t.p);
    auto check = [&](double got, const char* who) {
      if (!(got >= 0 && got <= 1)) fail(std::string(who) + " probability " + num(got) + " outside [0, 1]");
      if (!close(got, want, 1e-9, 1e-12)) fail(std::string(who) + " probability " + num(got) + ", expected " + num(want));
    };
    core::Settings s;
    s.probability_analysis(true);
    mef::MissionTime mt(1);
    {
      core::FaultTreeAnalyzer<core::Bdd> fta(b.root(), s);
      fta.Analyze();
      core::ProbabilityAnalyzer<core::Bdd> pa(&fta, &mt);
      pa.Analyze();
      check(pa.p_total(), "BDD");
      // Any other probabilities on the same analyzer.
      auto pv = pa.p_vars();
      std::vector<double> p2(t.n);
      for (int i = 0; i < t.n; ++i) p2[i] = t.p[i];
      int k = 0;
      for (const mef::BasicEvent* e : pa.graph()->basic_events()) {
        p2[b.index.at(e)] = pv[core::Pdag::kVariableStartIndex + k] = r.uniform();
        ++k;
      }
      want = prob(t.table(), p2);
      check(pa.CalculateTotalProbability(pv), "BDD (second pass)");
      want = prob(t.table(), t.p);
      check(pa.CalculateTotalProbability(pa.p_vars()), "BDD (third pass)");
    }
    if (r.chance(0.5)) {
      core::Settings z = s;
      z.algorithm(core::Algorithm::kZbdd);
      z.approximation(core::Approximation::kNone);
      core::FaultTreeAnalyzer<core::Zbdd> fta(b.root(), z);
      fta.Analyze();
      core::ProbabilityAnalyzer<core::Bdd> pa(&fta, &mt);
      pa.Analyze();
      check(pa.p_total(), "ZBDD+BDD");
    }
  });
}

// ------------------------------------------------------------------ C06
void run_C06(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = true;
    o.max_events = 7;
    Tree t = random_tree(r, o);
    int limit = r.chance(0.7) ? 20 : r.range(1, 4);
    int alg = r.below(3);
    describe(t.str() + " alg=" + std::to_string(alg) + " limit=" + std::to_string(limit));
    Built b = build(t);
    Sets cuts = min_cuts(t.table(), limit);
    double sum = 0, m = 1;
    for (auto& c : cuts) {
      double q = 1;
      for (int l : c) q *= t.p[l - 1];
      sum += q;
      m *= 1 - q;
    }
    if (sum > 1) sum = 1;
    m = 1 - m;
    mef::MissionTime mt(1);
    auto run1 = [&](auto* tag, core::Algorithm a) {
      using A = std::remove_pointer_t<decltype(tag)>;
      core::Settings s = settings(a, limit);
      s.approximation(core::Approximation::kRareEvent);
      s.probability_analysis(true);
      core::FaultTreeAnalyzer<A> fta(b.root(), s);
      fta.Analyze();
      core::ProbabilityAnalyzer<core::RareEventCalculator> re(&fta, &mt);
      re.Analyze();
      if (!close(re.p_total(), sum, 1e-9, 1e-14)) fail("rare-event " + num(re.p_total()) + ", expected " + num(sum));
      core::ProbabilityAnalyzer<core::McubCalculator> mc(&fta, &mt);
      mc.Analyze();
      if (!close(mc.p_total(), m, 1e-9, 1e-12)) fail("MCUB " + num(mc.p_total()) + ", expected " + num(m));
      if (limit == 20) {
        double exact = prob(t.table(), t.p);
        if (re.p_total() < exact - 1e-12) fail("rare-event below the exact probability");
        if (mc.p_total() < exact - 1e-12) fail("MCUB below the exact probability");
      }
      if (re.p_total() < 0 || re.p_total() > 1 || mc.p_total() < 0 || mc.p_total() > 1) fail("approximation outside [0, 1]");
    };
    if (alg == 0) run1((core::Bdd*)nullptr, core::Algorithm::kBdd);
    if (alg == 1) run1((core::Zbdd*)nullptr, core::Algorithm::kZbdd);
    if (alg == 2) run1((core::Mocus*)nullptr, core::Algorithm::kMocus);
  });
}

// ------------------------------------------------------------------ C07
struct Imp {
  int occ;
  double mif, cif, dif, raw, rrw;
};

template <class Calc, class A>
void check_importance(const Tree& t, const Built& b, core::Algorithm a, bool approx, const char* who,
                      const std::function<double(const std::vector<double>&)>& total, const Sets& ps) {
  core::Settings s = settings(a);
  if (approx) s.approximation(core::Approximation::kMcub);
  s.probability_analysis(true).importance_analysis(true);
  mef::MissionTime mt(1);
  core::FaultTreeAnalyzer<A> fta(b.root(), s);
  fta.Analyze();
  core::ProbabilityAnalyzer<Calc> pa(&fta, &mt);
  pa.Analyze();
  core::ImportanceAnalyzer<Calc> ia(&pa);
  ia.Analyze();
  double p_total = total(t.p);
  std::map<int, int> occ;
  for (auto& p : ps)
    for (int l : p) ++occ[std::abs(l) - 1];
  std::set<int> seen;
  for (const core::ImportanceRecord& rec : ia.importance()) {
    int i = b.index.at(&rec.event);
    if (!seen.insert(i).second) fail(std::string(who) + ": repeated importance record");
    std::string ev = std::string(who) + " B" + std::to_string(i);
    if (rec.factors.occurrence != occ[i]) fail(ev + ": occurrence " + std::to_string(rec.factors.occurrence) + " expected " + std::to_string(occ[i]));
    std::vector<double> p1 = t.p, p0 = t.p;
    p1[i] = 1;
    p0[i] = 0;
    double t1 = total(p1), t0 = total(p0);
    double mif = t1 - t0;
    auto cmp = [&](const char* n, double got, double want) {
      if (!close(got, want, 1e-6, 1e-9 + (p_total > 0 ? 1e-13 / p_total : 0))) fail(ev + ": " + n + " is " + num(got) + ", expected " + num(want), "");
    };
    cmp("MIF", rec.factors.mif, mif);
    if (p_total > 1e-8 && !approx) {
      cmp("CIF", rec.factors.cif, t.p[i] * mif / p_total);
      cmp("RAW", rec.factors.raw, t1 / p_total);
      cmp("DIF", rec.factors.dif, t.p[i] * t1 / p_total);
      if (t0 > 1e-6) cmp("RRW", rec.factors.rrw, p_total / t0);
    }
    if (approx && p_total > 1e-12) {
      cmp("CIF", rec.factors.cif, t.p[i] * mif / p_total);
      cmp("RAW", rec.factors.raw, 1 + (1 - t.p[i]) * mif / p_total);
      cmp("DIF", rec.factors.dif, t.p[i] * (1 + (1 - t.p[i]) * mif / p_total));
    }
    if (p_total == 0 && (rec.factors.cif || rec.factors.raw || rec.factors.dif || rec.factors.rrw)) fail(ev + ": factors of an impossible event");
  }
  for (auto& [i, n] : occ)
    if (n && !seen.count(i)) fail(std::string(who) + ": no importance record of B" + std::to_string(i));
}

void run_C07(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.5);
    o.max_events = 7;
    o.max_gates = 8;
    Tree t = random_tree(r, o);
    describe(t.str());
    Built b = build(t);
    auto tab = t.table();
    Sets cuts = min_cuts(tab, 20);
    auto exact = [&](const std::vector<double>& p) { return prob(tab, p); };
    check_importance<core::Bdd, core::Bdd>(t, b, core::Algorithm::kBdd, false, "BDD", exact, cuts);
    if (t.coherent()) {
      auto mcub = [&](const std::vector<double>& p) {
        double m = 1;
        for (auto& c : cuts) {
          double q = 1;
          for (int l : c) q *= p[l - 1];
          m *= 1 - q;
        }
        return 1 - m;
      };
      auto rare = [&](const std::vector<double>& p) {
        double m = 0;
        for (auto& c : cuts) {
          double q = 1;
          for (int l : c) q *= p[l - 1];
          m += q;
        }
        return m > 1 ? 1 : m;
      };
      check_importance<core::McubCalculator, core::Mocus>(t, b, core::Algorithm::kMocus, true, "MCUB", mcub, cuts);
      check_importance<core::RareEventCalculator, core::Zbdd>(t, b, core::Algorithm::kZbdd, true, "rare-event", rare, cuts);
    }
  });
}

// ------------------------------------------------------------------ C09, C10
void run_C09(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.2);
    o.max_events = 7;
    o.house = 0.12;
    Tree t = random_tree(r, o);
    describe(t.str());
    Built b = build(t);
    core::Pdag g(b.root());
    std::set<const mef::BasicEvent*> seen;
    for (auto* e : g.basic_events())
      if (!seen.insert(e).second) fail("an event has two variables");
    for (unsigned x = 0; x < (1u << t.n); ++x)
      if (pdag_eval(g, b, x).root() != t.eval(x)) fail("the graph differs from the fault tree at " + std::to_string(x));
    if (t.coherent() && !g.coherent()) fail("a coherent tree gives a non-coherent graph");
  });
}

template <class A>
void check_preprocess(const Tree& t, const Built& b, const char* who) {
  core::Pdag g(b.root());
  core::CustomPreprocessor<A>{&g}();
  for (unsigned x = 0; x < (1u << t.n); ++x)
    if (pdag_eval(g, b, x).root() != t.eval(x)) fail(std::string(who) + ": the preprocessed graph differs from the fault tree at " + std::to_string(x));
  // Declared coherence is real: the function is monotone then.
  if (g.coherent())
    for (unsigned x = 0; x < (1u << t.n); ++x)
      for (int i = 0; i < t.n; ++i)
        if (t.eval(x & ~(1u << i)) && !t.eval(x | (1u << i))) fail(std::string(who) + ": a coherent graph of a non-monotone function");
  // Modules share no variables with the outside.
  std::map<int, const core::Gate*> gates;
  std::function<void(const core::Gate&)> walk = [&](const core::Gate& x) {
    if (!gates.emplace(x.index(), &x).second) return;
    for (const auto& a : x.args<core::Gate>()) walk(a.second);
  };
  walk(*g.root());
  std::function<void(const core::Gate&, std::set<int>&, std::set<int>&, int)> vars = [&](const core::Gate& x, std::set<int>& v, std::set<int>& seen, int stop) {
    if (x.index() == stop || !seen.insert(x.index()).second) return;
    for (const auto& a : x.args<core::Variable>()) v.insert(a.second.index());
    for (const auto& a : x.args<core::Gate>()) vars(a.second, v, seen, stop);
  };
  for (auto& [i, gt] : gates) {
    if (!gt->module()) continue;
    std::set<int> in, out, s1, s2;
    vars(*gt, in, s1, -1);
    vars(*g.root(), out, s2, i);
    if (i == g.root()->index()) continue;
    for (int v : in)
      if (out.count(v)) fail(std::string(who) + ": module gate shares a variable with the rest of the graph");
  }
}

void run_C10(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.3);
    o.max_events = 8;
    o.max_gates = 12;
    Tree t = random_tree(r, o);
    describe(t.str());
    Built b = build(t);
    check_preprocess<core::Bdd>(t, b, "BDD preprocessor");
    check_preprocess<core::Zbdd>(t, b, "ZBDD preprocessor");
    check_preprocess<core::Mocus>(t, b, "MOCUS preprocessor");
  });
}

// ------------------------------------------------------------------ C16, C17
/// An expression that follows a table of the mission time.
class Scripted : public mef::Expression {
 public:
  Scripted(const mef::MissionTime* mt, std::function<double(double)> f) : Expression({}), mt_(mt), f_(std::move(f)) {}
  double value() noexcept override { return f_(const_cast<mef::MissionTime*>(mt_)->value()); }
  mef::Interval interval() noexcept override { return mef::Interval::closed(0, 1); }
  bool IsDeviate() noexcept override { return false; }

 private:
  double DoSample() noexcept override { return value(); }
  const mef::MissionTime* mt_;
  std::function<double(double)> f_;
};

using Points = std::vector<std::pair<double, double>>;

/// The share of the span in which the curve is within (lo, hi] (with 0 in the first level).
long double share(const Points& pts, double lo, double hi) {
  long double sum = 0, span = (long double)pts.back().second - pts.front().second;
  for (std::size_t i = 1; i < pts.size(); ++i) {
    long double y0 = pts[i - 1].first, y1 = pts[i].first, dt = (long double)pts[i].second - pts[i - 1].second;
    if (y0 == y1) {
      if ((y0 > lo || (lo == 0 && y0 == 0)) && y0 <= hi) sum += dt;
      continue;
    }
    if (y0 > y1) std::swap(y0, y1);
    long double a = std::max<long double>(y0, lo), b = std::min<long double>(y1, hi);
    if (b > a) sum += dt * (b - a) / (y1 - y0);
  }
  return sum / span;
}
long double average(const Points& pts) {
  long double sum = 0;
  for (std::size_t i = 1; i < pts.size(); ++i)
    sum += ((long double)pts[i].first + pts[i - 1].first) / 2 * ((long double)pts[i].second - pts[i - 1].second);
  return sum / ((long double)pts.back().second - pts.front().second);
}

template <class T>
void check_levels(const Points& pts, const T& levels, const char* who) {
  double lo = 0;
  long double total = 0;
  for (auto& l : levels) {
    double want = share(pts, lo, l.first);
    if (!close(l.second, want, 1e-6, 1e-7))
      fail(std::string(who) + " fraction of (" + num(lo) + ", " + num(l.first) + "] is " + num(l.second) + ", expected " + num(want));
    total += l.second;
    lo = l.first;
  }
  if (!close(double(total), 1, 1e-6)) fail(std::string(who) + " fractions add up to " + num(double(total)));
}

/// A curve of the probability of a single event by time.
std::function<double(double)> random_curve(Rng& r, std::string& d) {
  static const double border[] = {0, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1, 1e-9, 1e-8, 1e-7, 1e-6};
  std::map<double, double> known;
  auto vals = std::make_shared<std::map<double, double>>();
  std::uint64_t seed = r.next();
  int style = r.below(6);
  double c = r.chance(0.5) ? border[r.below(11)] : std::pow(10, -8 * r.uniform());
  double l = std::pow(10, -6 * r.uniform());
  d += " curve style=" + std::to_string(style) + " c=" + num(c) + " l=" + num(l);
  return [=](double t) -> double {
    switch (style) {
      case 0: return c;
      case 1: return 1 - std::exp(-l * t);
      case 2: {  // Random points, many on borders.
        Rng q(seed ^ std::hash<double>()(t));
        return q.chance(0.5) ? border[q.below(11)] : std::pow(10, -8 * q.uniform());
      }
      case 3: {  // Proportional: a constant frequency.
        double v = border[7 + seed % 4] * t;
        return v > 1 ? 1 : v;
      }
      case 4: return std::exp(-l * t);
      default: {
        Rng q(seed ^ (std::hash<double>()(t) & ~3ull));
        return q.chance(0.3) ? c : q.uniform();
      }
    }
  };
}

struct Curve {
  core::Settings s;
  double mission = 0, step = 0;
};
Curve random_curve_settings(Rng& r, bool sil) {
  Curve c;
  // Exact in binary: sums of steps have no rounding errors.
  double unit = sil ? 1 : std::pow(2, r.range(-6, 3));
  c.step = unit * r.range(1, 40);
  c.mission = unit * r.range(1, 400);
  if (r.chance(0.2)) c.mission = c.step * r.range(1, 12);
  c.s.probability_analysis(true);
  c.s.mission_time(c.mission);
  c.s.time_step(c.step);
  if (sil) c.s.safety_integrity_levels(true);
  return c;
}

void run_C16(Run& run) {
  run.cases([](Rng& r, long) {
    Curve c = random_curve_settings(r, true);
    bool still = r.chance(0.1);  // No span: a single point.
    if (still) c.mission = 0, c.s.mission_time(0);
    std::string d = "mission=" + num(c.mission) + " step=" + num(c.step);
    mef::MissionTime mt(c.mission);
    auto f = random_curve(r, d);
    describe(d);
    Scripted e(&mt, f);
    mef::BasicEvent b("b");
    b.expression(&e);
    mef::Gate g("g");
    mef::Formula::ArgSet a;
    a.Add(&b);
    g.formula(std::make_unique<mef::Formula>(mef::kNull, a));
    core::FaultTreeAnalyzer<core::Bdd> fta(g, c.s);
    fta.Analyze();
    core::ProbabilityAnalyzer<core::Bdd> pa(&fta, &mt);
    pa.Analyze();
    const core::Sil& sil = pa.sil();
    const Points& pts = pa.p_time();
    if (pts.size() == 1) {
      if (sil.pfd_avg != pts[0].first) fail("PFD average of the single point");
      double lo = 0;
      for (auto& l : sil.pfd_fractions) {
        double want = (pts[0].first > lo || lo == 0) && pts[0].first <= l.first;
        if (l.second != want) fail("PFD fraction of the single point " + num(pts[0].first) + " at " + num(l.first));
        lo = l.first;
      }
      return;
    }
    if (!close(sil.pfd_avg, average(pts), 1e-9)) fail("PFD average " + num(sil.pfd_avg) + ", expected " + num(average(pts)));
    check_levels(pts, sil.pfd_fractions, "PFD");
    Points h;
    for (auto& p : pts) h.emplace_back(p.second ? p.first / p.second : 0, p.second);
    if (!close(sil.pfh_avg, average(h), 1e-9)) fail("PFH average " + num(sil.pfh_avg) + ", expected " + num(average(h)));
    check_levels(h, sil.pfh_fractions, "PFH");
  });
}

template <class Calc, class Alg>
void check_curve(Rng& r, const Tree& t, const Built& b, Curve c, core::Algorithm alg, mef::MissionTime& mt,
                 const std::function<double(double)>& total, const char* who) {
  c.s.algorithm(alg);
  if constexpr (std::is_same_v<Calc, core::RareEventCalculator>) c.s.approximation(core::Approximation::kRareEvent);
  else if constexpr (std::is_same_v<Calc, core::McubCalculator>) c.s.approximation(core::Approximation::kMcub);
  else c.s.approximation(core::Approximation::kNone);
  core::FaultTreeAnalyzer<Alg> fta(b.root(), c.s);
  fta.Analyze();
  core::ProbabilityAnalyzer<Calc> pa(&fta, &mt);
  pa.Analyze();
  if (mt.value() != c.mission) fail(std::string(who) + ": the mission time is " + num(mt.value()) + " afterwards");
  if (!close(pa.p_total(), total(c.mission), 1e-9, 1e-12)) fail(std::string(who) + ": total " + num(pa.p_total()));
  const Points& pts = pa.p_time();
  std::vector<double> want;
  if (c.step > 0) {
    for (double x = 0; x < c.mission; x += c.step) want.push_back(x);
    want.push_back(c.mission);
  }
  if (pts.size() != want.size()) fail(std::string(who) + ": " + std::to_string(pts.size()) + " points, expected " + std::to_string(want.size()));
  for (std::size_t i = 0; i < pts.size(); ++i) {
    if (pts[i].second != want[i]) fail(std::string(who) + ": point " + std::to_string(i) + " at " + num(pts[i].second) + ", expected " + num(want[i]));
    double p = total(want[i]);
    if (!close(pts[i].first, p, 1e-9, 1e-12)) fail(std::string(who) + ": probability " + num(pts[i].first) + " at " + num(want[i]) + ", expected " + num(p));
  }
  // The event probabilities are those of the mission end again.
  int k = 0;
  for (const mef::BasicEvent* e : pa.graph()->basic_events())
    if (pa.p_vars()[core::Pdag::kVariableStartIndex + k++] != e->p()) fail(std::string(who) + ": variable probability is stale");
}

void run_C17(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.5);
    o.max_events = 5;
    o.max_gates = 5;
    Tree t = random_tree(r, o);
    Curve c = random_curve_settings(r, false);
    if (r.chance(0.1)) c.mission = 0, c.s.mission_time(0);
    if (r.chance(0.1)) c.step = 0, c.s.time_step(0);
    std::string d = t.str() + " mission=" + num(c.mission) + " step=" + num(c.step);
    mef::MissionTime mt(c.mission);
    Built b = build(t);
    std::vector<std::unique_ptr<Scripted>> es;
    for (int i = 0; i < t.n; ++i) {
      es.push_back(std::make_unique<Scripted>(&mt, random_curve(r, d)));
      b.basics[i]->expression(es.back().get());
    }
    describe(d);
    auto tab = t.table();
    auto at = [&](double time) {
      double old = mt.value();
      mt.value(time);
      std::vector<double> p;
      for (auto& e : es) p.push_back(e->value());
      mt.value(old);
      return p;
    };
    check_curve<core::Bdd, core::Bdd>(r, t, b, c, core::Algorithm::kBdd, mt, [&](double x) { return prob(tab, at(x)); }, "BDD");
    if (!t.coherent()) return;
    Sets cuts = min_cuts(tab, 20);
    auto q = [](const auto& cut, const std::vector<double>& p) {
      double m = 1;
      for (int l : cut) m *= p[l - 1];
      return m;
    };
    check_curve<core::McubCalculator, core::Mocus>(r, t, b, c, core::Algorithm::kMocus, mt, [&](double x) {
      auto p = at(x);
      double m = 1;
      for (auto& cut : cuts) m *= 1 - q(cut, p);
      return 1 - m;
    }, "MCUB");
    check_curve<core::RareEventCalculator, core::Zbdd>(r, t, b, c, core::Algorithm::kZbdd, mt, [&](double x) {
      auto p = at(x);
      double m = 0;
      for (auto& cut : cuts) m += q(cut, p);
      return m > 1 ? 1 : m;
    }, "rare-event");
  });
}

}  // namespace

int main(int argc, char** argv) {
  return drive(argc, argv, {{"C01", run_C01}, {"C03", run_C03}, {"C04", run_C04}, {"C05", run_C05},
                            {"C06", run_C06}, {"C07", run_C07}, {"C09", run_C09}, {"C10", run_C10},
                            {"C16", run_C16}, {"C17", run_C17}});
}
