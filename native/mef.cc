// The model layer (formulas, expressions, groups, registries) against
// references.
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include "common.h"
#include "error.h"
#include "event.h"
#include "expression/constant.h"
#include "expression/boolean.h"
#include "expression/conditional.h"
#include "expression/exponential.h"
#include "expression/numerical.h"
#include "parameter.h"
#include "substitution.h"
using namespace nat;
namespace mef = scram::mef;

namespace {
template <class F>
std::string thrown(F&& f) {
  try {
    f();
  } catch (const mef::ValidityError&) {
    return "validity";
  } catch (const scram::LogicError&) {
    return "logic";
  } catch (const scram::Error&) {
    return "other";
  }
  return "";
}

// ------------------------------------------------------------------ C14
struct Events {
  std::vector<std::unique_ptr<mef::Gate>> g;
  std::vector<std::unique_ptr<mef::BasicEvent>> b;
  std::vector<std::unique_ptr<mef::HouseEvent>> h;
  std::vector<mef::Formula::ArgEvent> all;
  std::vector<std::string> ids;
  void add(mef::Gate* p) { all.push_back(p), ids.push_back(p->id()); }
  Events(Rng& r, int n) {
    for (int i = 0; i < n; ++i) {
      bool pub = r.chance(0.7);
      std::string name = "e" + std::to_string(r.below(pub ? 9 : 3)), path = pub ? "" : "p" + std::to_string(r.below(2));
      auto role = pub ? mef::RoleSpecifier::kPublic : mef::RoleSpecifier::kPrivate;
      std::string id = pub ? name : path + "." + name;
      switch (r.below(3)) {
        case 0: g.push_back(std::make_unique<mef::Gate>(name, path, role)); all.push_back(g.back().get()); break;
        case 1: b.push_back(std::make_unique<mef::BasicEvent>(name, path, role)); all.push_back(b.back().get()); break;
        default: h.push_back(std::make_unique<mef::HouseEvent>(name, path, role)); all.push_back(h.back().get());
      }
      ids.push_back(id);
    }
    all.push_back(&mef::HouseEvent::kTrue), ids.push_back("__true__");
    all.push_back(&mef::HouseEvent::kFalse), ids.push_back("__false__");
  }
};

using Ref = std::vector<std::pair<int, bool>>;  // event position, complement

void same(const std::vector<mef::Formula::Arg>& a, const Ref& ref, const Events& ev, const char* when) {
  if (a.size() != ref.size()) fail(std::string(when) + ": " + std::to_string(a.size()) + " arguments of " + std::to_string(ref.size()));
  for (std::size_t i = 0; i < ref.size(); ++i)
    if (!(a[i].event == ev.all[ref[i].first]) || a[i].complement != ref[i].second) fail(std::string(when) + ": argument " + std::to_string(i));
}

bool used(const mef::Formula::ArgEvent& e) {
  return std::visit([](auto* p) { return p->usage(); }, e);
}

void run_C14(Run& run) {
  run.cases([](Rng& r, long) {
    using namespace mef;
    Events ev(r, r.range(2, 10));
    int ne = ev.all.size();
    Formula::ArgSet args;
    Ref ref;
    std::string log;
    int want = r.below(5);
    for (int i = 0, e = want + r.below(3); i < e && (int)ref.size() < want; ++i) {
      int k = r.below(ne);
      bool c = r.chance(0.25);
      bool dup = false;
      for (auto& x : ref) dup |= ev.ids[x.first] == ev.ids[k];
      log += " +" + std::string(c ? "~" : "") + ev.ids[k];
      describe(log);
      std::string t = thrown([&] {
        if (r.chance(0.5)) args.Add(ev.all[k], c);
        else args.Add(Formula::Arg{c, ev.all[k]});
      });
      if (dup != !t.empty()) fail(dup ? "a duplicate argument is accepted" : "an argument is refused: " + t);
      if (!dup) {
        ref.push_back({k, c});
        if (!used(ev.all[k])) fail("the event is not marked as used");
      }
      same(args.data(), ref, ev, "after Add");
      if (r.chance(0.15)) {
        int d = r.below(ne);
        auto it = ref.begin();
        while (it != ref.end() && it->first != d) ++it;
        log += " -" + ev.ids[d];
        describe(log);
        t = thrown([&] { args.Remove(ev.all[d]); });
        if ((it == ref.end()) != !t.empty()) fail("Remove: " + t);
        if (it != ref.end()) ref.erase(it);
        same(args.data(), ref, ev, "after Remove");
      }
    }
    auto c = static_cast<Connective>(r.below(11));
    auto number = [&]() -> std::optional<int> {
      if (r.chance(0.4)) return {};
      static const int big[] = {-1, -2, 65535, 65536, 65537, 65538, 70000, 1 << 30, std::numeric_limits<int>::min(), 131074};
      return r.chance(0.1) ? big[r.below(10)] : r.range(-1, 5);
    };
    std::optional<int> mn, mx;
    if (r.chance(c == kAtleast || c == kCardinality ? 0.9 : 0.1)) mn = number();
    if (r.chance(c == kCardinality ? 0.9 : 0.1)) mx = number();
    describe(std::string(kConnectiveToString[c]) + log + " min=" + (mn ? std::to_string(*mn) : "-") + " max=" + (mx ? std::to_string(*mx) : "-"));
    int n = ref.size();
    auto bad_nest = [&](const Ref::value_type& x) {
      return (x.second && (c == kNull || c == kNot)) || (c == kNot && x.first >= ne - 2);
    };
    bool ok = true;
    if (mn && (*mn < 0 || *mn > 65535 || (c != kAtleast && c != kCardinality))) ok = false;
    if (mx && (*mx < 0 || *mx > 65535 || c != kCardinality)) ok = false;
    if (mn && mx && *mn > *mx) ok = false;
    switch (c) {
      case kAnd: case kOr: case kNand: case kNor: ok &= n >= 2; break;
      case kNot: case kNull: ok &= n == 1; break;
      case kXor: case kIff: case kImply: ok &= n == 2; break;
      case kAtleast: ok &= mn && *mn >= 2 && n > *mn; break;
      case kCardinality: ok &= mn && mx && n >= 1 && n >= *mx; break;
    }
    for (auto& x : ref) ok &= !bad_nest(x);
    std::unique_ptr<Formula> f;
    std::string t = thrown([&] { f = std::make_unique<Formula>(c, args, mn, mx); });
    if (ok != t.empty()) fail(ok ? "a valid formula is refused: " + t : "an invalid formula is accepted");
    if (t == "other") fail("unexpected error type");
    if (!ok) return;
    if (f->connective() != c) fail("connective is " + std::to_string(f->connective()));
    same(f->args(), ref, ev, "formula");
    if (f->min_number() != (c == kAtleast || c == kCardinality ? mn : std::optional<int>())) fail("min number");
    if (f->max_number() != (c == kCardinality ? mx : std::optional<int>())) fail("max number");
    for (int i = 0; i < 3; ++i) {
      int a = r.chance(0.8) ? ref[r.below(n)].first : r.below(ne), b = r.below(ne), at = -1;
      bool dup = false;
      for (int k = 0; k < n; ++k) {
        if (ref[k].first == a && at < 0) at = k;
        if (ref[k].first != a && ev.ids[ref[k].first] == ev.ids[b]) dup = true;
      }
      bool good = at >= 0 && !dup && !bad_nest({b, ref[std::max(at, 0)].second});
      describe(g_desc + " swap " + ev.ids[a] + "->" + ev.ids[b]);
      t = thrown([&] { f->Swap(ev.all[a], ev.all[b]); });
      if (good != t.empty()) fail(good ? "a valid swap is refused: " + t : "an invalid swap is accepted");
      if (good) {
        ref[at].first = b;
        if (!used(ev.all[b])) fail("the swapped event is not marked as used");
      }
      same(f->args(), ref, ev, "after Swap");
    }
  });
}

// ------------------------------------------------------------------ C13
/// An argument with a value and an interval around it.
struct Arg : mef::Expression {
  double v, lo, hi, sample;
  explicit Arg(double x) : v(x), lo(x), hi(x), sample(x) {}
  double value() noexcept override { return v; }
  mef::Interval interval() noexcept override { return mef::Interval::closed(lo, hi); }
  bool IsDeviate() noexcept override { return true; }
  double DoSample() noexcept override { return sample; }
};
using Args = std::vector<std::unique_ptr<Arg>>;
using ld = long double;

ld pe(ld rate, ld t) { return -expm1l(-rate * t); }
/// Two processes one after another.
ld pe2(ld p_mu, ld p_lambda, ld mu, ld lambda, ld t) {
  if (lambda == mu) return p_lambda - (1 - p_lambda) * lambda * t;
  return (lambda * p_mu - mu * p_lambda) / (lambda - mu);
}

ld instant_test(ld lambda, ld mu, ld tau, ld theta, ld time) {
  if (time <= theta) return pe(lambda, time);
  ld prob = pe(lambda, theta);
  auto step = [&](ld t) {
    ld pl = pe(lambda, t), pm = pe(mu, t);
    prob = prob * (1 - pm + pe2(pl, pm, lambda, mu, t) - pl) + pl;
  };
  double delta = (double)time - (double)theta;
  long n = static_cast<long>(delta / (double)tau);
  for (long i = 0; i < n; ++i) step(tau);
  step(delta - n * (double)tau);
  return prob;
}

ld complete(ld lambda, ld lt, ld mu, ld tau, ld theta, ld gamma, ld dur, bool avail, ld sigma, ld omega, ld time) {
  if (time <= theta) return pe(lambda, time);
  ld F = pe(lambda, theta), R = 0, A = 1 - F;
  auto ml = [&](ld pm, ld pl, ld t) { return pm * omega + (1 - omega) * pe2(pm, pl, mu, lambda, t); };
  auto test = [&](ld t, bool a) {
    ld tr = F + A * (gamma + (1 - gamma) * pe(lt, t));
    ld f = R * ml(pe(mu, t), pe(lambda, t), t) + (1 - sigma) * tr;
    ld rr = (1 - pe(mu, t)) * R + sigma * tr;
    ld aa = 1 - f - rr - (a ? 0 : A * (1 - gamma) * (1 - pe(lt, t)));
    F = f, R = rr, A = aa;
  };
  auto period = [&](ld t) {
    F = A * pe(lambda, t) + F + R * ml(pe(mu, t), pe(lambda, t), t);
    R = R * (1 - pe(mu, t));
    A = 1 - F - R;
  };
  double delta = (double)time - (double)theta;
  long n = static_cast<long>(delta / (double)tau);
  for (long i = 0; i < n; ++i) test(dur, true), period(tau - dur);
  double left = delta - n * (double)tau;
  if (left <= dur) test(left, avail);
  else test(dur, true), period(left - dur);
  return 1 - A;
}

void run_C13(Run& run) {
  run.cases([](Rng& r, long) {
    int kind = r.below(6);
    Args a;
    auto mk = [&](double v) {
      a.push_back(std::make_unique<Arg>(v));
      return a.back().get();
    };
    auto rate = [&] { return r.chance(0.1) ? 0. : r.chance(0.05) ? -std::pow(10, -r.range(0, 9)) : std::pow(10, r.uniform() * 8 - (r.chance(0.2) ? 24 : 6)); };
    auto time = [&] { return r.chance(0.1) ? 0. : r.chance(0.05) ? -1. : r.chance(0.3) ? (double)r.range(1, 1000) : std::pow(10, r.uniform() * 7 - 2); };
    auto prob = [&] { return r.chance(0.1) ? 0. : r.chance(0.1) ? 1. : r.chance(0.05) ? -0.1 : r.chance(0.05) ? 1.5 : r.uniform(); };
    std::unique_ptr<mef::Expression> e;
    std::vector<int> pos, nonneg, pr;  // positions by their rule
    switch (kind) {
      case 0: mk(rate()), mk(time()); nonneg = {0, 1}; break;
      case 1: mk(prob()), mk(rate()), mk(rate()), mk(time()); pr = {0}, pos = {1}, nonneg = {2, 3}; break;
      case 2: mk(time()), mk(r.uniform() * 5), mk(time()), mk(time()); pos = {0, 1}, nonneg = {2, 3}; break;
      case 3: mk(rate()), mk(time()), mk(time()), mk(time()); pos = {0, 1}, nonneg = {2, 3}; break;
      case 4: mk(rate()), mk(rate()), mk(time()), mk(time()), mk(time()); pos = {0, 2}, nonneg = {1, 3, 4}; break;
      default:
        mk(rate()), mk(rate()), mk(rate()), mk(time()), mk(time()), mk(prob()), mk(time()), mk(r.chance(0.5)), mk(prob()), mk(prob()), mk(time());
        if (r.chance(0.8)) a[6]->v = a[3]->v * r.uniform();
        pos = {0, 3, 6}, nonneg = {1, 2, 4, 10}, pr = {5, 8, 9};
    }
    if (kind >= 4 && r.chance(0.15)) a[kind == 4 ? 1 : 2]->v = a[0]->v;  // equal rates
    if (kind >= 3) {  // Keep the number of test periods moderate.
      double tau = a[kind == 3 ? 1 : kind == 4 ? 2 : 3]->v;
      if (tau > 0 && a.back()->v / tau > 3000) a.back()->v = tau * r.uniform() * 3000;
      if (tau > 0 && r.chance(0.1)) a.back()->v = tau * r.range(1, 20);
      if (r.chance(0.4)) a[kind == 3 ? 2 : kind == 4 ? 3 : 4]->v *= r.chance(0.5) ? 0 : 0.01;
    }
    for (auto& x : a) x->lo = x->hi = x->sample = x->v;
    if (r.chance(0.2)) {  // an invalid sample domain around a valid value
      auto& x = *a[r.below(a.size())];
      (r.chance(0.5) ? x.lo : x.hi) += r.chance(0.5) ? -std::abs(x.v) * 1.5 - 0.1 : std::abs(x.v) * 1.5;
      if (x.lo > x.v) x.lo = x.v;
      if (x.hi < x.v) x.hi = x.v;
    }
    auto p = [&](int i) { return a[i].get(); };
    const char* names[] = {"exponential", "GLM", "Weibull", "periodic-test-4", "periodic-test-5", "periodic-test-11"};
    std::string d = names[kind];
    for (auto& x : a) d += " " + num(x->v) + (x->lo != x->hi ? " in [" + num(x->lo) + ", " + num(x->hi) + "]" : "");
    describe(d);
    switch (kind) {
      case 0: e = std::make_unique<mef::Exponential>(p(0), p(1)); break;
      case 1: e = std::make_unique<mef::Glm>(p(0), p(1), p(2), p(3)); break;
      case 2: e = std::make_unique<mef::Weibull>(p(0), p(1), p(2), p(3)); break;
      case 3: e = std::make_unique<mef::PeriodicTest>(p(0), p(1), p(2), p(3)); break;
      case 4: e = std::make_unique<mef::PeriodicTest>(p(0), p(1), p(2), p(3), p(4)); break;
      default: e = std::make_unique<mef::PeriodicTest>(p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10));
    }
    bool ok = true;
    for (int i : pos) ok &= a[i]->lo > 0;
    for (int i : nonneg) ok &= a[i]->lo >= 0;
    for (int i : pr) ok &= a[i]->lo >= 0 && a[i]->hi <= 1;
    if (kind == 5) ok &= a[6]->hi <= a[3]->lo;
    std::string t = thrown([&] { e->Validate(); });
    if (ok != t.empty()) fail(ok ? "valid parameters are refused" : "invalid parameters are accepted");
    if (!ok) return;
    auto check = [&](double got, auto&& at, const char* what) {
      if (!(got >= -1e-12 && got <= 1 + 1e-12)) fail(std::string(what) + " is " + num(got));
      ld want = 0;
      bool cond = true;  // Is the formula well conditioned?
      auto apart = [](double x, double y) { return std::max(x, y) < 20 && (x == y || std::abs(x - y) > 1e-3 * std::max(x, y)); };
      switch (kind) {
        case 0: want = pe(at(0), at(1)); break;
        case 1: {
          ld rr = (ld)at(1) + at(2);
          want = at(1) / rr * pe(rr, at(3)) + at(0) * expl(-rr * at(3));
          break;
        }
        case 2: want = at(3) <= at(2) ? 0 : -expm1l(-powl(((ld)at(3) - at(2)) / at(0), at(1))); break;
        case 3: {
          double delta = at(3) - at(2), left = delta - std::floor(delta / at(1)) * at(1);
          want = at(3) <= at(2) ? pe(at(0), at(3)) : pe(at(0), left ? left : at(1));
          break;
        }
        case 4: {
          want = instant_test(at(0), at(1), at(2), at(3), at(4));
          cond = apart(at(0), at(1));
          break;
        }
        default:
          want = complete(at(0), at(1), at(2), at(3), at(4), at(5), at(6), at(7), at(8), at(9), at(10));
          cond = apart(at(0), at(2));
      }
      if (cond && !close(got, want, 1e-6, 1e-8)) fail(std::string(what) + " is " + num(got) + ", expected " + num((double)want));
    };
    check(e->value(), [&](int i) { return a[i]->v; }, "value");
    for (auto& x : a)
      if (x->lo != x->hi) x->sample = x->lo + r.uniform() * (x->hi - x->lo);
    check(e->Sample(), [&](int i) { return a[i]->sample; }, "sample");
    auto in = e->interval();
    if (in.lower() != 0 || in.upper() != 1) fail("interval");
  });
}

// ------------------------------------------------------------------ C12
/// An expression with an independent evaluation of its definition.
struct Tree {
  mef::Expression* e = nullptr;
  std::function<double(bool)> ref;  ///< Evaluation of values (true) or samples.
  std::string text;
};

struct Forest {
  Rng& r;
  std::vector<std::unique_ptr<mef::Expression>> all;
  std::vector<Arg*> leaves;

  double number() {
    if (r.chance(0.15)) return 0;
    if (r.chance(0.35)) return (double)r.range(0, 8) - 4;
    if (r.chance(0.1)) return r.chance(0.5) ? 0.5 : 1;
    return (r.uniform() - 0.5) * std::pow(10, r.uniform() * 2);
  }
  Tree leaf(bool unit = false) {
    auto a = std::make_unique<Arg>(0);
    Arg* p = a.get();
    if (unit) {
      double x = r.uniform(), y = r.uniform();
      p->lo = std::min(x, y), p->hi = std::max(x, y);
      if (r.chance(0.5)) p->lo = -p->lo;
    } else {
      double x = number(), y = r.chance(0.35) ? x : number();
      p->lo = std::min(x, y), p->hi = std::max(x, y);
    }
    p->v = pick(p), p->sample = p->v;
    leaves.push_back(p);
    all.push_back(std::move(a));
    return {p, [p](bool v) { return v ? p->v : p->sample; }, num(p->v) + (p->lo != p->hi ? " in [" + num(p->lo) + ", " + num(p->hi) + "]" : "")};
  }
  double pick(Arg* p) {
    if (r.chance(0.2)) return p->lo;
    if (r.chance(0.2)) return p->hi;
    if (r.chance(0.2) && p->lo <= 0 && p->hi >= 0) return 0;
    double x = p->lo + r.uniform() * (p->hi - p->lo);
    if (r.chance(0.3) && std::floor(x) >= p->lo) x = std::floor(x);
    return std::min(std::max(x, p->lo), p->hi);
  }
  template <class T, class... A>
  mef::Expression* own(A&&... a) {
    all.push_back(std::make_unique<T>(std::forward<A>(a)...));
    return all.back().get();
  }

  bool undefined = false;  ///< Some part was evaluated outside of its domain.
  Tree make(int depth) {
    Tree t = build(depth);
    t.ref = [this, f = t.ref](bool v) {
      double x = f(v);
      undefined |= std::isnan(x);
      return x;
    };
    return t;
  }
  Tree build(int depth) {
    if (depth == 0) return leaf();
    int k = r.below(43);
    auto sub = [&] { return make(r.chance(0.6) ? 0 : depth - 1); };
    auto un = [&](auto* type, const char* name, auto f, bool unit = false) {
      Tree x = unit ? leaf(true) : sub();
      auto g = x.ref;
      return Tree{own<std::decay_t<decltype(*type)>>(x.e), [=](bool v) { return (double)f(g(v)); }, std::string(name) + "(" + x.text + ")"};
    };
    auto bi = [&](auto* type, const char* name, auto f) {
      Tree x = sub(), y = sub();
      auto g = x.ref, h = y.ref;
      return Tree{own<std::decay_t<decltype(*type)>>(x.e, y.e), [=](bool v) { return (double)f(g(v), h(v)); }, std::string(name) + "(" + x.text + ", " + y.text + ")"};
    };
    auto nary = [&](auto* type, const char* name, auto f) {
      std::vector<mef::Expression*> es;
      std::vector<std::function<double(bool)>> gs;
      std::string t = name;
      for (int i = r.range(2, 4); i-- > 0;) {
        Tree x = sub();
        es.push_back(x.e), gs.push_back(x.ref), t += (t.back() == ')' || gs.size() > 1 ? ", " : "(") + x.text;
      }
      return Tree{own<std::decay_t<decltype(*type)>>(es), [=](bool v) {
                    std::vector<double> xs;
                    for (auto& g : gs) xs.push_back(g(v));
                    return (double)f(xs);
                  }, t + ")"};
    };
    auto fold = [](auto op) {
      return [op](const std::vector<double>& xs) {
        double a = xs[0];
        for (size_t i = 1; i < xs.size(); ++i) a = op(a, xs[i]);
        return a;
      };
    };
    using namespace mef;
#define T(X) (X*)nullptr, #X
    switch (k) {
      case 0: return un(T(Neg), [](double x) { return -x; });
      case 1: case 38: return un(T(Abs), [](double x) { return x < 0 ? -x : x; });
      case 2: return un(T(Acos), [](double x) { return std::acos(x); }, true);
      case 3: return un(T(Asin), [](double x) { return std::asin(x); }, true);
      case 4: return un(T(Atan), [](double x) { return std::atan(x); });
      case 5: return un(T(Cos), [](double x) { return std::cos(x); });
      case 6: return un(T(Sin), [](double x) { return std::sin(x); });
      case 7: return un(T(Tan), [](double x) { return std::sin(x) / std::cos(x); });
      case 8: return un(T(Cosh), [](double x) { return (std::exp(x) + std::exp(-x)) / 2; });
      case 9: return un(T(Sinh), [](double x) { return std::sinh(x); });
      case 10: return un(T(Tanh), [](double x) { return std::tanh(x); });
      case 11: return un(T(Exp), [](double x) { return std::exp(x); });
      case 12: return un(T(Log), [](double x) { return std::log(x); });
      case 13: return un(T(Log10), [](double x) { return std::log(x) / std::log(10.); });
      case 14: return un(T(Sqrt), [](double x) { return std::sqrt(x); });
      case 15: return un(T(Ceil), [](double x) { return std::ceil(x); });
      case 16: return un(T(Floor), [](double x) { return std::floor(x); });
      case 17: case 39: return bi(T(Mod), [](double x, double y) {
        if (!(std::abs(x) < 1e9 && std::abs(y) < 1e9)) return std::abs(x) < 1e300 && std::abs(y) < 1e300 ? std::fmod(std::trunc(x), std::trunc(y)) : NAN;
        int a = (int)x, b = (int)y;
        return b == 0 ? NAN : (double)(a - (a / b) * b);
      });
      case 18: case 40: return bi(T(Pow), [](double x, double y) { return std::pow(x, y); });
      case 19: return nary(T(Add), fold([](double a, double b) { return a + b; }));
      case 20: return nary(T(Sub), fold([](double a, double b) { return a - b; }));
      case 21: return nary(T(Mul), fold([](double a, double b) { return a * b; }));
      case 22: return nary(T(Div), fold([](double a, double b) { return a / b; }));
      case 23: return nary(T(Min), fold([](double a, double b) { return a < b ? a : b; }));
      case 24: return nary(T(Max), fold([](double a, double b) { return a < b ? b : a; }));
      case 25: return nary(T(Mean), [](const std::vector<double>& x) {
        double s = 0;
        for (double y : x) s += y;
        return s / x.size();
      });
      case 26: return un(T(Not), [](double x) { return x == 0; });
      case 27: return nary(T(And), [](const std::vector<double>& x) {
        for (double y : x) if (y == 0) return 0;
        return 1;
      });
      case 28: return nary(T(Or), [](const std::vector<double>& x) {
        for (double y : x) if (y != 0) return 1;
        return 0;
      });
      case 29: return bi(T(Eq), [](double x, double y) { return x == y; });
      case 30: return bi(T(Df), [](double x, double y) { return x != y; });
      case 31: return bi(T(Lt), [](double x, double y) { return x < y; });
      case 32: return bi(T(Gt), [](double x, double y) { return x > y; });
      case 33: return bi(T(Leq), [](double x, double y) { return x <= y; });
      case 34: return bi(T(Geq), [](double x, double y) { return x >= y; });
      case 35: case 41: {
        Tree c = sub(), t = sub(), e = sub();
        auto g = c.ref, h = t.ref, i = e.ref;
        return {own<Ite>(c.e, t.e, e.e), [=](bool v) { return g(v) != 0 ? h(v) : i(v); }, "Ite(" + c.text + ", " + t.text + ", " + e.text + ")"};
      }
      default: {
        std::vector<Switch::Case> cs;
        std::vector<std::pair<std::function<double(bool)>, std::function<double(bool)>>> gs;
        std::string t = "Switch(";
        for (int n = r.below(4); n-- > 0;) {
          Tree c = sub(), x = sub();
          cs.push_back({*c.e, *x.e}), gs.push_back({c.ref, x.ref}), t += c.text + ": " + x.text + ", ";
        }
        Tree d = sub();
        auto h = d.ref;
        return {own<Switch>(cs, d.e), [=](bool v) {
                  for (auto& g : gs) if (g.first(v) != 0) return g.second(v);
                  return h(v);
                }, t + d.text + ")"};
      }
    }
#undef T
  }
};

void run_C12(Run& run) {
  run.cases([](Rng& r, long) {
    Forest f{r, {}, {}, false};
    Tree t = f.make(r.chance(0.6) ? 1 : 2);
    describe(t.text);
    for (auto& e : f.all) {  // in the order of their creation, arguments first
      if (!thrown([&] { e->Validate(); }).empty()) return;
      if (e.get() == t.e) break;
      mef::Interval in = e->interval();
      if (!(std::abs(in.lower()) < 1e100 && std::abs(in.upper()) < 1e100)) return;  // overflows next
    }
    mef::Interval in = t.e->interval();
    auto check = [&](double got, double want, const char* what) {
      if (f.undefined || std::isinf(want)) return;
      double tol = 1e-9 * std::max(1.0, std::abs(want));
      if (!(std::abs(got - want) <= tol)) fail(std::string(what) + " is " + num(got) + ", expected " + num(want));
      double low = in.lower(), up = in.upper();
      if (std::isnan(low) || std::isnan(up)) return;
      double slack = 1e-9 * std::max({1.0, std::abs(want)});
      if (!(low - slack <= got && got <= up + slack)) fail(std::string(what) + " " + num(got) + " is outside of [" + num(low) + ", " + num(up) + "]");
    };
    check(t.e->value(), t.ref(true), "value");
    for (int i = 0; i < 8; ++i) {
      for (Arg* a : f.leaves) a->sample = f.pick(a);
      t.e->Reset();
      std::string ctx;
      for (Arg* a : f.leaves) ctx += " " + num(a->sample);
      f.undefined = false;
      double want = t.ref(false), got = t.e->Sample();
      check(got, want, ("sample at" + ctx).c_str());
      for (Arg* a : f.leaves) a->sample = f.pick(a);
      if (double again = t.e->Sample(); again != got && !std::isnan(got)) fail("the sample changed within a trial: " + num(got) + " -> " + num(again));
    }
  });
}

}  // namespace

// ------------------------------------------------------------------ C26
void run_C26(Run& run) {
  run.cases([](Rng& r, long) {
    using namespace mef;
    std::vector<std::unique_ptr<BasicEvent>> ev;
    for (int i = 0; i < 6; ++i) ev.push_back(std::make_unique<BasicEvent>("e" + std::to_string(i)));
    Gate gate("g");
    HouseEvent house("h");
    static const Connective usual[] = {kNull, kAnd, kAnd, kOr, kAtleast};
    Connective c = r.chance(0.7) ? usual[r.below(5)] : static_cast<Connective>(r.below(11));
    int n = c == kNull || c == kNot ? 1 : c == kXor || c == kIff || c == kImply ? 2 : c == kAtleast ? r.range(3, 5) : r.range(2, 4);
    std::string log = kConnectiveToString[c];
    Formula::ArgSet args;
    std::vector<int> in;
    bool foreign = false, complement = false;
    for (int i = 0, first = r.below(2); i < n; ++i) {
      bool cmp = c != kNull && c != kNot && r.chance(0.06);
      complement |= cmp;
      log += cmp ? " ~" : " ";
      if (i < 2 && r.chance(0.06)) {
        foreign = true;
        if (i) args.Add(&gate, cmp), log += "gate";
        else args.Add(&house, cmp), log += "house";
        continue;
      }
      args.Add(ev[first + i].get(), cmp), log += "e" + std::to_string(first + i);
      in.push_back(first + i);
    }
    std::optional<int> mn, mx;
    if (c == kAtleast || c == kCardinality) mn = r.range(2, n - (c == kAtleast)), log += " min=" + std::to_string(*mn);
    if (c == kCardinality) mx = n;
    Substitution s("s");
    s.hypothesis(std::make_unique<Formula>(c, args, mn, mx));
    int t = r.below(4);  // false, true, or an event
    if (t < 2) s.target(t == 1), log += t ? " -> true" : " -> false";
    else {
      t = r.below(6);
      s.target(ev[t].get()), log += " -> e" + std::to_string(t), t = 2;
    }
    std::vector<int> src;
    for (int k = r.chance(0.4) ? 0 : r.chance(0.5) ? n : r.range(1, 4); k > 0; --k) {
      int e = in.size() && r.chance(0.8) ? in[(k - 1) % in.size()] : r.below(6);
      log += " +e" + std::to_string(e);
      describe(log);
      bool dup = std::find(src.begin(), src.end(), e) != src.end(), refused = false;
      try {
        s.Add(ev[e].get());
      } catch (const DuplicateElementError&) {
        refused = true;
      }
      if (refused != dup) fail(dup ? "a source is accepted twice" : "a source is refused");
      if (!dup) src.push_back(e);
      if (s.source().size() != src.size()) fail("number of sources");
      for (std::size_t i = 0; i < src.size(); ++i)
        if (s.source()[i] != ev[src[i]].get()) fail("the sources are not kept in order");
    }
    describe(log);
    bool decl = src.empty();
    if (s.declarative() != decl) fail("declarative");
    bool ok = !foreign && !complement && (c == kNull || c == kAnd || c == kOr || (c == kAtleast && decl)) && t != (decl ? 1 : 0);
    std::string e = thrown([&] { s.Validate(); });
    if (ok != e.empty()) fail(ok ? "a valid substitution is refused: " + e : "an invalid substitution is accepted");
    if (!ok) {
      if (e != "validity") fail("unexpected error type");
      return;
    }
    auto member = [&](int x) { return std::find(in.begin(), in.end(), x) != in.end(); };
    int want = -1;
    if (decl) {
      if (t == 0 && ((c == kAtleast && *mn == 2) || (c == kAnd && n == 2))) want = Substitution::kDeleteTerms;
      if (t == 2 && c == kAnd) want = Substitution::kRecoveryRule;
    } else if (t == 2 && (c == kAnd || c == kNull)) {
      bool all = true;
      for (int x : src) all &= member(x);
      if ((int)src.size() == n && all) want = Substitution::kRecoveryRule;
      if ((int)src.size() != n && src.size() == 1 && all) want = Substitution::kExchangeEvent;
    }
    auto got = s.type();
    if ((got ? int(*got) : -1) != want) fail("type " + std::to_string(got ? int(*got) : -1) + " instead of " + std::to_string(want));
  });
}

int main(int argc, char** argv) { return drive(argc, argv, {{"C12", run_C12}, {"C13", run_C13}, {"C14", run_C14}, {"C26", run_C26}}); }
