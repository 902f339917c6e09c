// Random fault trees, their reference semantics, and reference analyses.
#pragma once
#include <algorithm>
#include <bitset>
#include <memory>
#include "common.h"
#include "ccf_group.h"
#include "event.h"
#include "expression/constant.h"
#include "fault_tree_analysis.h"
#include "importance_analysis.h"
#include "mocus.h"
#include "model.h"
#include "parameter.h"
#include "pdag.h"
#include "preprocessor.h"
#include "probability_analysis.h"
#include "settings.h"
#include "zbdd.h"
#include "bdd.h"

namespace ft {
using namespace scram;
using nat::Rng;

struct Arg {
  int kind;  // 0 basic, 1 gate, 2 house
  int id;
  bool compl_;
};
struct GateSpec {
  mef::Connective conn;
  std::vector<Arg> args;
  int min = 0, max = 0;
};
struct Tree {
  int n = 0;                     // basic events
  std::vector<bool> house;       // states
  std::vector<GateSpec> gates;   // gate i only refers to gates < i; the last is the root
  std::vector<double> p;         // probabilities of the basic events

  std::string str() const {
    std::string s = "n=" + std::to_string(n) + " p=[";
    for (double x : p) s += nat::num(x) + " ";
    s += "] ";
    for (std::size_t i = 0; i < gates.size(); ++i) {
      const GateSpec& g = gates[i];
      s += "G" + std::to_string(i) + ":=" + mef::kConnectiveToString[g.conn];
      if (g.conn == mef::kAtleast) s += "<" + std::to_string(g.min) + ">";
      if (g.conn == mef::kCardinality) s += "<" + std::to_string(g.min) + "," + std::to_string(g.max) + ">";
      s += "(";
      for (const Arg& a : g.args) {
        if (a.compl_) s += "~";
        s += a.kind == 0 ? "B" + std::to_string(a.id) : a.kind == 1 ? "G" + std::to_string(a.id) : house[a.id] ? "H1" : "H0";
        s += " ";
      }
      s += ") ";
    }
    return s;
  }

  static bool apply(const GateSpec& g, const std::vector<bool>& v) {
    int c = std::count(v.begin(), v.end(), true), n = v.size();
    switch (g.conn) {
      case mef::kAnd: return c == n;
      case mef::kOr: return c > 0;
      case mef::kAtleast: return c >= g.min;
      case mef::kXor: return c == 1;
      case mef::kNot: return c == 0;
      case mef::kNand: return c < n;
      case mef::kNor: return c == 0;
      case mef::kNull: return c == 1;
      case mef::kIff: return v[0] == v[1];
      case mef::kImply: return !v[0] || v[1];
      case mef::kCardinality: return c >= g.min && c <= g.max;
    }
    return false;
  }
  bool eval(unsigned x, int root = -1) const {
    std::vector<bool> val(gates.size());
    if (root < 0) root = gates.size() - 1;
    for (int i = 0; i <= root; ++i) {
      std::vector<bool> v;
      for (const Arg& a : gates[i].args)
        v.push_back(a.compl_ ^ (a.kind == 0 ? (x >> a.id & 1) : a.kind == 1 ? bool(val[a.id]) : bool(house[a.id])));
      val[i] = apply(gates[i], v);
    }
    return val[root];
  }
  std::vector<bool> table() const {
    std::vector<bool> t(1u << n);
    for (unsigned x = 0; x < t.size(); ++x) t[x] = eval(x);
    return t;
  }
  /// Syntactically coherent: no complements, only monotone connectives.
  bool coherent() const {
    for (auto& g : gates) {
      if (g.conn != mef::kAnd && g.conn != mef::kOr && g.conn != mef::kAtleast && g.conn != mef::kNull) return false;
      for (auto& a : g.args)
        if (a.compl_) return false;
    }
    return true;
  }
};

struct Options {
  bool coherent = false;
  int max_events = 6, max_gates = 7;
  double house = 0.05, cardinality = 0.05;
};

inline Tree random_tree(Rng& r, const Options& o) {
  Tree t;
  t.n = r.range(2, o.max_events);
  t.house = {false, true};
  for (int i = 0; i < t.n; ++i) t.p.push_back(r.chance(0.1) ? (r.chance(0.5) ? 0.0 : 1.0) : r.chance(0.3) ? r.uniform() * 1e-3 : r.uniform());
  int m = r.range(1, o.max_gates);
  std::vector<int> unused;
  double share = r.uniform() * 0.8;
  // A second style builds modular trees: each gate draws events of its own.
  std::vector<int> pool;
  for (int i = 0; i < t.n; ++i) pool.push_back(i);
  for (int i = t.n - 1; i > 0; --i) std::swap(pool[i], pool[r.below(i + 1)]);
  bool modular = r.chance(0.4);
  for (int i = 0; i < m; ++i) {
    GateSpec g;
    double u = r.uniform();
    if (o.coherent) {
      g.conn = u < 0.42 ? mef::kAnd : u < 0.84 ? mef::kOr : u < 0.97 ? mef::kAtleast : mef::kNull;
    } else {
      static const mef::Connective c[] = {mef::kAnd, mef::kOr, mef::kAtleast, mef::kXor, mef::kNot, mef::kNand,
                                          mef::kNor, mef::kNull, mef::kIff, mef::kImply, mef::kCardinality};
      g.conn = u < 0.55 ? c[r.below(2)] : c[r.below(o.cardinality > 0 ? 11 : 10)];
    }
    int want = r.range(2, 4);
    if (g.conn == mef::kNot || g.conn == mef::kNull) want = 1;
    if (g.conn == mef::kXor || g.conn == mef::kIff || g.conn == mef::kImply) want = 2;
    if (g.conn == mef::kAtleast) want = r.range(3, 5);
    if (g.conn == mef::kCardinality) want = r.range(1, 4);
    std::set<std::pair<int, int>> used;
    auto add = [&](Arg a) {
      if (!used.insert({a.kind, a.id}).second) return false;
      if (o.coherent || g.conn == mef::kNot || g.conn == mef::kNull) a.compl_ = false;
      g.args.push_back(a);
      return true;
    };
    for (int tries = 0; tries < 60 && (int)g.args.size() < want; ++tries) {
      Arg a{0, 0, r.chance(0.2)};
      if (r.chance(o.house)) {
        a.kind = 2, a.id = r.below(2);
      } else if (!unused.empty() && r.chance(0.6)) {
        int k = r.below(unused.size());
        a.kind = 1, a.id = unused[k];
        if (add(a)) unused.erase(unused.begin() + k);
        continue;
      } else if (i > 0 && r.chance(share * 0.5)) {
        a.kind = 1, a.id = r.below(i);
        add(a);
        unused.erase(std::remove(unused.begin(), unused.end(), a.id), unused.end());
        continue;
      } else {
        if (modular && !pool.empty()) {
          a.id = pool.back();
          pool.pop_back();
        } else {
          a.id = r.below(t.n);
        }
      }
      add(a);
    }
    if (g.conn == mef::kAtleast) {
      if (g.args.size() < 3) g.conn = mef::kOr;
      else g.min = r.range(2, (int)g.args.size() - 1);
    }
    if (g.conn == mef::kCardinality) {
      g.max = r.range(0, g.args.size());
      g.min = r.range(0, g.max);
    }
    bool two = g.conn == mef::kXor || g.conn == mef::kIff || g.conn == mef::kImply || g.conn == mef::kAnd ||
               g.conn == mef::kOr || g.conn == mef::kNand || g.conn == mef::kNor;
    if (g.args.empty()) g.args.push_back({0, r.below(t.n), false});
    if (two && g.args.size() < 2) g.conn = mef::kNull, g.args[0].compl_ = false;
    if (g.conn == mef::kNot && g.args[0].kind == 2) g.conn = mef::kNull;
    t.gates.push_back(g);
    unused.push_back(i);
  }
  // The root collects what is left.
  if (unused.size() > 1) {
    GateSpec g;
    g.conn = r.chance(0.5) ? mef::kAnd : mef::kOr;
    if (!o.coherent && r.chance(0.2)) g.conn = r.chance(0.5) ? mef::kNand : mef::kNor;
    for (int u : unused) g.args.push_back({1, u, !o.coherent && r.chance(0.15)});
    t.gates.push_back(g);
  }
  return t;
}

/// The mef objects of a tree.
struct Built {
  std::vector<std::unique_ptr<mef::BasicEvent>> basics;
  std::vector<std::unique_ptr<mef::HouseEvent>> houses;
  std::vector<std::unique_ptr<mef::Gate>> gates;
  std::vector<std::unique_ptr<mef::ConstantExpression>> exprs;
  std::map<const mef::BasicEvent*, int> index;
  const mef::Gate& root() const { return *gates.back(); }
};

inline Built build(const Tree& t) {
  Built b;
  for (int i = 0; i < t.n; ++i) {
    b.basics.push_back(std::make_unique<mef::BasicEvent>("B" + std::to_string(i)));
    b.exprs.push_back(std::make_unique<mef::ConstantExpression>(t.p[i]));
    b.basics.back()->expression(b.exprs.back().get());
    b.index[b.basics.back().get()] = i;
  }
  for (std::size_t i = 0; i < t.house.size(); ++i) {
    b.houses.push_back(std::make_unique<mef::HouseEvent>("H" + std::to_string(i)));
    b.houses.back()->state(t.house[i]);
  }
  for (std::size_t i = 0; i < t.gates.size(); ++i) {
    const GateSpec& g = t.gates[i];
    mef::Formula::ArgSet args;
    for (const Arg& a : g.args) {
      mef::Formula::ArgEvent e;
      if (a.kind == 0) e = b.basics[a.id].get();
      else if (a.kind == 1) e = b.gates[a.id].get();
      else e = b.houses[a.id].get();
      args.Add(e, a.compl_);
    }
    std::optional<int> mn, mx;
    if (g.conn == mef::kAtleast || g.conn == mef::kCardinality) mn = g.min;
    if (g.conn == mef::kCardinality) mx = g.max;
    b.gates.push_back(std::make_unique<mef::Gate>("G" + std::to_string(i)));
    b.gates.back()->formula(std::make_unique<mef::Formula>(g.conn, std::move(args), mn, mx));
  }
  return b;
}

using Set = std::set<int>;  // literals +-(i+1)
using Sets = std::set<Set>;

inline std::string str(const Sets& ss) {
  std::string s = "{";
  for (auto& x : ss) {
    s += "[";
    for (int l : x) s += (l < 0 ? "~B" : "B") + std::to_string(std::abs(l) - 1) + " ";
    s += "]";
  }
  return s + "}";
}

/// Minimal solutions (sets of events that make the function true).
inline Sets min_cuts(const std::vector<bool>& t, int limit) {
  std::vector<unsigned> mins;
  std::vector<unsigned> order(t.size());
  for (unsigned i = 0; i < t.size(); ++i) order[i] = i;
  std::sort(order.begin(), order.end(), [](unsigned a, unsigned b) {
    int x = __builtin_popcount(a), y = __builtin_popcount(b);
    return x != y ? x < y : a < b;
  });
  for (unsigned x : order) {
    if (!t[x]) continue;
    bool sub = false;
    for (unsigned m : mins) sub |= (m & x) == m;
    if (!sub) mins.push_back(x);
  }
  Sets r;
  for (unsigned m : mins) {
    if (__builtin_popcount(m) > limit) continue;
    Set s;
    for (int i = 0; i < 31; ++i)
      if (m >> i & 1) s.insert(i + 1);
    r.insert(s);
  }
  return r;
}

/// All prime implicants, by the consensus over cubes.
inline Sets primes(const std::vector<bool>& t, int n) {
  // A cube is a pair (care, value); it is an implicant iff t holds all over it.
  int total = 1;
  for (int i = 0; i < n; ++i) total *= 3;
  std::map<std::pair<unsigned, unsigned>, bool> imp;
  std::vector<std::pair<unsigned, unsigned>> cubes;
  for (int c = 0; c < total; ++c) {
    unsigned care = 0, val = 0;
    int x = c;
    for (int i = 0; i < n; ++i, x /= 3) {
      if (x % 3) care |= 1u << i;
      if (x % 3 == 2) val |= 1u << i;
    }
    bool ok = true;
    for (unsigned a = 0; ok && a < t.size(); ++a)
      if ((a & care) == val && !t[a]) ok = false;
    imp[{care, val}] = ok;
    if (ok) cubes.push_back({care, val});
  }
  Sets r;
  for (auto [care, val] : cubes) {
    bool prime = true;
    for (int i = 0; prime && i < n; ++i)
      if (care >> i & 1 && imp[{care & ~(1u << i), val & ~(1u << i)}]) prime = false;
    if (!prime) continue;
    Set s;
    for (int i = 0; i < n; ++i)
      if (care >> i & 1) s.insert(val >> i & 1 ? i + 1 : -(i + 1));
    r.insert(s);
  }
  return r;
}

inline double prob(const std::vector<bool>& t, const std::vector<double>& p) {
  double s = 0;
  for (unsigned x = 0; x < t.size(); ++x) {
    if (!t[x]) continue;
    double q = 1;
    for (std::size_t i = 0; i < p.size(); ++i) q *= x >> i & 1 ? p[i] : 1 - p[i];
    s += q;
  }
  return s;
}

template <class Products>
Sets collect(const Products& ps, const Built& b, const char* who, bool* dup = nullptr) {
  Sets r;
  for (const core::Product& p : ps) {
    Set s;
    for (const core::Literal& l : p) {
      int i = b.index.at(&l.event) + 1;
      s.insert(l.complement ? -i : i);
    }
    if ((int)s.size() != p.size()) nat::fail(std::string(who) + ": repeated literal in a product");
    if (!r.insert(s).second) {
      if (dup) *dup = true;
      else nat::fail(std::string(who) + ": duplicate product " + str({s}));
    }
  }
  return r;
}

inline core::Settings settings(core::Algorithm a, int limit = 20) {
  core::Settings s;
  s.algorithm(a);
  s.limit_order(limit);
  return s;
}

/// Value of a PDAG node, negative index for complement.
struct PdagEval {
  const core::Pdag& g;
  std::map<int, bool> var;  // index -> value
  std::map<int, bool> memo;
  bool gate(const core::Gate& x) {
    auto it = memo.find(x.index());
    if (it != memo.end()) return it->second;
    std::vector<bool> v;
    for (const auto& a : x.args<core::Gate>()) v.push_back((a.first < 0) ^ gate(a.second));
    for (const auto& a : x.args<core::Variable>()) v.push_back((a.first < 0) ^ var.at(a.second.index()));
    if (x.constant()) v.push_back((*x.args().begin() < 0) ^ true);
    int c = std::count(v.begin(), v.end(), true), n = v.size();
    if (n != (int)x.args().size()) nat::fail("a gate's argument maps disagree with its argument set");
    bool r = false;
    switch (x.type()) {
      case core::kAnd: r = c == n; break;
      case core::kOr: r = c > 0; break;
      case core::kAtleast: r = c >= x.min_number(); break;
      case core::kXor: r = c == 1; break;
      case core::kNot: r = c == 0; break;
      case core::kNand: r = c < n; break;
      case core::kNor: r = c == 0; break;
      case core::kNull: r = c == 1; break;
    }
    return memo[x.index()] = r;
  }
  bool root() { return g.complement() ^ gate(*const_cast<core::Pdag&>(g).root()); }
};

inline PdagEval pdag_eval(const core::Pdag& g, const Built& b, unsigned x) {
  PdagEval e{g, {}, {}};
  int i = core::Pdag::kVariableStartIndex;
  for (const mef::BasicEvent* ev : g.basic_events()) e.var[i++] = x >> b.index.at(ev) & 1;
  return e;
}

}  // namespace ft
