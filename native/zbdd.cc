// Bounded checks of the set algebra of ZBDDs (C02) and of the iteration over products (C29).
#include <algorithm>
#include <set>
#include "ft.h"

namespace {
using namespace scram;
using namespace ft;
using nat::close;
using nat::describe;
using nat::drive;
using nat::fail;
using nat::num;
using nat::Rng;
using nat::Run;

using Set = std::set<int>;          // literals
using Family = std::set<Set>;
constexpr int kMaxVars = 6;

std::string show(const Family& f) {
  std::string s = "{";
  for (auto& p : f) {
    s += "[";
    for (int i : p) s += std::to_string(i) + " ";
    s += "]";
  }
  return s + "}";
}

/// Exposes the operations on diagrams.
class Diagram : public core::Zbdd {
 public:
  explicit Diagram(const core::Settings& s) : core::Zbdd(s, false, 0) {}
  using core::Zbdd::kBase_;
  using core::Zbdd::kEmpty_;

  VertexPtr literal(int index) { return FindOrAddVertex(index, kBase_, kEmpty_, std::abs(index)); }
  VertexPtr conj(const VertexPtr& a, const VertexPtr& b, int limit, bool typed) {
    return typed ? Apply(core::kAnd, a, b, limit) : Apply<core::kAnd>(a, b, limit);
  }
  VertexPtr disj(const VertexPtr& a, const VertexPtr& b, int limit, bool typed) {
    return typed ? Apply(core::kOr, a, b, limit) : Apply<core::kOr>(a, b, limit);
  }
  VertexPtr minimize(const VertexPtr& a) { return Minimize(a); }
  VertexPtr positive(const VertexPtr& a) {
    std::unordered_map<int, VertexPtr> wide;
    return EliminateComplements(a, &wide);
  }
  void forget() { ClearTables(); }

  /// A diagram of the family as it is, without minimization.
  VertexPtr raw(const Family& f) { return raw(f, 1); }

  /// The products of a diagram, by its structure.
  Family family(const VertexPtr& v) const {
    Family out;
    walk(v, {}, 0, 0, &out);
    return out;
  }
  Family iterated(const VertexPtr& v) {
    root(v);
    Family out;
    long n = 0;
    for (const std::vector<int>& p : products()) {
      ++n;
      if (!out.insert(Set(p.begin(), p.end())).second) fail("a product is visited twice");
    }
    if (static_cast<long>(products().size()) != n) fail("the number of products is not that of the visited");
    if (products().empty() != (n == 0)) fail("emptiness of the products");
    return out;
  }

 private:
  VertexPtr raw(const Family& f, int var) {
    if (f.empty()) return kEmpty_;
    if (f == Family{{}}) return kBase_;
    for (int index : {var, -var}) {
      Family with, without;
      for (Set p : f) {
        if (p.count(index)) p.erase(index), with.insert(p);
        else without.insert(p);
      }
      if (with.empty()) continue;
      VertexPtr low = index > 0 ? rawrest(without, var) : raw(without, var + 1);
      VertexPtr high = raw(with, var + 1);
      if (high->id() == low->id()) return low;  // x f + f
      return FindOrAddVertex(index, high, low, var);
    }
    return raw(f, var + 1);
  }
  VertexPtr rawrest(const Family& f, int var) {  // positive literals of the variable are done
    Family with, without;
    for (Set p : f) {
      if (p.count(-var)) p.erase(-var), with.insert(p);
      else without.insert(p);
    }
    if (with.empty()) return raw(without, var + 1);
    VertexPtr low = raw(without, var + 1), high = raw(with, var + 1);
    if (high->id() == low->id()) return low;
    return FindOrAddVertex(-var, high, low, var);
  }
  void walk(const VertexPtr& v, Set p, int order, int index, Family* out) const {
    if (v->terminal()) {
      if (core::Terminal<core::SetNode>::Ref(v).value()) out->insert(p);
      return;
    }
    core::SetNode& n = core::SetNode::Ref(v);
    if (n.order() < order || (n.order() == order && n.index() >= index)) fail("the diagram is not ordered");
    if (n.order() != std::abs(n.index())) fail("the order of a literal changed");
    if (n.high()->id() == 0) fail("a suppressed branch is kept");
    walk(n.low(), p, n.order(), n.index(), out);
    p.insert(n.index());
    walk(n.high(), p, n.order() + 1, 1 << 20, out);
  }
};

bool covers(const Family& f, unsigned x, bool positive = false) {
  for (auto& p : f) {
    bool all = true;
    for (int i : p)
      if (i > 0 ? !(x >> (i - 1) & 1) : !positive && (x >> (-i - 1) & 1)) all = false;
    if (all) return true;
  }
  return false;
}

Family minimal(const Family& f) {
  Family out;
  for (auto& p : f) {
    bool keep = true;
    for (auto& q : f)
      if (q != p && std::includes(p.begin(), p.end(), q.begin(), q.end())) keep = false;
    if (keep) out.insert(p);
  }
  return out;
}

Family up_to(const Family& f, int limit) {
  Family out;
  for (auto& p : f)
    if (static_cast<int>(p.size()) <= limit) out.insert(p);
  return out;
}

Family random_family(Rng& r, int n, bool complements, int most) {
  Family out;
  int max = r.chance(0.15) ? 1 : most;
  for (int k = r.below(max + 1); k > 0; --k) {
    Set p;
    double density = r.uniform();
    for (int i = 1; i <= n; ++i)
      if (r.chance(density)) p.insert(complements && r.chance(0.4) ? -i : i);
    out.insert(p);
  }
  return out;
}

void same_function(const Family& got, const Family& a, const Family& b, int op, int n, const char* what) {
  for (unsigned x = 0; x < (1u << n); ++x) {
    bool l = covers(a, x), m = covers(b, x), want = op == 0 ? l && m : op == 1 ? l || m : l;
    if (covers(got, x) != want) fail(std::string(what) + " gives " + show(got) + ", wrong at " + std::to_string(x));
  }
}

void run_C02(Run& run) {
  run.cases([](Rng& r, long) {
    int n = r.range(1, kMaxVars);
    bool compl_ = r.chance(0.4), primes = compl_ && r.chance(0.3);
    core::Settings s;
    if (primes) s.prime_implicants(true);
    s.limit_order(20);
    Diagram d(s);
    for (int round = 0, rounds = r.range(1, 4); round < rounds; ++round) {
      Family a = random_family(r, n, compl_, 8), b = random_family(r, n, compl_, 8);
      int limit = compl_ || r.chance(0.4) ? 20 : r.below(n + 1);
      describe(std::string(primes ? "literals " : compl_ ? "complements " : "") + "a=" + show(a) + " b=" + show(b) + " limit=" + std::to_string(limit));
      if (r.chance(0.3)) d.forget();
      auto va = d.raw(a), vb = d.raw(b);
      same_function(d.family(va), a, a, 2, n, "building");
      auto ma = d.minimize(va), mb = d.minimize(vb);
      same_function(d.family(ma), a, a, 2, n, "minimization");
      if (!compl_ && d.family(ma) != minimal(a)) fail("minimization gives " + show(d.family(ma)));
      if (d.family(ma) != minimal(d.family(ma))) fail("minimization leaves " + show(d.family(ma)));
      if (d.family(va) != d.family(d.raw(a)) && !compl_) fail("minimization changes its operand");
      bool raw = r.chance(0.4), typed = r.chance(0.3);
      for (int op : {0, 1}) {
        auto x = raw ? va : ma, y = raw ? vb : mb;
        auto v = op == 0 ? d.conj(x, y, limit, typed) : d.disj(x, y, limit, typed);
        Family got = d.family(v);
        for (auto& p : got)
          if (!compl_ && static_cast<int>(p.size()) > limit) fail("a product is beyond the limit: " + show(got));
        if (compl_) {
          same_function(got, a, b, op, n, op == 0 ? "the conjunction" : "the disjunction");
        } else {
          Family want;
          if (op == 1) {
            want = a;
            want.insert(b.begin(), b.end());
          } else {
            for (auto& p : a)
              for (auto& q : b) {
                Set u = p;
                u.insert(q.begin(), q.end());
                want.insert(u);
              }
          }
          want = minimal(up_to(want, limit));
          if (d.family(d.minimize(v)) != want)
            fail(std::string(op == 0 ? "the conjunction" : "the disjunction") + " gives " + show(d.family(d.minimize(v))) + ", expected " + show(want));
          if (!raw && got != want) fail("an operation on minimal families gives " + show(got));
        }
        auto m = d.minimize(v);
        if (d.iterated(m) != d.family(m)) fail("iteration gives other products than the diagram: " + show(d.iterated(m)));
      }
      if (compl_ && !primes) {
        Family got = d.family(d.positive(ma)), f = d.family(ma);
        for (auto& p : got)
          for (int i : p)
            if (i < 0) fail("a complement is left in " + show(got));
        for (unsigned x = 0; x < (1u << n); ++x)
          if (covers(got, x) != covers(f, x, true)) fail("complement elimination gives " + show(got));
      }
    }
  });
}

// ------------------------------------------------------------------ C29
template <class Algorithm>
void iterate(const Tree& t, const Built& b, core::Algorithm alg, int limit, bool primes, const char* who) {
  core::Settings s;
  s.algorithm(alg);
  s.limit_order(limit);
  if (primes) s.prime_implicants(true);
  core::FaultTreeAnalyzer<Algorithm> fta(b.root(), s);
  fta.Analyze();
  auto err = [&](const std::string& m) { fail(std::string(who) + ": " + m); };
  const core::ProductContainer& ps = fta.products();
  std::set<std::set<std::pair<int, bool>>> seen;
  std::set<const mef::BasicEvent*> events;
  std::vector<int> dist;
  int count = 0;
  auto tab = t.table();
  for (const core::Product& p : ps) {
    ++count;
    std::set<std::pair<int, bool>> lits;
    double prob = 1;
    int n = 0;
    unsigned set = 0, fixed = 0;
    for (const core::Literal& l : p) {
      ++n;
      int id = -1;
      for (int i = 0; i < t.n; ++i)
        if (b.basics[i].get() == &l.event) id = i;
      if (id < 0) err("a literal of an unknown event");
      if (!lits.insert({id, l.complement}).second) err("a literal occurs twice");
      if (lits.count({id, !l.complement})) err("a product with contradicting literals");
      events.insert(&l.event);
      prob *= l.complement ? 1 - t.p[id] : t.p[id];
      if (!l.complement) set |= 1u << id;
      fixed |= 1u << id;
      if (l.complement && !primes) err("a complement in a cut set");
    }
    if (p.size() != n || p.empty() != (n == 0) || p.order() != (n ? n : 1)) err("the size or the order of a product");
    if (!close(p.p(), prob, 1e-12, 0)) err("the probability of a product is " + num(p.p()) + ", expected " + num(prob));
    if (n > limit) err("a product beyond the limit");
    if (!seen.insert(lits).second) err("a product is visited twice");
    if (static_cast<int>(dist.size()) < p.order()) dist.resize(p.order());
    dist[p.order() - 1]++;
    if (primes) {
      for (unsigned x = 0; x < tab.size(); ++x)
        if ((x & fixed) == set && !tab[x]) err("a product that is no implicant");
    }
  }
  if (ps.size() != count) err("the number of products is " + std::to_string(ps.size()) + " of " + std::to_string(count));
  if (ps.distribution() != dist) err("the distribution of the products by order");
  if (ps.empty() != (count == 0)) err("emptiness of the products");
  if (events != std::set<const mef::BasicEvent*>(ps.product_events().begin(), ps.product_events().end())) err("the events of the products");
  // Every product that is represented: the family covers what the function does.
  if (primes || limit >= t.n) {
    for (unsigned x = 0; x < tab.size(); ++x) {
      bool in = false;
      for (auto& p : seen) {
        bool all = true;
        for (auto& [i, c] : p)
          if (c == static_cast<bool>(x >> i & 1)) all = false;
        in = in || all;
      }
      bool any = false;  // cut sets of non-coherent trees cover the upward closure
      for (unsigned y = 0; y < tab.size() && !primes; ++y) any = any || ((y & x) == y && tab[y]);
      if (in != (primes ? static_cast<bool>(tab[x]) : any)) err("the products do not cover the function at " + std::to_string(x));
    }
  }
  auto it = ps.begin();
  for (int k = 0; k < count; ++k, ++it)
    if (it == ps.end()) err("the iteration ends early");
  if (!(it == ps.end())) err("the iteration does not end");
}

void run_C29(Run& run) {
  run.cases([](Rng& r, long) {
    Options o;
    o.coherent = r.chance(0.6);
    o.max_events = r.chance(0.3) ? 9 : 6;
    o.max_gates = 9;
    Tree t = random_tree(r, o);
    int limit = !o.coherent || r.chance(0.5) ? 20 : r.range(1, 5);
    describe(t.str() + " limit=" + std::to_string(limit));
    Built b = build(t);
    iterate<core::Bdd>(t, b, core::Algorithm::kBdd, limit, false, "BDD");
    iterate<core::Zbdd>(t, b, core::Algorithm::kZbdd, limit, false, "ZBDD");
    iterate<core::Mocus>(t, b, core::Algorithm::kMocus, limit, false, "MOCUS");
    if (t.n <= 6) iterate<core::Bdd>(t, b, core::Algorithm::kBdd, 20, true, "prime implicants");
  });
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C02", run_C02}, {"C29", run_C29}}); }
