// Bounded checks of the manipulation of gate arguments in the analysis graph (C08).
#include <algorithm>
#include <bitset>
#include <memory>
#include <set>
#include "common.h"
#include "pdag.h"

namespace {
using namespace scram;
using core::GatePtr;
using core::VariablePtr;
using nat::describe;
using nat::drive;
using nat::fail;
using nat::Rng;
using nat::Run;

constexpr int kVars = 7;
using Table = std::bitset<1 << kVars>;

const char* kNames[] = {"and", "or", "atleast", "xor", "not", "nand", "nor", "null"};

struct Pool {
  core::Pdag graph;
  std::vector<VariablePtr> vars;
  std::vector<GatePtr> gates;  // a gate's arguments are of a lower position
  std::string log;

  Pool() {
    for (int i = 0; i < kVars; ++i) vars.push_back(std::make_shared<core::Variable>(&graph));
  }

  Table var(int i) const {
    Table t;
    for (int x = 0; x < (1 << kVars); ++x) t[x] = x >> i & 1;
    return t;
  }

  static Table logic(core::Connective type, int min, const std::vector<Table>& args) {
    Table out;
    for (int x = 0; x < (1 << kVars); ++x) {
      int n = args.size(), t = 0;
      for (auto& a : args) t += a[x];
      bool v = false;
      switch (type) {
        case core::kAnd: v = t == n; break;
        case core::kOr: v = t > 0; break;
        case core::kAtleast: v = t >= min; break;
        case core::kXor: v = t == 1; break;
        case core::kNot: v = t == 0; break;
        case core::kNor: v = t == 0; break;
        case core::kNand: v = t != n; break;
        case core::kNull: v = t > 0; break;
      }
      out[x] = v;
    }
    return out;
  }

  /// The tables of the arguments of a gate, from its containers.
  std::map<int, Table> args(const core::Gate& g) const {
    std::map<int, Table> out;
    auto put = [&](int k, Table t) { out[k] = k > 0 ? t : ~t; };
    for (const auto& a : g.args<core::Gate>()) put(a.first, value(a.second));
    for (const auto& a : g.args<core::Variable>())
      for (int i = 0; i < kVars; ++i)
        if (vars[i].get() == &a.second) put(a.first, var(i));
    if (g.constant()) {
      if (g.args().size() != 1) fail("a constant gate has " + std::to_string(g.args().size()) + " arguments" + log);
      put(*g.args().begin(), ~Table());
    }
    return out;
  }

  static std::vector<Table> tables(const std::map<int, Table>& m) {
    std::vector<Table> out;
    for (auto& [k, t] : m) out.push_back(t);
    return out;
  }

  Table value(const core::Gate& g) const { return logic(g.type(), g.min_number(), tables(args(g))); }

  /// The argument indices, the containers and the links between the nodes agree.
  void consistent() {
    std::map<int, std::set<int>> users;
    std::map<int, const core::Node*> nodes;
    std::vector<const core::Gate*> todo;
    std::set<const core::Gate*> seen;
    for (auto& g : gates) todo.push_back(g.get());
    while (!todo.empty()) {
      const core::Gate& g = *todo.back();
      todo.pop_back();
      if (!seen.insert(&g).second) continue;
      if (nodes.count(g.index()) && nodes[g.index()] != &g) fail("two nodes with one index" + log);
      nodes[g.index()] = &g;
      std::set<int> ks;
      auto take = [&](int k, const core::Node& n) {
        if (std::abs(k) != n.index()) fail("an argument under the index of another node" + log);
        if (!ks.insert(k).second) fail("an argument is held twice" + log);
        if (ks.count(-k)) fail("an argument is held with its complement" + log);
        if (!g.args().count(k)) fail("a held argument is not in the indices" + log);
        users[n.index()].insert(g.index());
        nodes[n.index()] = &n;
      };
      for (const auto& a : g.args<core::Gate>()) {
        take(a.first, a.second);
        todo.push_back(&a.second);
      }
      for (const auto& a : g.args<core::Variable>()) take(a.first, a.second);
      if (g.constant() && !ks.empty()) fail("a constant gate holds arguments" + log);
      if (ks.size() + g.constant() != g.args().size()) fail("an argument index without an argument" + log);
    }
    for (auto& v : vars) nodes[v->index()] = v.get();
    for (auto& [i, n] : nodes) {
      std::set<int> ps;
      for (auto& p : n->parents()) {
        auto g = p.second.lock();
        if (!g) fail("a link to an expired gate" + log);
        if (g->index() != p.first) fail("a link under a wrong index" + log);
        ps.insert(p.first);
      }
      if (ps != users[i]) fail("the links of node " + std::to_string(i) + " are not those of its users" + log);
    }
  }

  /// Adds an argument by a signed position: variables first, then gates.
  void add(core::Gate& g, int pos, bool compl_) {
    if (pos < kVars)
      g.AddArg(vars[pos], compl_);
    else
      g.AddArg(gates[pos - kVars], compl_);
  }
  bool reaches(const core::Gate& from, const core::Gate* to) const {
    if (&from == to) return true;
    for (const auto& a : from.args<core::Gate>())
      if (reaches(a.second, to)) return true;
    return false;
  }
  int index(int pos) const { return pos < kVars ? vars[pos]->index() : gates[pos - kVars]->index(); }
  Table table(int pos) const { return pos < kVars ? var(pos) : value(*gates[pos - kVars]); }
};

std::string show(const core::Gate& g) {
  std::string s = "G" + std::to_string(g.index()) + "=" + kNames[g.type()];
  if (g.type() == core::kAtleast) s += std::to_string(g.min_number());
  s += "(";
  for (int k : g.args()) s += std::to_string(k) + " ";
  return s + ")";
}

void same(const Pool& p, const core::Gate& g, const Table& expected, const char* what) {
  if (p.value(g) != expected) fail(std::string(what) + " changes the logic: now " + show(g) + p.log);
}

/// Whether a gate of this logic has room for one more argument (a duplicate, a complement, or a new one).
bool room(const core::Gate& g, int index) {
  if (g.constant()) return false;
  int n = g.args().size();
  bool special = g.args().count(index) || g.args().count(-index);
  switch (g.type()) {
    case core::kNot: case core::kNull: return n == 0;
    case core::kXor: return n <= 1;
    case core::kAtleast: return !special || (g.min_number() >= 2 && g.min_number() <= n && n >= 2);
    default: return true;
  }
}

/// A complete gate: one that stands for its logic.
bool whole(const core::Gate& g) {
  int n = g.args().size();
  if (g.constant()) return false;
  switch (g.type()) {
    case core::kNot: case core::kNull: return n == 1;
    case core::kXor: return n == 2;
    case core::kAtleast: return g.min_number() >= 2 && g.min_number() < n;
    default: return n >= 2;
  }
}

GatePtr make(Pool* p, Rng& r, int extra) {
  auto g = std::make_shared<core::Gate>(static_cast<core::Connective>(r.below(8)), &p->graph);
  int max = kVars + p->gates.size(), n = 1;
  switch (g->type()) {
    case core::kNot: case core::kNull: break;
    case core::kXor: n = 2; break;
    case core::kAtleast: n = r.range(3, 6); g->min_number(r.range(2, n - 1)); break;
    default: n = r.range(2, 5);
  }
  std::set<int> used;
  while (static_cast<int>(used.size()) < n) {
    int pos = p->gates.empty() || r.chance(0.6) ? r.below(kVars) : r.below(max);
    if (pos >= kVars && p->gates[pos - kVars]->constant()) continue;
    if (!used.insert(pos).second) continue;
    p->add(*g, pos, r.chance(extra ? 0.4 : 0.3));
  }
  p->log += " " + show(*g);
  p->gates.push_back(g);
  return g;
}

void history(Rng& r) {
  Pool p;
  p.log = " ::";
  int count = r.range(1, 4);
  for (int i = 0; i < count; ++i) make(&p, r, i);
  p.consistent();
  for (int step = 0, steps = r.range(1, 6); step < steps; ++step) {
    int at = r.below(p.gates.size());
    core::Gate& g = *p.gates[at];
    if (g.constant()) continue;
    auto before = p.args(g);
    auto type = g.type();
    int min = g.min_number(), n = g.args().size();
    std::string pre = show(g);
    auto note = [&](const std::string& s) {
      p.log += "; " + s;
      describe(p.log);
    };
    auto some = [&] { auto it = g.args().begin(); std::advance(it, r.below(n)); return *it; };
    switch (r.below(10)) {
      case 0: case 1: case 2: {  // one more argument, often one that is there already
        int pos = r.below(kVars + at);
        if (n && r.chance(0.7))
          for (int q = 0; q < kVars + at; ++q)
            if (g.args().count(p.index(q)) || g.args().count(-p.index(q)))
              if (pos >= kVars + at || r.chance(0.4) || !(g.args().count(p.index(pos)) || g.args().count(-p.index(pos)))) pos = q;
        bool c = r.chance(0.5);
        if (pos >= kVars && p.gates[pos - kVars]->constant()) break;
        int index = c ? -p.index(pos) : p.index(pos);
        if (!room(g, index)) break;
        note("add " + std::to_string(index) + " to " + pre);
        auto t = Pool::tables(before);
        t.push_back(c ? ~p.table(pos) : p.table(pos));
        p.add(g, pos, c);
        same(p, g, Pool::logic(type, min, t), "adding an argument");
        break;
      }
      case 3: {
        if (!n) break;
        int k = some();
        note("erase " + std::to_string(k) + " of " + pre);
        g.EraseArg(k);
        before.erase(k);
        same(p, g, Pool::logic(type, min, Pool::tables(before)), "erasing an argument");
        break;
      }
      case 4: {
        note("negate the arguments of " + pre);
        g.NegateArgs();
        auto t = Pool::tables(before);
        for (auto& x : t) x = ~x;
        same(p, g, Pool::logic(type, min, t), "negating the arguments");
        break;
      }
      case 5: {
        if (!n) break;
        int k = some();
        note("negate " + std::to_string(k) + " of " + pre);
        g.NegateArg(k);
        before[k] = ~before[k];
        same(p, g, Pool::logic(type, min, Pool::tables(before)), "negating an argument");
        break;
      }
      case 6: {  // an argument of known value
        if (!whole(g)) break;
        int k = some();
        bool state = r.chance(0.5);
        note("argument " + std::to_string(k) + " of " + pre + " is " + (state ? "true" : "false"));
        core::NodePtr arg = g.GetArg(k);
        if (arg->index() != std::abs(k)) fail("the argument of an index is another node" + p.log);
        if (g.GetArgSign(arg) != (k > 0 ? 1 : -1)) fail("the sign of an argument is wrong" + p.log);
        g.ProcessConstantArg(arg, state);
        before[k] = state == (k > 0) ? ~Table() : Table();
        same(p, g, Pool::logic(type, min, Pool::tables(before)), "an argument's constant value");
        break;
      }
      case 7: {  // arguments for another gate
        if (!n || at + 1 >= static_cast<int>(p.gates.size())) break;
        core::GatePtr to = p.gates[r.range(at + 1, p.gates.size() - 1)];
        int k = some();
        if (!room(*to, k) || p.reaches(*to, &g)) break;
        bool move = r.chance(0.5);
        note(std::string(move ? "transfer " : "share ") + std::to_string(k) + " of " + pre + " to " + show(*to));
        auto tt = to->type();
        int tm = to->min_number();
        auto t = Pool::tables(p.args(*to));
        t.push_back(before[k]);
        if (move) g.TransferArg(k, to); else g.ShareArg(k, to);
        same(p, *to, Pool::logic(tt, tm, t), "receiving an argument");
        if (move) before.erase(k);
        same(p, g, Pool::logic(type, min, Pool::tables(before)), "giving an argument");
        break;
      }
      case 8: {
        if (!whole(g) || type == core::kNull) break;
        note("clone " + pre);
        GatePtr c = g.Clone();
        if (c->index() == g.index() || c->type() != type || c->args() != g.args()) fail("the clone has other arguments" + p.log);
        same(p, *c, p.value(g), "cloning");
        p.gates.insert(p.gates.begin() + at + 1, c);
        break;
      }
      case 9: {  // an argument gate's arguments in its place
        if (!whole(g) || g.args<core::Gate>().empty()) break;
        std::vector<int> ks;
        for (const auto& a : g.args<core::Gate>()) ks.push_back(a.first);
        int k = ks[r.below(ks.size())];
        GatePtr a;
        for (auto& x : p.gates)
          if (x->index() == std::abs(k)) a = x;
        if (!a || a->args().empty()) break;
        Table v = p.value(g);
        if (a->type() == core::kNull && (type != core::kAtleast || min >= 2)) {
          note("join " + show(*a) + " into " + pre);
          g.JoinNullGate(k);
          same(p, g, v, "joining a pass-through gate");
        } else if (k > 0 && !a->constant() && ((a->type() == core::kAnd && (type == core::kAnd || type == core::kNand)) ||
                                               (a->type() == core::kOr && (type == core::kOr || type == core::kNor)))) {
          note("coalesce " + show(*a) + " into " + pre);
          g.CoalesceGate(a);
          same(p, g, v, "coalescing a gate");
        }
        break;
      }
    }
    p.consistent();
  }
}

/// Every gate with its arguments, and every duplicate, complement or constant for it.
void single(int max) {
  for (int type = 0; type < 8; ++type)
    for (int n = 1; n <= max; ++n)
      for (int min = 2; min <= (type == core::kAtleast ? n : 2); ++min)
        for (int signs = 0; signs < (1 << n); ++signs)
          for (int k = 0; k < n; ++k)
            for (int what = 0; what < 4; ++what) {
              auto conn = static_cast<core::Connective>(type);
              bool one = conn == core::kNot || conn == core::kNull;
              if (one && (n != 1 || what < 2)) continue;
              if (conn == core::kXor && n != (what < 2 ? 1 : 2)) continue;
              if (what >= 2 && !one && n < 2) continue;
              if (conn == core::kAtleast && (n < 2 || (what >= 2 && min >= n))) continue;
              Pool p;
              auto g = std::make_shared<core::Gate>(conn, &p.graph);
              if (conn == core::kAtleast) g->min_number(min);
              std::vector<Table> t;
              for (int i = 0; i < n; ++i) {
                bool c = signs >> i & 1;
                g->AddArg(p.vars[i], c);
                t.push_back(c ? ~p.var(i) : p.var(i));
              }
              p.gates.push_back(g);
              std::string pre = show(*g);
              if (what < 2) {
                bool c = (signs >> k & 1) != what;
                describe("add " + std::to_string(c ? -p.index(k) : p.index(k)) + " to " + pre);
                t.push_back(c ? ~p.var(k) : p.var(k));
                g->AddArg(p.vars[k], c);
              } else {
                describe("variable " + std::to_string(p.index(k)) + " of " + pre + " is " + (what == 3 ? "true" : "false"));
                t[k] = (what == 3) != (signs >> k & 1) ? ~Table() : Table();
                g->ProcessConstantArg(p.vars[k], what == 3);
              }
              same(p, *g, Pool::logic(conn, min, t), "the argument");
              p.consistent();
            }
}

void run_C08(Run& run) {
  if (run.only < 0) single(6);
  run.cases([](Rng& r, long) { history(r); });
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C08", run_C08}}); }
