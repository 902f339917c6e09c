// Bounded checks on whole models: phases (C21), registries (C25), common-cause groups (C11), cycles (C22).
#include <boost/range/adaptor/indirected.hpp>

#include "alignment.h"
#include "ccf_group.h"
#include "cycle.h"
#include "event_tree.h"
#include "expression/numerical.h"
#include "ft.h"
#include "parameter.h"
#include "substitution.h"
#include "expression/exponential.h"
#include "instruction.h"
#include "risk_analysis.h"

namespace {
using namespace scram;
using namespace ft;
using nat::describe;
using nat::drive;
using nat::fail;
using nat::num;
using nat::Run;

// ------------------------------------------------------------------ C21
struct PhaseSpec {
  double f;
  std::vector<std::pair<int, bool>> set;
};

void check_fractions(Rng& r) {
  std::vector<double> fs;
  double rest = 1;
  std::string d = "fractions";
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    double f = i + 1 == n ? rest : r.chance(0.3) ? rest * r.below(3) / 2.0 : rest * r.uniform();
    rest -= f;
    if (r.chance(0.15)) f += (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 3e-4 : 3e-5);
    if (r.chance(0.05)) f = -f;
    if (r.chance(0.03)) f += 1;
    fs.push_back(f);
    d += " " + num(f);
  }
  describe(d);
  mef::Alignment a("A");
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    bool ok = fs[i] > 0 && fs[i] <= 1, made = false;
    try {
      a.Add(std::make_unique<mef::Phase>("p" + std::to_string(i), fs[i]));
      made = true;
    } catch (const mef::DomainError&) {
    }
    if (ok != made) fail(ok ? "a valid fraction is refused" : "an invalid fraction is accepted");
    if (made) sum += fs[i];
  }
  if (std::abs(std::abs(sum - 1) - 1e-4) < 1e-9) return;
  bool ok = std::abs(sum - 1) < 1e-4, valid = true;
  try {
    a.Validate();
  } catch (const mef::ValidityError&) {
    valid = false;
  }
  if (ok != valid) fail(ok ? "a partition is refused" : "phases that do not add up to one are accepted");
}

void run_C21(Run& run) {
  run.cases([](Rng& r, long) {
    if (r.chance(0.5)) return check_fractions(r);
    Options o;
    o.coherent = r.chance(0.5);
    o.max_events = 4, o.max_gates = 4, o.house = 0.35;
    Tree t = random_tree(r, o);
    t.house[0] = r.chance(0.5), t.house[1] = r.chance(0.5);
    double mission = r.chance(0.2) ? 8760 : 1 + r.uniform() * 100;
    std::string d = t.str() + " mission=" + num(mission);
    mef::Model model("m");
    model.mission_time().value(mission);
    std::vector<double> rate;
    Built b = build(t);
    std::vector<std::unique_ptr<mef::Expression>> es;
    for (int i = 0; i < t.n; ++i) {
      rate.push_back(r.uniform() * 2 / mission);
      auto l = std::make_unique<mef::ConstantExpression>(rate.back());
      auto e = std::make_unique<mef::Exponential>(l.get(), &model.mission_time());
      b.basics[i]->expression(e.get());
      es.push_back(std::move(l)), es.push_back(std::move(e));
    }
    std::vector<mef::HouseEvent*> houses;
    for (auto& h : b.houses) houses.push_back(h.get()), model.Add(std::move(h));
    auto ft = std::make_unique<mef::FaultTree>("F");
    ft->Add(b.gates.back().get());
    for (std::size_t i = 0; i + 1 < b.gates.size(); ++i) ft->Add(b.gates[i].get());
    ft->CollectTopEvents();
    if (ft->top_events().size() != 1 || ft->top_events()[0] != b.gates.back().get()) return;
    model.Add(std::move(ft));
    std::vector<std::unique_ptr<mef::SetHouseEvent>> ins;
    std::vector<std::vector<PhaseSpec>> spec(r.range(1, 2));
    for (std::size_t a = 0; a < spec.size(); ++a) {
      auto al = std::make_unique<mef::Alignment>("A" + std::to_string(a));
      double rest = 1;
      int n = r.range(1, 3);
      for (int i = 0; i < n; ++i) {
        PhaseSpec p;
        p.f = i + 1 == n ? rest : rest * (0.1 + 0.8 * r.uniform());
        rest -= p.f;
        d += " A" + std::to_string(a) + ".p" + std::to_string(i) + "=" + num(p.f);
        std::vector<mef::SetHouseEvent*> list;
        for (int k = r.below(4); k > 0; --k) {
          p.set.push_back({r.below(2), r.chance(0.5)});
          d += " H" + std::to_string(p.set.back().first) + (p.set.back().second ? ":=true" : ":=false");
          ins.push_back(std::make_unique<mef::SetHouseEvent>("H" + std::to_string(p.set.back().first), p.set.back().second));
          list.push_back(ins.back().get());
        }
        auto ph = std::make_unique<mef::Phase>("p" + std::to_string(i), p.f);
        ph->instructions(list);
        al->Add(std::move(ph));
        spec[a].push_back(p);
      }
      al->Validate();
      model.Add(std::move(al));
    }
    describe(d);
    core::Settings s = settings(core::Algorithm::kBdd);
    s.probability_analysis(true).mission_time(mission);
    struct Ra : core::RiskAnalysis {
      using RiskAnalysis::RiskAnalysis;
      double mission() { return core::Analysis::settings().mission_time(); }
    } ra(&model, s);
    ra.Analyze();
    for (std::size_t i = 0; i < houses.size(); ++i)
      if (houses[i]->state() != t.house[i]) fail("house event H" + std::to_string(i) + " is left " + (t.house[i] ? "false" : "true"));
    if (model.mission_time().value() != mission) fail("the mission time is left at " + num(model.mission_time().value()));
    if (ra.mission() != mission) fail("the mission time of the settings is left at " + num(ra.mission()));
    std::size_t total = 0;
    for (auto& a : spec) total += a.size();
    if (ra.results().size() != total) fail(std::to_string(ra.results().size()) + " results for " + std::to_string(total) + " phases");
    std::set<std::pair<std::string, std::string>> seen;
    for (auto& res : ra.results()) {
      if (!res.id.context) fail("a result without its phase");
      std::string an = res.id.context->alignment.name(), pn = res.id.context->phase.name();
      if (!seen.insert({an, pn}).second) fail("two results for " + an + " " + pn);
      const PhaseSpec& p = spec[an[1] - '0'][pn[1] - '0'];
      Tree now = t;
      for (auto [h, v] : p.set) now.house[h] = v;
      for (int i = 0; i < t.n; ++i) now.p[i] = -std::expm1(-rate[i] * p.f * mission);
      double want = prob(now.table(), now.p), got = res.probability_analysis->p_total();
      if (!(std::abs(want - got) <= 1e-9)) fail(an + " " + pn + ": probability " + num(got) + " instead of " + num(want));
    }
  });
}

// ------------------------------------------------------------------ C25
// One history on one registry: every step is compared with a map from keys to elements.
template <class T>
std::unique_ptr<T> make_element(const std::string& n, const std::string& path, bool priv) {
  if constexpr (std::is_same_v<mef::CcfGroup, T>) {
    return std::make_unique<mef::BetaFactorModel>(n, path, priv ? mef::RoleSpecifier::kPrivate : mef::RoleSpecifier::kPublic);
  } else if constexpr (std::is_base_of_v<mef::Id, T>) {
    return std::make_unique<T>(n, path, priv ? mef::RoleSpecifier::kPrivate : mef::RoleSpecifier::kPublic);
  } else {
    return std::make_unique<T>(n);
  }
}

template <class T>
std::string key_of(const T& t, bool by_id) {
  if constexpr (std::is_base_of_v<mef::Id, T>) {
    if (by_id) return std::string(t.id());
  }
  return t.name();
}

template <class T>
std::unique_ptr<T> random_element(Rng& r, std::string* d) {
  std::string n = "e" + std::to_string(r.below(4));
  bool priv = std::is_base_of_v<mef::Id, T> && r.chance(0.5);
  std::string path = priv || r.chance(0.3) ? (r.chance(0.5) ? "F" : "G") : "";
  *d = n + (path.empty() ? "" : "@" + path) + (priv ? "!" : "");
  return make_element<T>(n, path, priv);
}

template <class T, class Owner>
const mef::Element* container_of(const T& t) {
  struct Open : T {
    static const mef::Element* get(const T& t) { return (t.*static_cast<const mef::Element* (mef::ContainerElement::*)() const>(&Open::container))(); }
  };
  return Open::get(t);
}

/// A history with elements of types Ts in the owner, which share one space of keys if shared.
template <bool Owning, class Owner, class... Ts>
struct History {
  Owner& owner;
  bool by_id, shared;
  std::map<int, std::map<std::string, const mef::Element*>> reg;
  std::vector<std::shared_ptr<void>> keep;
  std::string log;

  template <class T>
  void step(Rng& r, int kind) {
    std::string d;
    auto fresh = random_element<T>(r, &d);
    std::string k = key_of(*fresh, by_id);
    bool taken = shared ? [&] { for (auto& [i, m] : reg) if (m.count(k)) return true; return false; }() : reg[kind].count(k);
    int what = r.below(10);
    if (what < 5) {
      log += std::string(" +") + T::kTypeString + ":" + d;
      describe(log);
      T* raw = fresh.get();
      bool dup = false;
      try {
        if constexpr (Owning) {
          owner.Add(std::move(fresh));
        } else {
          owner.Add(raw);
        }
      } catch (const mef::DuplicateElementError&) {
        dup = true;
      }
      if (dup != taken) fail(dup ? "a new element is refused" : "a duplicate is accepted");
      if (!dup) {
        reg[kind][k] = raw;
        if (container_of<T, Owner>(*raw) != &owner) fail("the element's container is not its owner");
        if constexpr (!Owning) keep.push_back(std::shared_ptr<T>(std::move(fresh)));
      }
    } else if (what < 8 && reg[kind].count(k)) {
      log += std::string(" -") + T::kTypeString + ":" + d;
      describe(log);
      auto* e = static_cast<T*>(const_cast<mef::Element*>(reg[kind][k]));
      auto out = owner.Remove(e);
      if (&*out != e) fail("another element is removed");
      if (container_of<T, Owner>(*e)) fail("a removed element has a container");
      reg[kind].erase(k);
    } else if (what < 8) {
      log += std::string(" -?") + T::kTypeString + ":" + d;
      describe(log);
      bool und = false;
      try {
        owner.Remove(fresh.get());
      } catch (const mef::UndefinedElement&) {
        und = true;
      }
      if (!und) fail("an element that is not registered is removed");
    } else if (reg[kind].count(k)) {
      log += std::string(" -!") + T::kTypeString + ":" + d;
      describe(log);
      bool bad = false;
      try {
        owner.Remove(fresh.get());
      } catch (const LogicError&) {
        bad = true;
      }
      if (!bad) fail("a namesake is removed");
    }
  }

  template <class T>
  void check(int kind) {
    auto table = static_cast<const Owner&>(owner).template table<T>();
    if (table.size() != reg[kind].size()) fail(std::to_string(table.size()) + " elements instead of " + std::to_string(reg[kind].size()));
    std::size_t n = 0;
    for (const T& e : table) {
      auto it = reg[kind].find(key_of(e, by_id));
      if (it == reg[kind].end() || it->second != &e) fail("an element that was not added is listed");
      ++n;
    }
    if (n != reg[kind].size()) fail("the table lists " + std::to_string(n) + " elements");
    for (auto& [k, e] : reg[kind]) {
      if (&owner.template Get<T>(k) != e) fail("another element is found as " + k);
    }
    for (std::string k : {"nobody", "e0", "F.e1", "G.e2"}) {
      if (reg[kind].count(k)) continue;
      bool und = false;
      try {
        owner.template Get<T>(k);
      } catch (const mef::UndefinedElement&) {
        und = true;
      }
      if (!und) fail("something is found as " + k);
    }
  }

  void run(Rng& r, int steps) {
    for (; steps > 0; --steps) {
      int pick = r.below(sizeof...(Ts)), i = 0, j = 0;
      ((i++ == pick ? step<Ts>(r, i - 1) : void()), ...);
      (check<Ts>(j++), ...);
      if constexpr (std::is_same_v<Owner, mef::Model> && sizeof...(Ts) == 3) {
        for (int kind = 0; kind < 3; ++kind)
          for (auto& [k, e] : reg[kind]) {
            mef::Formula::ArgEvent a = owner.GetEvent(k);
            if (std::visit([](auto* p) -> const mef::Element* { return p; }, a) != e) fail("GetEvent finds another event as " + k);
          }
      }
    }
  }
};

void ccf_join(Rng& r) {
  mef::Component c("C");
  std::vector<std::unique_ptr<mef::BasicEvent>> es;
  std::set<std::string> events, groups;
  std::vector<std::unique_ptr<mef::CcfGroup>> gs;
  std::string log = "component";
  for (int k = r.range(1, 6); k > 0; --k) {
    if (r.chance(0.4)) {
      es.push_back(std::make_unique<mef::BasicEvent>("e" + std::to_string(r.below(6))));
      log += " +" + es.back()->name();
      describe(log);
      bool dup = false;
      try {
        c.Add(es.back().get());
      } catch (const mef::DuplicateElementError&) {
        dup = true;
      }
      if (dup == events.insert(es.back()->name()).second) fail("wrong answer to an event");
      continue;
    }
    auto g = std::make_unique<mef::BetaFactorModel>("g" + std::to_string(r.below(3)));
    log += " +" + g->name() + "{";
    std::set<std::string> ms;
    for (int m = r.range(0, 3); m > 0; --m) {
      es.push_back(std::make_unique<mef::BasicEvent>("e" + std::to_string(r.below(6)), r.chance(0.3) ? "P" : ""));
      log += " " + es.back()->name();
      describe(log);
      bool dup = false;
      try {
        g->AddMember(es.back().get());
      } catch (const mef::DuplicateElementError&) {
        dup = true;
      }
      if (dup == ms.insert(es.back()->name()).second) fail("wrong answer to a member");
    }
    log += " }";
    describe(log);
    bool want = groups.count(g->name()), dup = false;
    for (auto& m : ms) want |= events.count(m) > 0;
    try {
      c.Add(g.get());
    } catch (const mef::DuplicateElementError&) {
      dup = true;
    }
    if (want != dup) fail(dup ? "a new group is refused" : "a duplicate is accepted");
    if (!dup) groups.insert(g->name()), events.insert(ms.begin(), ms.end());
    gs.push_back(std::move(g));
    if (c.ccf_groups().size() != groups.size()) fail("the groups of the component");
    if (c.basic_events().size() != events.size()) fail(std::to_string(c.basic_events().size()) + " events instead of " + std::to_string(events.size()));
    for (auto& e : events)
      if (!c.basic_events().count(e)) fail("no event " + e);
  }
}

void run_C25(Run& run) {
  run.cases([](Rng& r, long) {
    int steps = r.range(1, 12);
    switch (r.below(6)) {
      case 0: {
        mef::Model m("m");
        History<true, mef::Model, mef::Gate, mef::BasicEvent, mef::HouseEvent> h{m, true, true};
        h.log = "model events:";
        h.run(r, steps);
        break;
      }
      case 1: {
        mef::Model m("m");
        History<true, mef::Model, mef::Parameter, mef::CcfGroup> h{m, true, false};
        h.log = "model by id:";
        h.run(r, steps);
        break;
      }
      case 2: {
        mef::Model m("m");
        History<true, mef::Model, mef::FaultTree, mef::Sequence, mef::EventTree, mef::InitiatingEvent, mef::Rule, mef::Alignment, mef::Substitution> h{m, false, false};
        h.log = "model by name:";
        h.run(r, steps);
        break;
      }
      case 3: {
        mef::Component c("C");
        History<false, mef::Component, mef::Gate, mef::BasicEvent, mef::HouseEvent> h{c, false, true};
        h.log = "component events:";
        h.run(r, steps);
        break;
      }
      case 4: {
        mef::EventTree t("T");
        History<true, mef::EventTree, mef::NamedBranch> h{t, false, false};
        h.log = "branches:";
        h.run(r, steps);
        break;
      }
      default: ccf_join(r);
    }
  });
}

// ------------------------------------------------------------------ C11
double choose(int n, int k) {
  double r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}

void run_C11(Run& run) {
  run.cases([](Rng& r, long) {
    int kind = r.below(4), n = r.range(2, r.chance(0.1) ? 9 : 6);
    std::string d = std::vector<std::string>{"beta", "mgl", "alpha", "phi"}[kind] + " members=" + std::to_string(n);
    std::unique_ptr<mef::CcfGroup> g;
    if (kind == 0) g = std::make_unique<mef::BetaFactorModel>("G", "", mef::RoleSpecifier::kPublic);
    if (kind == 1) g = std::make_unique<mef::MglModel>("G", "", mef::RoleSpecifier::kPublic);
    if (kind == 2) g = std::make_unique<mef::AlphaFactorModel>("G", "", mef::RoleSpecifier::kPublic);
    if (kind == 3) g = std::make_unique<mef::PhiFactorModel>("G", "", mef::RoleSpecifier::kPublic);
    std::vector<std::unique_ptr<mef::BasicEvent>> es;
    for (int i = 0; i < n; ++i) {
      es.push_back(std::make_unique<mef::BasicEvent>("e" + std::to_string(i)));
      g->AddMember(es.back().get());
    }
    double q = r.chance(0.1) ? r.below(2) : r.uniform();
    mef::ConstantExpression dist(q);
    d += " Q=" + num(q);
    g->AddDistribution(&dist);
    int first = kind == 0 ? n : kind == 1 ? 2 : 1;
    int last = kind == 0 ? n : r.range(2, n);
    std::vector<double> f;  // by level, from the first
    double left = 1;
    for (int l = first; l <= last; ++l) {
      double x = r.chance(0.15) ? r.below(2) : r.uniform();
      if (kind == 2 && l == last && x == 0) x = 0.5;
      if (kind == 3) x = l == last ? left : left * r.uniform(), left -= x;
      f.push_back(x);
    }
    std::vector<int> order;
    for (int l = first; l <= last; ++l) order.push_back(l);
    bool explicit_levels = r.chance(0.5);
    if (explicit_levels && r.chance(0.5)) for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    std::vector<std::unique_ptr<mef::Expression>> fs;
    for (int l : order) {
      fs.push_back(std::make_unique<mef::ConstantExpression>(f[l - first]));
      d += " f" + std::to_string(l) + "=" + num(f[l - first]);
      describe(d);
      g->AddFactor(fs.back().get(), explicit_levels ? std::optional<int>(l) : std::nullopt);
    }
    describe(d);
    g->Validate();
    g->ApplyModel();
    // The definition.
    std::map<int, double> want;
    double sum = 0;
    for (int l = first; l <= last; ++l) sum += l * f[l - first];
    if (kind == 0) want[1] = (1 - f[0]) * q, want[n] = f[0] * q;
    double greek = 1;
    for (int k = 1; kind == 1 && k <= last; ++k) {
      if (k > 1) greek *= f[k - 2];
      want[k] = greek * (k < last ? 1 - f[k - 1] : 1) * q / choose(n - 1, k - 1);
    }
    for (int k = 1; kind == 2 && k <= last; ++k) want[k] = k * f[k - 1] / sum * q / choose(n - 1, k - 1);
    for (int k = 1; kind == 3 && k <= last; ++k) want[k] = f[k - 1] * q;
    std::map<std::set<int>, const mef::BasicEvent*> shared;
    std::map<const mef::BasicEvent*, std::set<int>> used;
    std::map<const mef::Gate*, int> who;
    for (int i = 0; i < n; ++i) {
      if (!es[i]->HasCcf()) fail("a member is not replaced");
      who[&es[i]->ccf_gate()] = i;
      if (es[i]->ccf_gate().id() != es[i]->id()) fail("the replacement has another id");
    }
    for (int i = 0; i < n; ++i) {
      const mef::Formula& form = es[i]->ccf_gate().formula();
      if (form.connective() != mef::kOr) fail("a member is not a disjunction");
      double total = 0, expected = 0;
      for (auto& [k, p] : want) expected += choose(n - 1, k - 1);
      if (form.args().size() != expected) fail("e" + std::to_string(i) + " has " + std::to_string(form.args().size()) + " causes instead of " + num(expected));
      for (const mef::Formula::Arg& a : form.args()) {
        auto* const* b = std::get_if<mef::BasicEvent*>(&a.event);
        auto* c = b ? dynamic_cast<mef::CcfEvent*>(*b) : nullptr;
        if (!c || a.complement) fail("a cause is not a common-cause event");
        std::set<int> ms;
        std::string name = "[";
        for (const mef::Gate* m : c->members()) {
          if (!who.count(m)) fail("a foreign member");
          ms.insert(who[m]);
          name += (name.size() > 1 ? " " : "") + m->name();
        }
        if (c->name() != name + "]") fail("the event of " + name + "] is named " + c->name());
        if (ms.size() != c->members().size() || !ms.count(i)) fail(c->name() + " is a cause of e" + std::to_string(i));
        auto [it, fresh] = shared.emplace(ms, c);
        if (it->second != c) fail("two events for " + c->name());
        used[c].insert(i);
        auto w = want.find(ms.size());
        if (w == want.end()) fail(c->name() + " is a level without a factor");
        double p = c->p();
        if (!(std::abs(p - w->second) <= 1e-9 * (1 + w->second))) fail(c->name() + " has the probability " + num(p) + " instead of " + num(w->second));
        total += p;
      }
      if (kind != 3 && !(std::abs(total - q) <= 1e-9)) fail("the causes of e" + std::to_string(i) + " add up to " + num(total));
    }
    for (auto& [c, ms] : used)
      if (ms != std::set<int>() && ms.size() != static_cast<const mef::CcfEvent*>(c)->members().size()) fail(c->name() + " is not a cause of all its members");
    if (mef::ConstantExpression::kOne.value() != 1) fail("the constant one");
  });
}

// ------------------------------------------------------------------ C22
using Edges = std::vector<std::set<int>>;

/// Nodes on a cycle or leading to one.
bool reaches_cycle(const Edges& e) {
  std::vector<int> indeg(e.size());
  for (auto& s : e) for (int t : s) ++indeg[t];
  std::vector<int> todo;
  for (std::size_t i = 0; i < e.size(); ++i) if (!indeg[i]) todo.push_back(i);
  std::size_t done = 0;
  while (!todo.empty()) {
    int x = todo.back();
    todo.pop_back();
    ++done;
    for (int t : e[x]) if (!--indeg[t]) todo.push_back(t);
  }
  return done != e.size();
}

template <class T, class Name>
void check_cycles(Rng& r, const std::vector<T*>& nodes, const Edges& edges, const std::string& kind, Name name) {
  std::string d = kind + ":";
  for (std::size_t i = 0; i < nodes.size(); ++i) {
    d += " " + std::to_string(i) + "->{";
    for (int t : edges[i]) d += std::to_string(t) + ",";
    d += "}";
  }
  std::vector<T*> order = nodes;
  for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  describe(d);
  bool cyclic = reaches_cycle(edges);
  try {
    mef::cycle::CheckCycle<T>(boost::adaptors::indirect(order), kind.c_str());
  } catch (mef::CycleError& err) {
    if (!cyclic) fail("a cycle is reported in a model without one");
    const std::string* text = boost::get_error_info<mef::errinfo_cycle>(err);
    if (!text) fail("a cycle without its path");
    std::vector<std::string> path;
    for (std::size_t a = 0;;) {
      std::size_t b = text->find("->", a);
      path.push_back(text->substr(a, b == std::string::npos ? b : b - a));
      if (b == std::string::npos) break;
      a = b + 2;
    }
    if (path.size() < 2 || path.front() != path.back()) fail("the reported cycle is not closed: " + *text);
    std::set<std::pair<std::string, std::string>> refs;
    for (std::size_t i = 0; i < nodes.size(); ++i) for (int t : edges[i]) refs.insert({name(i), name(t)});
    for (std::size_t i = 0; i + 1 < path.size(); ++i)
      if (!refs.count({path[i], path[i + 1]})) fail("the reported cycle follows no reference from " + path[i] + " to " + path[i + 1] + ": " + *text);
    if (std::set<std::string>(path.begin() + 1, path.end()).size() != path.size() - 1) fail("the reported cycle repeats an element: " + *text);
    return;
  }
  if (cyclic) fail("a cycle is not detected");
  for (T* n : nodes) if (n->mark() != mef::NodeMark::kPermanent) fail("an element is not checked");
}

/// Random graphs: sparse, so that both outcomes are common.
Edges random_graph(Rng& r, int n) {
  Edges e(n);
  bool forward = r.chance(0.5);
  std::vector<int> rank(n);
  for (int i = 0; i < n; ++i) rank[i] = i;
  for (int i = n; i > 1; --i) std::swap(rank[i - 1], rank[r.below(i)]);
  int m = r.below(2 * n + 1);
  for (int i = 0; i < m; ++i) {
    int a = r.below(n), b = r.below(n);
    if (forward && rank[a] >= rank[b]) continue;
    e[a].insert(b);
  }
  if (forward && r.chance(0.3)) e[r.below(n)].insert(r.below(n));
  return e;
}

void gate_cycles(Rng& r, int n, const Edges& e) {
  std::vector<std::unique_ptr<mef::Gate>> gs;
  std::vector<std::unique_ptr<mef::BasicEvent>> bs;
  std::vector<mef::Gate*> ps;
  for (int i = 0; i < n; ++i) gs.push_back(std::make_unique<mef::Gate>("g" + std::to_string(i))), ps.push_back(gs.back().get());
  for (int i = 0; i < n; ++i) {
    mef::Formula::ArgSet args;
    std::vector<mef::Formula::ArgEvent> as;
    for (int t : e[i]) as.push_back(gs[t].get());
    int k = r.below(3);
    while (k-- || as.empty()) bs.push_back(std::make_unique<mef::BasicEvent>("b" + std::to_string(bs.size()))), as.push_back(bs.back().get()), k = std::max(k, 0);
    for (std::size_t j = as.size(); j > 1; --j) std::swap(as[j - 1], as[r.below(j)]);
    bool one = as.size() == 1;
    for (auto& a : as) args.Add(a, !one && r.chance(0.3));
    gs[i]->formula(std::make_unique<mef::Formula>(one ? (r.chance(0.5) ? mef::kNull : mef::kNot) : r.chance(0.5) ? mef::kAnd : mef::kOr, std::move(args)));
  }
  check_cycles(r, ps, e, "gate", [&](int i) { return ps[i]->name(); });
}

void parameter_cycles(Rng& r, int n, const Edges& e) {
  std::vector<std::unique_ptr<mef::Parameter>> ps;
  std::vector<std::unique_ptr<mef::Expression>> xs;
  std::vector<mef::Parameter*> raw;
  for (int i = 0; i < n; ++i) ps.push_back(std::make_unique<mef::Parameter>("p" + std::to_string(i))), raw.push_back(ps.back().get());
  for (int i = 0; i < n; ++i) {
    std::vector<mef::Expression*> as;
    for (int t : e[i]) as.push_back(ps[t].get());
    for (int k = r.below(3); k-- || as.empty(); k = std::max(k, 0)) xs.push_back(std::make_unique<mef::ConstantExpression>(1)), as.push_back(xs.back().get());
    while (as.size() > 1 || r.chance(0.3)) {
      int take = as.size() > 1 ? r.range(1, 2) : 1;
      std::vector<mef::Expression*> group;
      while (take--) {
        int j = r.below(as.size());
        group.push_back(as[j]);
        as.erase(as.begin() + j);
      }
      if (group.size() == 1) xs.push_back(std::make_unique<mef::Neg>(group[0]));
      else xs.push_back(std::make_unique<mef::Add>(group));
      as.push_back(xs.back().get());
    }
    ps[i]->expression(as[0]);
  }
  check_cycles(r, raw, e, "parameter", [&](int i) { return raw[i]->name(); });
}

struct TreeParts {
  std::vector<std::unique_ptr<mef::Fork>> forks;
  std::vector<std::unique_ptr<mef::Sequence>> seqs;
  std::vector<std::unique_ptr<mef::FunctionalEvent>> fes;
  std::vector<std::unique_ptr<mef::Instruction>> ins;
  std::vector<std::unique_ptr<mef::Rule>> rules;
  mef::ConstantExpression yes{1};
};

/// A target that leads to the given targets.
mef::Branch::Target join(Rng& r, TreeParts& tp, std::vector<mef::Branch::Target> ts) {
  if (ts.empty() || (ts.size() > 1 && r.chance(0.1))) {
    tp.seqs.push_back(std::make_unique<mef::Sequence>("s" + std::to_string(tp.seqs.size())));
    ts.push_back(tp.seqs.back().get());
  }
  if (ts.size() == 1 && r.chance(0.7)) return ts[0];
  std::vector<mef::Path> paths;
  while (!ts.empty()) {
    int take = std::min<int>(ts.size(), r.range(1, 2));
    std::vector<mef::Branch::Target> sub;
    while (take--) {
      int j = r.below(ts.size());
      sub.push_back(ts[j]);
      ts.erase(ts.begin() + j);
    }
    paths.emplace_back("st" + std::to_string(paths.size()));
    paths.back().target(join(r, tp, sub));
  }
  tp.fes.push_back(std::make_unique<mef::FunctionalEvent>("f" + std::to_string(tp.fes.size())));
  tp.forks.push_back(std::make_unique<mef::Fork>(*tp.fes.back(), std::move(paths)));
  return tp.forks.back().get();
}

void branch_cycles(Rng& r, int n, const Edges& e) {
  TreeParts tp;
  std::vector<std::unique_ptr<mef::NamedBranch>> bs;
  std::vector<mef::NamedBranch*> raw;
  for (int i = 0; i < n; ++i) bs.push_back(std::make_unique<mef::NamedBranch>("n" + std::to_string(i))), raw.push_back(bs.back().get());
  for (int i = 0; i < n; ++i) {
    std::vector<mef::Branch::Target> ts;
    for (int t : e[i]) ts.push_back(raw[t]);
    bs[i]->target(join(r, tp, ts));
  }
  check_cycles(r, raw, e, "branch", [&](int i) { return raw[i]->name(); });
}

/// Instructions that contain the given ones, nested in blocks, conditions and rules.
std::vector<mef::Instruction*> nest(Rng& r, TreeParts& tp, std::vector<mef::Instruction*> is, bool rules) {
  int extra = r.below(3);
  while (extra-- || is.empty()) {
    tp.ins.push_back(std::make_unique<mef::SetHouseEvent>("h", r.chance(0.5)));
    is.insert(is.begin() + r.below(is.size() + 1), tp.ins.back().get());
    extra = std::max(extra, 0);
  }
  while (r.chance(0.6)) {
    int j = r.below(is.size());
    int what = r.below(rules ? 4 : 3);
    mef::Instruction* x = is[j];
    if (what == 0) {
      tp.ins.push_back(std::make_unique<mef::Block>(std::vector<mef::Instruction*>{x}));
    } else if (what == 3) {
      tp.rules.push_back(std::make_unique<mef::Rule>("inner" + std::to_string(tp.rules.size())));
      tp.rules.back()->instructions({x});
      is[j] = tp.rules.back().get();
      continue;
    } else if (what == 1 || is.size() == 1) {
      tp.ins.push_back(std::make_unique<mef::IfThenElse>(&tp.yes, x));
    } else {
      int k = r.below(is.size() - 1);
      mef::Instruction* y = is[k += k >= j];
      tp.ins.push_back(std::make_unique<mef::IfThenElse>(&tp.yes, x, y));
      is[j] = tp.ins.back().get();
      is.erase(is.begin() + k);
      continue;
    }
    is[j] = tp.ins.back().get();
  }
  return is;
}

void rule_cycles(Rng& r, int n, const Edges& e) {
  TreeParts tp;
  std::vector<std::unique_ptr<mef::Rule>> rs;
  std::vector<mef::Rule*> raw;
  for (int i = 0; i < n; ++i) rs.push_back(std::make_unique<mef::Rule>("r" + std::to_string(i))), raw.push_back(rs.back().get());
  for (int i = 0; i < n; ++i) {
    std::vector<mef::Instruction*> is;
    for (int t : e[i]) is.push_back(raw[t]);
    rs[i]->instructions(nest(r, tp, is, false));
  }
  check_cycles(r, raw, e, "rule", [&](int i) { return raw[i]->name(); });
}

void link_cycles(Rng& r, int n, const Edges& e) {
  TreeParts tp;
  std::vector<std::unique_ptr<mef::EventTree>> ts;
  std::vector<std::unique_ptr<mef::NamedBranch>> bs;
  std::vector<std::unique_ptr<mef::Link>> links;
  std::vector<mef::Link*> raw;
  std::vector<std::vector<int>> of(n);   // the links in a tree
  std::vector<int> target;
  for (int i = 0; i < n; ++i) ts.push_back(std::make_unique<mef::EventTree>("t" + std::to_string(i)));
  for (int i = 0; i < n; ++i) {
    std::vector<mef::Branch::Target> ends;
    for (int t : e[i]) {
      links.push_back(std::make_unique<mef::Link>(*ts[t]));
      raw.push_back(links.back().get());
      of[i].push_back(raw.size() - 1);
      target.push_back(t);
      tp.seqs.push_back(std::make_unique<mef::Sequence>("s" + std::to_string(tp.seqs.size())));
      tp.seqs.back()->instructions(nest(r, tp, {raw.back()}, true));
      ends.push_back(tp.seqs.back().get());
      if (r.chance(0.3)) {
        bs.push_back(std::make_unique<mef::NamedBranch>("n" + std::to_string(bs.size())));
        bs.back()->target(ends.back());
        ends.back() = bs.back().get();
      }
    }
    mef::Branch b;
    b.target(join(r, tp, ends));
    ts[i]->initial_state(std::move(b));
  }
  Edges le(raw.size());
  for (std::size_t l = 0; l < raw.size(); ++l) for (int m : of[target[l]]) le[l].insert(m);
  check_cycles(r, raw, le, "event-tree link", [&](int i) { return raw[i]->event_tree().name(); });
}

void run_C22(Run& run) {
  run.cases([](Rng& r, long) {
    int n = r.range(1, r.chance(0.2) ? 12 : 5);
    Edges e = random_graph(r, n);
    switch (r.below(5)) {
      case 0: return gate_cycles(r, n, e);
      case 1: return parameter_cycles(r, n, e);
      case 2: return branch_cycles(r, n, e);
      case 3: return rule_cycles(r, n, e);
      default: return link_cycles(r, n, e);
    }
  });
}

}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C21", run_C21}, {"C25", run_C25}, {"C11", run_C11}, {"C22", run_C22}}); }
