// Bounded checks of the containers and algorithms of src/ext: linear and index maps (C23), combinations (C24).
#include <algorithm>
#include <cmath>
#include <memory>
#include <numeric>

#include "ext/combination.h"
#include "ext/index_map.h"
#include "ext/linear_map.h"
#include "ext/linear_set.h"

#include "common.h"

namespace {
using nat::describe;
using nat::drive;
using nat::fail;
using nat::Rng;
using nat::Run;

// ------------------------------------------------------------------ C23
/// A value with an identity: moved-from values are recognizable.
struct Val {
  std::shared_ptr<int> p;
  Val() : p(std::make_shared<int>(0)) {}
  Val(int v) : p(std::make_shared<int>(v)) {}
  bool operator==(const Val& o) const { return p && o.p && *p == *o.p; }
  int get() const { return p ? *p : -999; }
};

int plain(int v) { return v; }
int plain(const Val& v) { return v.get(); }
int plain(const std::string& v) { return v.empty() ? 0 : std::atoi(v.c_str()); }
template <class T> T made(int v) { return T(v); }
template <> std::string made<std::string>(int v) { return v ? std::to_string(v) : ""; }

template <class M>
void compare(const M& m, const std::map<int, int>& ref, const std::string& at) {
  if (m.size() != ref.size()) fail("size " + std::to_string(m.size()) + ", expected " + std::to_string(ref.size()) + at);
  if (m.empty() != ref.empty()) fail("empty() is wrong" + at);
  std::map<int, int> seen;
  for (const auto& e : m)
    if (!seen.emplace(plain(e.first), plain(e.second)).second) fail("a key occurs twice" + at);
  if (seen != ref) fail("the entries differ from the expected map" + at);
}

template <class M>
void history(Rng& r, const std::string& name) {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  std::string d = name;
  M m, other;
  std::map<int, int> ref, oref;
  int keys = r.range(1, 6), steps = r.range(1, 25);
  for (int s = 0; s < steps; ++s) {
    int k = r.below(keys), v = r.range(1, 9), op = r.below(15);
    d += " " + std::to_string(op) + "," + std::to_string(k) + "," + std::to_string(v);
    describe(d, s + 1 == steps);
    std::string at = " after step " + std::to_string(s + 1);
    K key = made<K>(k);
    switch (op) {
      case 0: {
        auto res = m.insert(typename M::value_type(key, made<V>(v)));
        bool fresh = ref.emplace(k, v).second;
        if (res.second != fresh) fail("insert reports the wrong result" + at);
        if (plain(res.first->first) != k || plain(res.first->second) != ref[k]) fail("insert returns the wrong position" + at);
        break;
      }
      case 1: {
        typename M::value_type p(key, made<V>(v));
        auto res = m.insert(p);
        if (res.second != ref.emplace(k, v).second) fail("insert reports the wrong result" + at);
        if (plain(p.first) != k || plain(p.second) != v) fail("insert changed its argument" + at);
        if (plain(res.first->first) != k) fail("insert returns the wrong position" + at);
        break;
      }
      case 2: {
        auto res = m.emplace(key, made<V>(v));
        if (res.second != ref.emplace(k, v).second) fail("emplace reports the wrong result" + at);
        if (plain(res.first->first) != k || plain(res.first->second) != ref[k]) fail("emplace returns the wrong position" + at);
        break;
      }
      case 3:
        m[key] = made<V>(v), ref[k] = v;
        break;
      case 4:
        m[made<K>(k)] = made<V>(v), ref[k] = v;
        break;
      case 5: {
        const M& cm = m;
        int got = plain(m[key]);
        auto it = ref.emplace(k, 0).first;
        if (got != it->second) fail("operator[] gives the wrong value" + at);
        if (plain(cm.at(key)) != it->second) fail("at() gives the wrong value" + at);
        break;
      }
      case 6: {
        bool thrown = false;
        try {
          if (plain(m.at(key)) != ref.at(k)) fail("at() gives the wrong value" + at);
        } catch (const std::out_of_range&) {
          thrown = true;
        }
        if (thrown != (ref.count(k) == 0)) fail("at() throws wrongly" + at);
        break;
      }
      case 7: {
        auto n = m.erase(key);
        if (n != ref.erase(k)) fail("erase reports the wrong count" + at);
        break;
      }
      case 8:
      case 9: {
        if (m.empty()) break;
        int pos = r.below(m.size());
        std::vector<int> before;
        for (auto& e : m) before.push_back(plain(e.first));
        ref.erase(before[pos]);
        auto it = op == 8 ? m.erase(std::next(m.begin(), pos)) : m.erase(typename M::const_iterator(std::next(m.cbegin(), pos)));
        std::set<int> rest, expect;
        for (; it != m.end(); ++it) rest.insert(plain(it->first));
        for (int i = pos + 1; i < static_cast<int>(before.size()); ++i) expect.insert(before[i]);
        if (rest != expect) fail("erase returns a position with the wrong remainder" + at);
        break;
      }
      case 10: {
        std::vector<typename M::value_type> vs;
        for (int i = r.below(4); i > 0; --i) {
          int kk = r.below(keys), vv = r.range(1, 9);
          vs.emplace_back(made<K>(kk), made<V>(vv));
          ref.emplace(kk, vv);
        }
        m.insert(vs.begin(), vs.end());
        break;
      }
      case 11:
        if (r.chance(0.5)) m.swap(other); else swap(m, other);
        std::swap(ref, oref);
        break;
      case 12:
        if (r.chance(0.3)) m.clear(), ref.clear();
        m.reserve(r.below(10));
        break;
      case 13: {
        M copy(m.begin(), m.end());
        if (!(copy == m) || copy != m) fail("a copy differs" + at);
        if ((m == other) != (ref == oref) || (m != other) == (ref == oref)) fail("equality is wrong" + at);
        M back;
        for (auto it = m.rbegin(); it != m.rend(); ++it) back.insert(*it);
        if (!(back == m)) fail("equality depends on the order of insertion" + at);
        break;
      }
      default: {
        const M& cm = m;
        auto it = m.find(key);
        auto cit = cm.find(key);
        if ((it == m.end()) != (ref.count(k) == 0) || (cit == cm.end()) != (ref.count(k) == 0)) fail("find is wrong" + at);
        if (it != m.end() && (plain(it->first) != k || plain(cit->second) != ref[k])) fail("find gives the wrong entry" + at);
        if (cm.count(key) != ref.count(k)) fail("count is wrong" + at);
      }
    }
    compare(m, ref, at);
    compare(other, oref, at + " (swapped)");
  }
}

struct Item {
  int key, value;
  bool operator==(const Item& o) const { return key == o.key && value == o.value; }
};
struct ItemKey {
  const int& operator()(const Item& i) const { return i.key; }
  int& operator()(Item& i) const { return i.key; }
};

void set_history(Rng& r) {
  using S = ext::linear_set<Item, ItemKey>;
  std::string d = "set";
  S m;
  std::map<int, int> ref;
  int keys = r.range(1, 6), steps = r.range(1, 20);
  for (int s = 0; s < steps; ++s) {
    int k = r.below(keys), v = r.range(1, 9), op = r.below(8);
    d += " " + std::to_string(op) + "," + std::to_string(k) + "," + std::to_string(v);
    describe(d, s + 1 == steps);
    std::string at = " after step " + std::to_string(s + 1);
    Item item{k, v};
    switch (op) {
      case 0:
      case 1: {
        auto res = op ? m.insert(item) : m.insert(Item{k, v});
        if (res.second != ref.emplace(k, v).second) fail("insert reports the wrong result" + at);
        if (res.first->key != k || res.first->value != ref[k]) fail("insert returns the wrong position" + at);
        break;
      }
      case 2: {
        auto res = m.emplace(Item{k, v});
        if (res.second != ref.emplace(k, v).second) fail("emplace reports the wrong result" + at);
        break;
      }
      case 3:
        if (m.erase(k) != ref.erase(k)) fail("erase reports the wrong count" + at);
        break;
      case 4: {
        if (m.empty()) break;
        auto it = std::next(m.begin(), r.below(m.size()));
        ref.erase(it->key);
        m.erase(it);
        break;
      }
      case 5: {
        std::vector<Item> vs;
        for (int i = r.below(4); i > 0; --i) {
          vs.push_back({r.below(keys), r.range(1, 9)});
          ref.emplace(vs.back().key, vs.back().value);
        }
        m.insert(vs.begin(), vs.end());
        break;
      }
      case 6: {
        S back;
        for (auto it = m.rbegin(); it != m.rend(); ++it) back.insert(*it);
        if (!(back == m) || back != m) fail("equality depends on the order of insertion" + at);
        back.erase(k);
        if ((back == m) != !ref.count(k)) fail("equality ignores a missing value" + at);
        break;
      }
      default: {
        const S& cm = m;
        if ((cm.find(k) != cm.end()) != (ref.count(k) == 1) || cm.count(k) != ref.count(k)) fail("find or count is wrong" + at);
        if (ref.count(k) && m.find(k)->value != ref[k]) fail("find gives the wrong entry" + at);
      }
    }
    std::map<int, int> seen;
    for (const Item& i : m)
      if (!seen.emplace(i.key, i.value).second) fail("a key occurs twice" + at);
    if (seen != ref || m.size() != ref.size() || m.empty() != ref.empty()) fail("the entries differ from the expected set" + at);
  }
}

template <int Base>
void index_history(Rng& r) {
  int n = r.range(1, 12);
  ext::index_map<Base, int> m(n);
  std::map<int, int> ref;
  std::string d = "index_map<" + std::to_string(Base) + "> of " + std::to_string(n);
  for (int i = 0; i < n; ++i) ref[Base + i] = 0;
  for (int s = 0; s < 15; ++s) {
    int k = Base + r.below(n), v = r.range(1, 99);
    d += " " + std::to_string(k) + "=" + std::to_string(v);
    describe(d, s == 14);
    m[k] = v, ref[k] = v;
    const auto& cm = m;
    for (auto& e : ref)
      if (cm[e.first] != e.second || m[e.first] != e.second) fail("index " + std::to_string(e.first) + " has the wrong value");
    for (int i = 0; i < n; ++i)
      if (*std::next(m.begin(), i) != ref[Base + i]) fail("the elements are not in the order of the indices");
  }
}

void run_C23(Run& run) {
  run.cases([](Rng& r, long) {
    switch (r.below(8)) {
      case 0: history<ext::linear_map<int, int>>(r, "map"); break;
      case 1: history<ext::linear_map<int, Val>>(r, "map of objects"); break;
      case 2: history<ext::linear_map<std::string, std::string>>(r, "map of strings"); break;
      case 3: history<ext::linear_map<int, Val, ext::MoveEraser>>(r, "map of objects, erased by moves"); break;
      case 4: history<ext::linear_map<std::string, int, ext::MoveEraser>>(r, "map by strings, erased by moves"); break;
      case 5: set_history(r); break;
      case 6: index_history<2>(r); break;
      default: index_history<0>(r);
    }
  });
}

// ------------------------------------------------------------------ C24
struct Visitor {
  std::set<std::vector<int>>* seen;
  long* calls;
  const std::vector<int>* all;
  int k;
  long stop;
  bool operator()(std::vector<int>::iterator first, std::vector<int>::iterator last) {
    ++*calls;
    if (last - first != k) fail("a combination has the wrong number of elements");
    std::vector<int> c(first, last), rest(last, last + (all->size() - k));
    std::vector<int> whole = c;
    whole.insert(whole.end(), rest.begin(), rest.end());
    std::sort(whole.begin(), whole.end());
    std::vector<int> sorted = *all;
    std::sort(sorted.begin(), sorted.end());
    if (whole != sorted) fail("the combination and the rest are not the whole range");
    std::sort(c.begin(), c.end());
    if (!seen->insert(c).second) fail("a combination is visited twice");
    return *calls == stop;
  }
};

void combinations(int n, int k, std::vector<int> all, long stop) {
  std::set<std::vector<int>> seen;
  long calls = 0;
  std::vector<int> work = all;
  ext::for_each_combination(work.begin(), work.begin() + k, work.end(), Visitor{&seen, &calls, &all, k, stop});
  double c = 1;
  for (int i = 1; i <= k; ++i) c = c * (n - k + i) / i;
  long count = std::lround(c);
  if (stop && stop <= count) {
    if (calls != stop) fail("the enumeration goes on after it is stopped: " + std::to_string(calls) + " calls");
    return;
  }
  if (static_cast<long>(seen.size()) != count || calls != count)
    fail(std::to_string(seen.size()) + " combinations in " + std::to_string(calls) + " calls, expected " + std::to_string(count));
  if (work != all) fail("the order of the range is not restored");
}

void run_C24(Run& run) {
  // Every size up to the bound, then random arrangements and stops.
  for (int n = 0; n <= 15; ++n)
    for (int k = 0; k <= n; ++k) {
      std::vector<int> all(n);
      std::iota(all.begin(), all.end(), 0);
      describe("n=" + std::to_string(n) + " k=" + std::to_string(k), true);
      combinations(n, k, all, 0);
    }
  run.cases([](Rng& r, long) {
    int n = r.range(0, 18), k = r.below(n + 1);
    if (n > 15 && k > 4 && k < n - 4) k = r.below(5);
    std::vector<int> all(n);
    std::iota(all.begin(), all.end(), 0);
    for (int i = n - 1; i > 0; --i) std::swap(all[i], all[r.below(i + 1)]);
    long stop = r.chance(0.3) ? r.range(1, 40) : 0;
    std::string d = "n=" + std::to_string(n) + " k=" + std::to_string(k) + " stop=" + std::to_string(stop) + " of";
    for (int v : all) d += " " + std::to_string(v);
    describe(d);
    combinations(n, k, all, stop);
  });
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C23", run_C23}, {"C24", run_C24}}); }
