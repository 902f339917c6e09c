// Instantiations of the containers and algorithms of /repo/src/ext for the verifier.
#include <stdexcept>
#include <vector>
#include "src/ext/linear_map.h"
#include "src/ext/linear_set.h"
#include "src/ext/index_map.h"

template class ext::linear_map<int, int>;
template class ext::linear_map<int, int, ext::MoveEraser>;
template class ext::linear_set<int>;
template class ext::index_map<2, int>;

namespace ext {
using Pairs = std::vector<std::pair<int, int>>;
template <class M>
void use_map(M& m, M& n, const Pairs& ps) {
  m.insert(ps.begin(), ps.end());
  m.emplace(1, 2);
  m == n;
  m != n;
  swap(m, n);
  M a(ps.begin(), ps.end());
}
inline void use(linear_map<int, int>& a, linear_map<int, int, MoveEraser>& b, linear_set<int>& c, const Pairs& ps, const std::vector<int>& is) {
  use_map(a, a, ps);
  use_map(b, b, ps);
  c.insert(is.begin(), is.end());
  c.emplace(1);
  c == c;
  c != c;
  swap(c, c);
  linear_set<int> s(is.begin(), is.end());
}
}  // namespace ext
