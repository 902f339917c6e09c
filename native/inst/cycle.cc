// Instantiations of the cycle detection of /repo for the verifier.
#include <memory>
#include <boost/range/adaptor/indirected.hpp>
#include "src/model.h"
#include "src/cycle.h"

namespace scram::mef::cycle {
inline void use(Model& m, EventTree& t, std::vector<Link*>& links) {
  CheckCycle<Gate>(m.table<Gate>(), "gate");
  CheckCycle<Rule>(m.table<Rule>(), "rule");
  CheckCycle<NamedBranch>(t.table<NamedBranch>(), "branch");
  CheckCycle<Link>(boost::adaptors::indirect(links), "event-tree link");
  CheckCycle<Parameter>(m.table<Parameter>(), "parameter");
}
}  // namespace scram::mef::cycle
