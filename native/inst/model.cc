// Instantiations of the element containers of /repo for the verifier.
#include <algorithm>
#include <memory>
#include "src/alignment.h"
#include "src/ccf_group.h"
#include "src/event.h"
#include "src/event_tree.h"
#include "src/expression/extern.h"
#include "src/fault_tree.h"
#include "src/model.h"
#include "src/parameter.h"
#include "src/substitution.h"

namespace scram::mef {
template class Container<Alignment, Phase>;
template class Container<EventTree, Sequence, false>;
template class Container<EventTree, FunctionalEvent>;
template class Container<EventTree, NamedBranch>;
template class Container<Component, Component, true, false>;
template class Container<Component, BasicEvent, false, false>;
template class Container<Component, HouseEvent, false, false>;
template class Container<Component, Gate, false, false>;
template class Container<Component, Parameter, false, false>;
template class Container<Component, CcfGroup, false, false>;
template class Container<Model, InitiatingEvent>;
template class Container<Model, EventTree>;
template class Container<Model, Sequence>;
template class Container<Model, Rule>;
template class Container<Model, Alignment>;
template class Container<Model, Substitution>;
template class Container<Model, FaultTree>;
template class Container<Model, BasicEvent>;
template class Container<Model, Gate>;
template class Container<Model, HouseEvent>;
template class Container<Model, Parameter>;
template class Container<Model, CcfGroup>;
template class Container<Model, ExternLibrary>;
template class Container<Model, ExternFunction<void>>;

inline void use(Model& m, Component& c) {
  m.Add(std::unique_ptr<Gate>());
  m.Add(std::unique_ptr<BasicEvent>());
  m.Add(std::unique_ptr<HouseEvent>());
  c.Add(static_cast<Gate*>(nullptr));
  c.Add(static_cast<BasicEvent*>(nullptr));
  c.Add(static_cast<HouseEvent*>(nullptr));
}
}  // namespace scram::mef
