// Instantiations of the calculators of /repo for the verifier.
#include <algorithm>
#include <cmath>
#include "src/fault_tree_analysis.h"
#include "src/importance_analysis.h"
#include "src/mocus.h"
#include "src/probability_analysis.h"
#include "src/zbdd.h"

namespace scram::core {
template class ProbabilityAnalyzer<RareEventCalculator>;
template class ProbabilityAnalyzer<McubCalculator>;
template class ImportanceAnalyzer<RareEventCalculator>;
template class ImportanceAnalyzer<McubCalculator>;
}  // namespace scram::core
