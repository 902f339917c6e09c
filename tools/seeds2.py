"""Planted changes whose demonstration is a bounded harness of /verif/native, copied beside it."""
import sys
from mkseed import *
BASE = ["lib"]
DEMO = """#!/bin/bash
# Builds the demonstration (%(h)s.cc: random inputs against an independent oracle) and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++17 -O1 -w -fno-access-control -DPROJECT_SOURCE_DIR='"/repo"' -include boost/current_function.hpp -DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION \\
  -I/repo/src -I/repo -I/repo/_build -I/repo/_build/src -isystem /usr/include/libxml2 -I"$here" "$here/%(h)s.cc" -o "$tmp/demo" \\
  -L/repo/_build/lib/scram -lscram -lxml2 -lboost_filesystem -lboost_system -lboost_random -ldl -lpthread \\
  -Wl,-rpath,/repo/_build/lib/scram
timeout 200 "$tmp/demo" %(p)s %(s)s %(seed)s
"""
def N(x): return open("/verif/native/" + x).read()
def seed(id, prop, harness, needs, breaks, edits, secs=8, rng=3):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    make(id, prop, needs, breaks, edits, {harness + ".cc": N(harness + ".cc"), "ft.h": N("ft.h"), "common.h": N("common.h")},
         DEMO % dict(h=harness, p=prop, s=secs, seed=rng))
    print(id)

seed("c02-tautology", "C02", "zbdd", "a positive literal with high branch 1 meeting its complement with a longer high branch in a union",
     "x + x'yz is taken for a tautology", [("src/zbdd.cc", "      if (arg_one->high()->terminal() && arg_two->high()->terminal())\n        return kBase_;", "      if (arg_one->high()->terminal())\n        return kBase_;")])
seed("c02-prune-key", "C02", "zbdd", "a diagram pruned to a limit, then its part pruned to another limit before the tables are cleared",
     "pruning results are shared between limits that differ by one",
     [("src/zbdd.cc", "prune_results_[{node->id(), limit_order}]", "prune_results_[{node->id(), limit_order | 1}]")])
seed("c02-subsume-low", "C02", "zbdd", "a product subsumed only by a product without the variable they meet at",
     "subsumption leaves a non-minimal product", [("src/zbdd.cc", "    subhigh = Subsume(subhigh, low_node->low());\n", "    if (!subhigh->terminal() && SetNode::Ref(subhigh).minimal())\n      subhigh = Subsume(subhigh, low_node->low());\n")])
seed("c03-module-order", "C03", "analysis", "a module met twice at different orders, with an order limit",
     "the cut-off of a module's order is that of its first occurrence: products within the limit are lost",
     [("src/zbdd.cc", "entry.second = std::max(entry.second, module_order);", "entry.second = std::min(entry.second, module_order);")], secs=15)
seed("c03-mocus-unity", "C03", "analysis", "a non-coherent module that may be certain, at an order limit already used up",
     "a module is dropped at limit 0 though it may be certain", [("src/mocus.cc", "if (limit == 0 && coherent) {", "if (limit == 0) {")], secs=15)
seed("c04-consensus-sign", "C04", "analysis", "a complement edge below a complemented vertex",
     "the consensus of a complemented function takes the wrong sign of the low branch",
     [("src/bdd.cc", "                     ite->complement_edge() ^ complement);\n}\n\nint", "                     ite->complement_edge() || complement);\n}\n\nint")], secs=15)
seed("c05-module-complement", "C05", "analysis", "a module whose diagram is complemented",
     "the complement of a module is ignored", [("src/probability_analysis.cc", "    if (res.complement)\n      p_var = 1 - p_var;\n", "    if (res.complement && ite.complement_edge())\n      p_var = 1 - p_var;\n")], secs=15)
seed("c06-clamp", "C06", "analysis", "rare-event sums above one", "the clamp applies to the terms, not to the sum",
     [("src/probability_analysis.cc", "    sum += CutSetProbabilityCalculator::Calculate(cut_set, p_vars);\n  }\n  return sum > 1 ? 1 : sum;", "    double p = CutSetProbabilityCalculator::Calculate(cut_set, p_vars);\n    sum += p > 1 ? 1 : p;\n  }\n  return sum;")])
seed("c07-module-sign", "C07", "analysis", "a variable inside a module whose diagram is complemented",
     "the marginal importance has the wrong sign below a complemented module",
     [("src/importance_analysis.cc", "      if (res.complement)\n        mif = -mif;\n      ite.factor", "      ite.factor")], secs=15)
seed("c08-vote-min", "C08", "gate", "a K/N gate with all its arguments required, one of them given twice",
     "@(k, [x, x, y_i]) with k arguments loses one requirement too few",
     [("src/pdag.cc", "    clone_two->min_number(min_number_ - 2);  // @(k-2, [y_i])\n    this->EraseArgs();", "    clone_two->min_number(min_number_ - 1);  // @(k-2, [y_i])\n    this->EraseArgs();")])
seed("c08-nor-complement", "C08", "gate", "a NOR gate given an argument and its complement",
     "NOR of x and x' becomes true", [("src/pdag.cc", "    case kNor:\n    case kAnd:\n      MakeConstant(false);\n      break;\n    case kNand:\n    case kXor:", "    case kAnd:\n      MakeConstant(false);\n      break;\n    case kNor:\n    case kNand:\n    case kXor:")])
seed("c09-imply-complement", "C09", "analysis", "an implication with a complemented premise", "the complement of the premise is lost",
     [("src/pdag.cc", "             !formula.args().front().complement, ccf, nodes);", "             true, ccf, nodes);")])
seed("c09-cardinality-max", "C09", "analysis", "a cardinality formula whose maximum is below the number of its arguments by more than one",
     "the bound from above is off by one", [("src/pdag.cc", "      second_arg->min_number(formula.args().size() - *formula.max_number());", "      second_arg->min_number(formula.args().size() != *formula.max_number());")])
seed("c10-xor-state", "C10", "analysis", "a failure state propagated into an XOR gate from both arguments",
     "an XOR of two failed arguments is taken as failed", [("src/preprocessor.cc", "      if (num_failure == 1 && num_success == 1) {", "      if (num_failure && num_failure + num_success == 2) {")], secs=15)
seed("c10-atleast-order", "C10", "analysis", "full normalization of a K/N gate whose recursion reaches K = 1",
     "the second half keeps one requirement less", [("src/preprocessor.cc", "  second_arg->min_number(min_number);\n", "  second_arg->min_number(std::min<int>(min_number, gate->args().size() - 1));\n")], secs=10)
seed("c10-redundant-sign", "C10", "analysis", "Boolean optimization of a variable in its success state",
     "redundant parents get the constant of the failure state", [("src/preprocessor.cc", "    parent->ProcessConstantArg(node, node->opti_value() != 1);", "    parent->ProcessConstantArg(node, node->opti_value() > 1);")], secs=15)
seed("c10-module-filter", "C10", "analysis", "shared arguments of a gate whose visit ranges overlap only partly",
     "arguments that share nodes with others are grouped into a module", [("src/preprocessor.cc", "          if (min_time <= arg.second->max_time()) {\n            min_time = std::min(min_time, arg.second->min_time());", "          if (min_time <= arg.second->max_time()) {")], secs=20)
seed("c11-fewer-factors", "C11", "model", "a CCF group with more members than factors", "the combination counts use the factors instead of the members",
     [("src/ccf_group.cc", "    double mult = CalculateCombinationReciprocal(num_members - 1, i);\n    Expression* level", "    double mult = CalculateCombinationReciprocal(max_level - 1, i);\n    Expression* level")])
seed("c12-switch-interval", "C12", "mef", "a switch whose default value lies outside the values of its cases",
     "the interval of a switch ignores the default value", [("src/expression/conditional.cc", "    min_value = std::min(min_value, case_interval.lower());\n", "    min_value = &case_arm == &cases_.front() ? case_interval.lower() : std::min(min_value, case_interval.lower());\n")])
seed("c13-weibull-shift", "C13", "mef", "a Weibull time shift beyond the mission time", "times before the shift are not handled",
     [("src/expression/exponential.cc", "  return time <= t0 ? 0 : 1 -", "  return time == t0 ? 0 : 1 -")])
seed("c13-test-mu", "C13", "mef", "a periodic test with a negative repair rate", "the repair rate of a periodic test is not checked",
     [("src/expression/exponential.cc", "  InstantRepair::Validate();\n  EnsureNonNegative(&mu_, \"rate of repair\");", "  InstantRepair::Validate();\n  EnsureNonNegative(&lambda_, \"rate of repair\");")])
seed("c14-swap-dup", "C14", "mef", "swapping an argument for another event with the name of a third",
     "a swap can introduce a duplicate", [("src/event.cc", "        return arg.event != current &&\n               ext::as<Event*>(arg.event)->id() == base->id();", "        return arg.event != current &&\n               ext::as<Event*>(arg.event) == base;")])
seed("c16-subrange", "C16", "analysis", "a segment that starts exactly at the border of a level and ends beyond the next",
     "the share of a level starting at the segment's start covers the whole segment",
     [("src/probability_analysis.cc", "      if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.", "      if (p_0 < b_0 && b_1 <= p_1)  // Sub-range.")])
seed("c17-last-step", "C17", "analysis", "a mission time that is no multiple of the time step", "the last regular point is skipped",
     [("src/probability_analysis.cc", "  for (double time = 0; time < total_time; time += time_step)", "  for (double time = 0; time == 0 || time + time_step <= total_time; time += time_step)")])
seed("c21-settings-time", "C21", "model", "an alignment with several phases, and the settings read afterwards",
     "the mission time of the settings is that of the last phase", [("src/risk_analysis.cc", "        model_->mission_time().value(init_time);\n        Analysis::settings().mission_time(init_time);\n", "        model_->mission_time().value(init_time);\n")])
seed("c22-else-rule", "C22", "model", "a cycle of rules through the else branch of a conditional instruction",
     "cycles through else branches are not found", [("src/cycle.cc", "      if (ite->else_instruction())\n        ite->else_instruction()->Accept(&selector_);", "      if (!ite->then_instruction())\n        ite->else_instruction()->Accept(&selector_);")])
seed("c23-erase-last", "C23", "ext", "erasing an element of a map with the move policy when it is next to the last",
     "erasing the element before the last drops the wrong one", [("src/ext/linear_map.h", "    if (it != std::prev(container->end())) {  // Prevent move into itself.", "    if (std::next(it, 1) < std::prev(container->end())) {  // Prevent move into itself.")])
seed("c24-rotate", "C24", "ext", "subsets of three or more", "the depth of the recursion is lost",
     [("src/ext/combination.h", "      if (combine_discontinuous(f1p, last1, d1 - 1, i2, last2, d22, f, d + 1))", "      if (combine_discontinuous(f1p, last1, d1 - 1, i2, last2, d22, f, d))")])
seed("c25-ccf-dup", "C25", "model", "a CCF group added with members one of which is already a house event of the component",
     "the check of duplicates forgets house events", [("src/fault_tree.cc", "  if (gates().count(name) || basic_events().count(name) ||\n      house_events().count(name)) {", "  if (gates().count(name) || basic_events().count(name)) {")])
seed("c26-vote-two", "C26", "mef", "a delete-terms substitution over a 3-of-n hypothesis", "any K/N hypothesis counts as mutually exclusive",
     [("src/substitution.cc", "        return formula.min_number() == 2;", "        return formula.min_number() >= 2;")])
seed("c29-complement-p", "C29", "zbdd", "a product with two complements", "the probability of a product takes the complement of the first literal for all",
     [("src/fault_tree_analysis.cc", "  for (const Literal& literal : *this) {\n    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();", "  bool complement = false;\n  for (const Literal& literal : *this) {\n    complement |= literal.complement;\n    p *= complement ? 1 - literal.event.p() : literal.event.p();")])
seed("c29-distribution", "C29", "zbdd", "a product of higher order met before any of lower order, then an even higher one",
     "the distribution is cut when it grows", [("src/fault_tree_analysis.cc", "    if (distribution_.size() <= order_index)\n", "    if (distribution_.size() < order_index)\n")])
