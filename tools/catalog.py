"""Property catalogue: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "scv"))
from props import PROPS

L = []


def P(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    L.append(d)


P("C01", "The binary decision diagram is exactly the Boolean function of the graph",
  "For every fault tree and every assignment of its basic events, the binary decision diagram built from the preprocessed "
  "graph has the value of the graph. Every operation on diagrams (conjunction, disjunction, lookup or creation of a vertex, "
  "memoization, consensus) yields a diagram of exactly the Boolean combination of its operands, whatever was computed before.",
  ["inputs", "histories"], "all graphs, all operand diagrams, all contents of the unique and computation tables, all assignments",
  "Tests compare the products and probability of a few fixed models; they do not observe the function of intermediate diagrams nor table reuse.",
  ["src/bdd.h", "src/bdd.cc"],
  [("vertex lookup and creation", "Bdd::FindOrAddVertex, UniqueTable::FindOrAdd"), ("apply", "Bdd::Apply"),
   ("computation tables", "CacheTable"), ("consensus", "Bdd::CalculateConsensus"), ("conversion of the graph", "Bdd::ConvertGraph")])
P("C02", "Operations on product sets represent exact set algebra",
  "Every operation on zero-suppressed diagrams of products (union, cross product, subsumption removal, minimization, complement "
  "elimination, order pruning) yields a diagram whose products cover exactly the Boolean combination of the operands. Minimization and "
  "subsumption removal never lose a solution and never invent one.",
  ["inputs", "histories"], "all operand diagrams, all table contents, all sets of events",
  "Tests look only at final products of fixed models; intermediate diagrams, memoization and rarely met terminal cases stay unobserved.",
  ["src/zbdd.h", "src/zbdd.cc"],
  [("apply", "Zbdd::Apply"), ("minimization", "Zbdd::Minimize, Zbdd::Subsume"), ("pruning", "Zbdd::Prune"),
   ("complements", "Zbdd::EliminateComplements"), ("vertex lookup and creation", "Zbdd::FindOrAddVertex, Zbdd::GetReducedVertex")])
P("C03", "Minimal cut sets are exactly the minimal solutions of the fault tree",
  "For every fault tree and each of the BDD, ZBDD and MOCUS algorithms, the reported products are exactly the minimal sets of basic "
  "events whose joint failure makes the top event occur, each reported once; the three algorithms agree. With an order limit on a "
  "coherent fault tree, exactly those of them within the limit are reported, and the product count, the distribution by order and "
  "the set of involved events agree with the list.",
  ["inputs", "configurations"], "all fault trees, all three algorithms, all order limits",
  "Tests check a dozen fixed benchmark models; shapes that trigger particular rewritings or pruning in combination are not covered.",
  ["src/fault_tree_analysis.cc", "src/zbdd.cc", "src/mocus.cc", "src/bdd.cc", "src/preprocessor.cc"],
  [("analysis driver", "FaultTreeAnalysis::Analyze, FaultTreeAnalyzer::GenerateProducts"), ("MOCUS", "Mocus::AnalyzeModule"),
   ("cut set container", "zbdd::CutSetContainer"), ("product summary", "ProductContainer")])
P("C04", "Prime implicants are exactly all prime implicants of the fault tree",
  "With prime implicant analysis turned on, the reported products are exactly the prime implicants of the top event as a Boolean "
  "function of the basic events and their complements: each is an implicant, no literal can be dropped, and none is missing.",
  ["inputs"], "all fault trees, coherent or not", "Tests cover four small non-coherent models.",
  ["src/zbdd.cc", "src/bdd.cc", "src/settings.cc"],
  [("prime implicant conversion", "Zbdd::ConvertBddPrimeImplicants"), ("consensus", "Bdd::CalculateConsensus")])
P("C05", "The exact probability is the probability of the fault tree's function",
  "The total probability calculated without approximation is the sum, over all assignments that make the top event occur, of the "
  "products of the probabilities of independent basic events (to floating-point accuracy); it does not depend on the algorithm that "
  "found the products or on earlier calculations with other probabilities.",
  ["inputs", "histories"], "all fault trees, all probabilities of events, all sequences of recalculations",
  "Tests compare totals of fixed models at one set of probabilities.",
  ["src/probability_analysis.h", "src/probability_analysis.cc"],
  [("diagram traversal", "ProbabilityAnalyzer<Bdd>::CalculateProbability"), ("diagram reuse", "ProbabilityAnalyzer<Bdd>::CreateBdd")])
P("C06", "Rare-event and MCUB approximations are the formulas over the products",
  "The rare-event probability is the sum of the product probabilities capped by 1, and the minimal-cut-set upper bound is one minus "
  "the product of their complements, the probability of a product being that of its events all occurring. Both lie within [0, 1] "
  "and are not below the exact probability of a coherent fault tree whose cut sets are complete.",
  ["inputs"], "all collections of products, all probabilities",
  "Tests check the totals of a few models with positive literals.",
  ["src/probability_analysis.cc", "src/probability_analysis.h"],
  [("product probability", "CutSetProbabilityCalculator::Calculate"), ("rare event", "RareEventCalculator::Calculate"), ("MCUB", "McubCalculator::Calculate")])
P("C07", "Importance factors satisfy their definitions",
  "For every event in the products, the marginal factor is the difference of the system probabilities with the event certain and "
  "impossible, and the critical, diagnosis, risk achievement and risk reduction factors follow from it, the event probability and the "
  "total by their defining formulas; the occurrence is the number of products with the event. Exactly the events present in products get a record.",
  ["inputs"], "all fault trees, all probabilities, all quantification methods",
  "Tests check two models; signs under complements and modules are not exercised.",
  ["src/importance_analysis.h", "src/importance_analysis.cc"],
  [("factors", "ImportanceAnalysis::Analyze"), ("marginal factor", "ImportanceAnalyzer::CalculateMif"), ("occurrences", "ImportanceAnalyzerBase::occurrences")])
P("C08", "Rewriting of a gate's arguments preserves the gate's logic",
  "Adding, removing, negating, transferring or merging arguments of a gate, including duplicates, complements and constants, leaves the "
  "gate with exactly the Boolean function that its logic and the requested argument list define, while the argument indices, the "
  "argument containers and the parent links stay mutually consistent.",
  ["inputs", "histories"], "all gate types, all vote numbers, all argument sets, all assignments",
  "Tests add at most one duplicate, complement or constant to a gate of each type.",
  ["src/pdag.h", "src/pdag.cc"],
  [("constants", "Gate::AddConstantArg"), ("duplicates", "Gate::ProcessDuplicateArg, Gate::ProcessAtleastGateDuplicateArg"),
   ("complements", "Gate::ProcessComplementArg"), ("merging", "Gate::CoalesceGate, Gate::JoinNullGate"), ("erasure and negation", "Gate::EraseArg, Gate::NegateArgs")])
P("C09", "The analysis graph is logically equal to the fault tree model",
  "The propositional graph built from a top gate has, for every assignment of basic events, the value of the top gate's formula in the model: "
  "every connective (and, or, not, null, nand, nor, xor, iff, imply, atleast, cardinality), complement flags, house events, nesting and "
  "sharing included. Each basic event becomes exactly one variable, and a graph declared coherent is monotone.",
  ["inputs"], "all formulas, all house event states, all assignments",
  "Tests construct each connective once with plain arguments.",
  ["src/pdag.cc", "src/event.cc"],
  [("construction", "Pdag::ConstructGate, Pdag::ConstructComplexGate"), ("arguments", "Pdag::AddArg"), ("variables", "Pdag::GatherVariables")])
P("C10", "Preprocessing preserves the fault tree's function and module independence",
  "Every preprocessing technique (normalization, coalescing, multiple-definition removal, common-argument merging, distributivity, Boolean "
  "optimization, decomposition, module detection, complement propagation) leaves the function of the top event unchanged for every assignment, "
  "never aborts, and marks as modules only subgraphs that share no variable with the rest of the graph.",
  ["inputs"], "all fault trees, all three preprocessing pipelines, all assignments",
  "Tests run the pipeline over fixed models and compare final results only.",
  ["src/preprocessor.h", "src/preprocessor.cc", "src/pdag.cc"],
  [("gate normalization", "Preprocessor::NormalizeGate and its parts"), ("constant and null propagation", "Pdag::RemoveNullGates"),
   ("modules", "Preprocessor::DetectModules"), ("rewriting", "Preprocessor::MergeCommonArgs, DetectDistributivity, BooleanOptimization, DecomposeCommonNodes")])
P("C11", "Common-cause models preserve the total probability of their members",
  "Applying a beta-factor, multiple Greek letters or alpha-factor model replaces each member by the disjunction of its independent failure and every common-cause "
  "combination that contains it, each combination being one shared event. The probabilities of these events follow the model's formulas, so "
  "that the sum over the combinations containing a member equals the member's total probability (beta-factor and multiple Greek letters, and alpha-factor with non-staggered scaling).",
  ["inputs"], "all group sizes, levels and factor values", "Tests check groups of three or four members with one factor vector.",
  ["src/ccf_group.h", "src/ccf_group.cc"],
  [("application", "CcfGroup::ApplyModel"), ("probabilities", "BetaFactorModel, MglModel, AlphaFactorModel, PhiFactorModel ::CalculateProbabilities"), ("validation", "CcfGroup::Validate, CcfGroup::AddFactor")])
P("C12", "Expressions evaluate to their definitions within their declared intervals",
  "Every arithmetic, comparison, logical, conditional and set expression evaluates to its mathematical definition over the values of its arguments. Its "
  "declared interval contains every value it can take while the arguments range over their own intervals.",
  ["inputs"], "all argument values and intervals", "Tests evaluate each operator at a few points and check few interval bounds.",
  ["src/expression.h", "src/expression/numerical.h", "src/expression/boolean.h", "src/expression/conditional.cc", "src/expression/extern.h"],
  [("n-ary evaluation", "NaryExpression, ExpressionFormula"), ("intervals", "GetInterval overloads"), ("conditions", "Ite, Switch")])
P("C13", "Failure models give valid probabilities that follow their formulas",
  "The exponential, GLM, Weibull and periodic-test expressions compute their documented formulas at every mission time, and the value is a "
  "probability within [0, 1] for all parameters their validation accepts. Invalid parameters (negative rates or times, probabilities outside [0, 1]) are rejected.",
  ["inputs"], "all parameter values accepted by validation", "Tests evaluate each model at one or two parameter points.",
  ["src/expression/exponential.cc", "src/expression/exponential.h"],
  [("formulas", "Exponential, Glm, Weibull, PeriodicTest ::Compute"), ("validation", "their Validate functions")])
P("C14", "A formula is accepted only with arguments that fit its connective",
  "A formula is created only if its connective, number of arguments, minimum and maximum numbers and complement flags satisfy the connective's rules "
  "(one argument for not and null, two for iff, imply and xor, at least two for and, or, nand and nor, more arguments than the minimum for atleast, ordered bounds within the count for "
  "cardinality); duplicates are refused, and everything else is accepted. What is accepted is kept as given.",
  ["inputs"], "all connectives, argument lists and numbers", "Tests try one bad value per rule.",
  ["src/event.h", "src/event.cc"], [("validation", "Formula::Formula, Formula::ValidateConnective, Formula::ValidateMinMaxNumber"), ("arguments", "Formula::ArgSet::Add")])
P("C15", "Analysis settings stay consistent under any sequence of changes",
  "Whatever sequence of setting changes is made, prime implicants are on only with the BDD algorithm and no approximation, importance, "
  "uncertainty and SIL analyses imply probability analysis, SIL analysis implies a positive time step, and every number is finite-safe and in its legal range. "
  "An illegal request is rejected with an error and changes nothing.",
  ["histories", "configurations"], "all sequences of setter calls with all argument values", "Tests call single setters from the default state.",
  ["src/settings.h", "src/settings.cc"], [("setters", "Settings setters")])
P("C16", "Safety integrity levels average and bucket the probability curve exactly",
  "The average probability of failure on demand is the time integral of the trapezoidal probability curve divided by its span, and the average failure frequency is that integral of probability over time. "
  "The fraction of time of each integrity level equals the share of the curve's span within the level's half-open bounds, so that the fractions of a curve within [0, 1] add up to one.",
  ["inputs"], "all probability curves", "Tests use constant and a few linear curves.",
  ["src/probability_analysis.cc"], [("average", "ProbabilityAnalysis::ComputeSil"), ("partition", "PartitionY, AverageY")])
P("C17", "The probability-over-time curve covers the mission exactly",
  "The probability over time is sampled at every multiple of the time step and at the mission end, in increasing time order, each point being the total "
  "probability with the event probabilities of that time. Afterwards the model's mission time is what it was before.",
  ["inputs", "configurations"], "all mission times and time steps", "Tests check one step and mission time.",
  ["src/probability_analysis.h", "src/probability_analysis.cc"], [("time loop", "ProbabilityAnalyzerBase/ProbabilityAnalyzer::CalculateProbabilityOverTime")])
P("C18", "Event tree sequences collect exactly the conjunctions of their paths",
  "Each end state of an event tree gets the disjunction, over all paths leading to it, of the conjunction of the formulas collected on the path under the functional event states set so far, or of the product of collected expressions. "
  "Conditions, links to other trees and set instructions act on later steps of the same path only.",
  ["inputs"], "all event trees", "Tests cover a few fixed trees.",
  ["src/event_tree_analysis.cc", "src/instruction.h"], [("collection", "EventTreeAnalysis::CollectSequences"), ("result formulas", "EventTreeAnalysis::Analyze")])
P("C19", "Uncertainty statistics describe the sampled distribution within bounds",
  "Uncertainty analysis evaluates the total probability for the configured number of trials, clamps sampled event probabilities into [0, 1], and reports a mean, deviation, confidence interval, "
  "quantiles in non-decreasing order, and a density histogram whose bins cover the samples and integrate to one.",
  ["inputs", "configurations"], "all models with deviates, all seeds and trial counts", "Tests check that a run finishes.",
  ["src/uncertainty_analysis.cc", "src/uncertainty_analysis.h"], [("sampling", "UncertaintyAnalyzer::Sample, SampleExpressions"), ("statistics", "UncertaintyAnalysis::CalculateStatistics")])
P("C20", "The XML output stream writes only well-formed documents",
  "Whatever names, values and nesting the report generator passes, the produced text is a well-formed XML document with the given structure: tags are closed in order, special characters "
  "in attributes and text are escaped, a reader gets the names, values and texts that were passed, integers as the same number and floating-point numbers to six significant digits. "
  "Misuse (attributes after text or children, text after children, children after text, empty names, writing to an element while its child is open, a second root) is refused with StreamError and leaves the document as it was.",
  ["inputs", "histories"], "all strings, numbers and call sequences", "Tests write a handful of fixed elements.",
  ["src/xml_stream.h"], [("elements", "StreamElement"), ("text", "FileStream, escaping writers")])
P("C21", "Phases of an alignment partition the mission and act only within their phase",
  "An alignment is accepted exactly if each phase has a positive fraction not above one and the fractions add up to one (within 1e-4). During the analysis of a phase its house-event instructions and its share of the mission time are in force, "
  "the last instruction for a house event winning, and afterwards the house events and the mission time are as they were before.",
  ["inputs", "histories"], "all alignments", "Tests use one valid and a few invalid alignments.",
  ["src/alignment.cc", "src/risk_analysis.cc"], [("validation", "Phase::Phase, Alignment::Validate"), ("phase context", "RiskAnalysis::RunAnalysis")])
P("C22", "Cycles among gates, parameters, event trees and rules are always detected",
  "A model whose gates, parameters, branches, rules or event-tree links refer to themselves through any chain of references is rejected with a report of the cycle, and a model without such a cycle is never rejected for one. "
  "The reported path follows references between elements and ends where it starts; a check that finds no cycle has visited every element.",
  ["inputs"], "all reference graphs", "Tests contain a few small cycles.",
  ["src/cycle.h"], [("detection", "cycle::DetectCycle, cycle::ContinueConnector"), ("report", "cycle::PrintCycle")])
P("C23", "The linear and index maps behave as maps under any operation sequence",
  "The contiguous map and set keep every inserted key once with its value through any sequence of insertions, lookups and erasures, find returns the entry exactly if the key is present, "
  "and the index-based map gives back the value stored for each index of its range.",
  ["histories"], "all operation sequences, all keys", "Tests try short fixed sequences.",
  ["src/ext/linear_map.h", "src/ext/linear_set.h", "src/ext/index_map.h"], [("maps", "ext::linear_map, ext::linear_set, ext::index_map")])
P("C24", "Combination enumeration visits every k-subset exactly once",
  "Enumerating combinations of k out of n elements yields each k-element subset of positions exactly once and then ends, for every n and k; the vote-gate expansions built on it hold exactly these combinations.",
  ["inputs"], "all n and k", "Tests enumerate one small case.",
  ["src/ext/combination.h"], [("enumeration", "ext::for_each_combination, detail::combine_discontinuous, detail::rotate_discontinuous")])
P("C25", "Model registries hold unique elements and refuse duplicates without side effects",
  "Adding an element to a model, component, event tree or alignment registers it exactly once under its identity; a second element with the same identity is refused with an error and the registry "
  "stays as it was; removal restores the state before the addition. Everything registered can be found by its identity.",
  ["histories"], "all sequences of additions and removals", "Tests add each element kind once and once again.",
  ["src/element.h", "src/element.cc", "src/model.h", "src/model.cc", "src/fault_tree.cc", "src/event_tree.h"],
  [("containers", "Composite, Container::AddTable"), ("model", "Model::Add, Model::Remove, Model::CheckDuplicateEvent"), ("components", "Component::Add")])
P("C26", "Substitutions are accepted only in their well-defined forms",
  "A substitution passes validation exactly if its hypothesis is a pass-through, conjunction or disjunction (or, without sources, an at-least combination) of uncomplemented basic events "
  "and its constant target, if any, has an effect (false without sources, true with them); sources are distinct. Its type is reported exactly by form: delete-terms for two mutually exclusive events and the target false; "
  "recovery rule for a conjunction (or pass-through) replaced by an event, with no sources or all hypothesis events as sources; exchange event for a single source out of a larger hypothesis.",
  ["inputs"], "all hypotheses, targets and sources", "Tests try one example per rule.",
  ["src/substitution.h", "src/substitution.cc"], [("validation", "Substitution::Validate"), ("classification", "Substitution::type"), ("sources", "Substitution::Add")])
P("C27", "Loading input files either yields a valid model or a described error",
  "Whatever files are given, loading ends with a model in which all references are resolved and all elements valid, or with an error of the library that describes the problem; it never crashes nor yields a half-initialized model.",
  ["inputs"], "all XML files", "Tests load a fixed set of good and bad files.",
  ["src/initializer.cc", "src/xml.h", "src/xml.cc", "src/project.cc"], [("loading", "mef::Initializer")])
P("C28", "Serialization of a model reads back as the same model",
  "Writing a loaded model in the exchange format and reading it back yields a model with the same events, gates, formulas, parameters and fault trees, hence the same analysis results.",
  ["inputs"], "all models", "Tests serialize a fixed set of files and only validate the output against the schema.",
  ["src/serialization.cc"], [("serialization", "Serialize, SerializeFormula and alike")])
P("C29", "Iteration over products yields exactly the products represented",
  "Iterating over a product diagram, through modules and within the order limit, yields every product it represents exactly once, with the right literals; the reported probability "
  "of a product and its contribution follow from its literals, and the order is the number of literals (one for the unity product).",
  ["inputs"], "all diagrams with and without modules", "Tests print products of fixed models.",
  ["src/zbdd.h", "src/fault_tree_analysis.h", "src/fault_tree_analysis.cc"], [("iteration", "Zbdd::const_iterator"), ("products", "Product, Literal, ProductContainer")])

NA = {
    "C18": "sequences are collected by mutually recursive visitors over variants and std::function callbacks whose frames the verifier built here cannot state",
    "C19": "the statement is about statistics of samples drawn through <random> and Boost.Accumulators; no contract on this repository's functions decides it",
    "C27": "parsing and schema validation happen in libxml2 and over its untyped tree, outside any contract on this repository's functions; the rules of loaded elements are claimed as C14, C22, C25, C26",
    "C28": "the round trip composes the serializer with the loader of C27, which no contract here can express; the XML writer below it is claimed as C20",
}
try:
    from na import NA
except ImportError:
    pass
NOTE = ("Obligations from /repo's current source (clang AST, no hand-written copy) are discharged by z3/cvc5 on every run; ")


def note(cfg):
    if cfg.get("level", "proof") == "proof":
        return NOTE + "bounded, not proved: " + cfg.get("bounded", "none") + "."
    return "Bounded, not proved as a whole: " + cfg["bounded"] + ". " + (NOTE + "they cover: " + cfg["covers"] + "." if cfg["specs"] else "No contract covers this property yet.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in L:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for d in L:
        cfg = PROPS.get(d["id"])
        if not cfg:
            continue
        checks.append(dict(
            property=d["id"], quick_cmd="python3-vt /verif/scv/check.py %s --tier quick" % d["id"],
            thorough_cmd="python3-vt /verif/scv/check.py %s --tier thorough" % d["id"],
            technique=cfg.get("technique", "contract-based deductive verification of the extracted C++ (z3/cvc5)"),
            level=cfg.get("level", "proof"), level_note=note(cfg)))
    na = [dict(property=d["id"], reason=NA.get(d["id"], "contracts for these functions are not built yet")) for d in L if d["id"] not in PROPS]
    m = dict(version=1, setup_cmd="python3-vt /verif/scv/setup.py", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
