"""Which contracts and which bounded harness decide which property."""
PROPS = {
    "C01": dict(specs=["bdd"], native="analysis", native_s=5,
                bounded="the BDD of random fault trees against the tree's truth table (the constructor and the "
                        "argument ordering of Bdd, the whole pipeline below it)"),
    "C15": dict(specs=["settings"], native="settings", native_s=4,
                bounded="default construction and sequences of setter calls against a reference model"),
}
PROPS["C14"] = dict(specs=["formula"], native="mef", native_s=4,
                    bounded="random argument sets, connectives and numbers against a reference of the acceptance rules")
PROPS["C13"] = dict(specs=["failure"], native="mef", native_s=4,
                    bounded="random parameters and mission times against independent evaluations of the documented formulas, and invalid parameters")
PROPS["C12"] = dict(specs=["expression"], native="mef", native_s=5,
                    bounded="random expression trees, values and samples against independent definitions and the declared intervals")
PROPS["C16"] = dict(specs=["sil"], native="analysis", native_s=5,
                    bounded="random probability curves, many on the borders of levels, against the integral and the shares computed independently")
PROPS["C17"] = dict(specs=["curve"], native="analysis", native_s=5,
                    bounded="fault trees with scripted event probabilities: times, values, mission time and variables of every point, for all calculators")
PROPS["C05"] = dict(specs=["prob"], native="analysis", native_s=8,
                    bounded="the total probability of random fault trees by every algorithm, after recalculations and with substitutions, against the sum over all assignments")
PROPS["C06"] = dict(specs=["cutset"], native="analysis", native_s=6,
                    bounded="both approximations of random coherent fault trees against the formulas over their minimal cut sets and the exact probability")
PROPS["C07"] = dict(specs=["importance"], native="analysis", native_s=8,
                    bounded="all factors of all events of random fault trees against brute force with the event certain and impossible")
PROPS["C26"] = dict(specs=["substitution"], native="mef", native_s=3,
                    bounded="random hypotheses, targets and sources against a reference of the forms and types")
PROPS["C21"] = dict(specs=["phase"], native="model", native_s=6,
                    bounded="random alignments over random fault trees: acceptance, the probability of every phase, and the state of the model afterwards")
PROPS["C25"] = dict(specs=["registry"], native="model", native_s=5,
                    bounded="random histories of additions, removals and look-ups on models, components, event trees and CCF groups against a map from keys to elements")
PROPS["C11"] = dict(specs=["ccf"], native="model", native_s=5, bounded="expansion of random CCF groups into events and gates (ApplyModel), compared with the factors of the standard")
PROPS["C22"] = dict(specs=["cycle"], native="model", native_s=6, bounded="random reference graphs of gates, parameters, branches, rules and links; the references of the last three are found by visitors, whose contracts are assumed by the proof")
PROPS["C23"] = dict(specs=["linear"], native="ext", native_s=4, bounded="random histories of operations on linear maps, linear sets and index maps of numbers, strings and objects, with both erasure policies, against std::map")
PROPS["C24"] = dict(specs=[], native="ext", native_s=4, level="exploration", bounded="every n up to 15 with every k, then random arrangements up to n = 18 with early stops, against the set of all k-subsets")
PROPS["C03"] = dict(specs=["mocus"], native="analysis", native_s=10,
                    bounded="the products of random fault trees (up to 8 events, 9 gates) by all three algorithms against the minimal sets of the truth table; the loops over gates and modules in Mocus::AnalyzeModule and the Zbdd constructors, the preprocessing, and the iteration of the products are decided only here")
PROPS["C04"] = dict(specs=["primes"], native="analysis", native_s=8,
                    bounded="the prime implicants of random fault trees of 5 events against those of the truth table; the Zbdd constructors and the joining of modules are decided only here")
PROPS["C09"] = dict(specs=["construct"], native="analysis", native_s=6, bounded="the graph of random fault trees (7 events, house events, all connectives) against the tree for all assignments; what non-declarative substitutions collect, and models with substitutions in the constructor, are decided only in parts (ConstructSubstitution is proved)")
PROPS["C10"] = dict(specs=["preprocess"], native="analysis", native_s=8, bounded="the three preprocessors as a whole on random fault trees (8 events, 12 gates): function for all assignments, monotonicity of coherent graphs, independence of modules; complement propagation, coalescing, merging, decomposition, Boolean optimization and module detection are decided only here")
PROPS["C20"] = dict(specs=["xmlstream"], native="xml", native_s=5, bounded="random documents of nested elements, attributes and text over all ASCII characters, and misuse, read back with libxml2: constructor, root() and destructor of the stream, the digits of natural numbers, and indentation are decided only here")
PROPS["C08"] = dict(specs=["gate"], native="gate", native_s=6, bounded="every gate of up to 6 arguments with every duplicate, complement and constant, and random histories of manipulations on gates over 7 variables: truth tables and parent links; Gate::CoalesceGate, and the value and the links after Gate::ProcessAtleastGateDuplicateArg, are decided only here")
PROPS["C02"] = dict(specs=["zbdd"], native="zbdd", native_s=6, bounded="random families of literal sets over 6 variables: every operation, minimality of the minimized diagrams, order pruning, and the iteration of the products against set algebra")
PROPS["C29"] = dict(specs=["product"], native="zbdd", native_s=6, bounded="the iterator over the diagrams of products (Zbdd::const_iterator, through modules): the products of random fault trees by all algorithms against the truth table; probability, order, size, distribution, involved events")
