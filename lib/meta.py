"""Level, explanation and assumptions of each property's check."""
from lib.props import CONTRACTS

TRUSTED = [
    "the VC generator /verif/pyvc (semantics of the Python subset, frame rules, contract substitution)",
    "z3 (API and CLI), cvc5: an obligation counts as discharged when one of them answers unsat",
    "CPython's own data structures behave as the mathematical lists/dicts/sets they are modelled by; "
    "Python integers are unbounded so machine arithmetic is not an approximation",
]
EXPLAIN = {
    "C03": "All of Function and TableMethod under contract. Invariant of the table: the function is itself a pre-fixed point of "
           "the rules added so far and lies below every pre-fixed point (any map g with a blocking child per rule), so it is the "
           "least one; the step 'no improvement left below the gap => infinite above it' is an induction discharged by the "
           "solvers. Termination of _process_queue and bitwise equality with an independent oracle stay bounded.",
    "C15": "All ClassDB functions under contract; bounded histories as replay source.",
    "C06": "All EquivalenceDB functions the property observes under contract, over a ghost representative map: union-find, "
           "verification across merges, soundness of every merge (each label reaches the other along recorded edges), and "
           "find_path (ends, recorded edges, and that it finds a path at all) are proved; that connect_cycles merges every cycle, "
           "and termination, are bounded.",
    "C05": "prune and iterative_prune under contract: prune leaves exactly the greatest set of labels closed under having a rule all "
           "of whose children remain, and iterative_prune exactly the least fixed point; the proof-tree generators are bounded.",
    "C07": "DisjointUnion.get_sub_objects and CartesianProduct.get_sub_objects (with utils.compositions and the parameter "
           "splitting they use) proved to yield only, each once, and all the tuples their parameter maps send to the asked "
           "statistics, and the forward/backward maps of equivalence and reverse rules and the forward map of equivalence "
           "paths proved to be the original rule's maps in the right direction; the rule-level caches are bounded.",
    "C09": "DisjointUnion.get_terms, CartesianProduct.get_terms/_new_param, Constructor.param_map, DisjointUnion.param_map and "
           "their helpers proved for every input: the parent's count at each parameter vector is the sum over the children's "
           "vectors mapped there; reverse constructors and whole rules are bounded.",
    "C01": "The terms cache (Rule._ensure_level, get_terms, count_objects_of_size, and the verification rules' versions) proved to "
           "hold, size by size, what the rule's constructor answers for the sub rules' terms, and never to answer from a stale "
           "level; that the constructors' answers are the class's counts is C09's contracts. Whole specifications are bounded.",
    "C02": "The extraction of a specification from the equivalence tree (rule_from_equivalence_rule_dict, the whole of "
           "SpecificationRuleExtractor up to _find_rule) and CombinatorialSpecification's own validity check under contract: every "
           "label on a right hand side has a rule, the root has one, the rules used are recorded ones. Productivity of whole "
           "specifications is bounded.",
    "C10": "utils.compositions sound, complete and duplicate free for every size, bound and number of parts; the shift computations "
           "of constructors, strategies and (reverse) rules, and forest_key, proved against a ghost permission: each constructor's "
           "get_terms (union, product, complement, quotient) asks its getters only for sizes allowed by the shifts it declares. "
           "Equivalence paths and shifts of user strategies are bounded.",
    "C20": "DisjointUnion.get_equation, CartesianProduct.get_equation and Rule.get_equation proved to build the equation of the "
           "right children with the right substitution of the statistics; CombinatorialSpecification.get_genf proved to return only "
           "a solution whose initial terms it compared with the counts; sympy's solving, the simultaneous substitution and whole "
           "systems are bounded.",
    "C08": "The parameters sampling passes down (get_extra_parameters of unions and products), the choice of the child or of the "
           "composition (random_sample_sub_objects of both: the choice made is the one whose cumulated count the drawn number falls "
           "in, and the rejected ones are those below), Rule.backward_map and Rule.random_sample_object_of_size proved; that this "
           "makes the draw uniform is a counting argument over those contracts, and whole specifications are bounded "
           "(the distribution is computed exactly by enumerating the drawn numbers).",
    "C11": "Every function of ForestRuleExtractor that chooses rules under contract: the extracted rules are inserted ones, pump the "
           "root, none can be left out (including termination of the minimization), reverse rules are used only if needed, and check "
           "accepts only one rule per parent; _find_rule and rules() are bounded.",
    "C14": "The dict that forgets strategies (RecomputingDict) proved to behave as a dict on its keys, and add, _clean_labels, contains "
           "and rules_up_to_equivalence proved against one and the same contract for both databases; recomputation of a "
           "strategy (__getitem__) and whole runs of both databases side by side are bounded.",
    "C04": "Everything of the searcher between strategies and the rule database (_rules_from_strategy, _expand_class_with_strategy, "
           "add_rule, try_verify, _symmetry_expand, _inferral_expand, _expand, _expand_classes_for) proved: each rule a strategy makes is "
           "recorded with its labels, nothing else is, and every strategy of a packet is applied; so are add and contains of "
           "both label-based databases. Whole universes are compared with a reference search (bounded).",
    "C12": "The inverse of a bijection (_perm_inv, __init__), the end of equivalence chains, the decisions without recursion and the "
           "choice of the next child to try are proved; the backtracking of _are_isomorphic and the maps are bounded.",
    "C13": "The pieces both searches decide with (base cases, matching of atoms and constructors, the children tried next, consistency "
           "with what is chosen, undoing a failed choice) and the first search itself (_find: it indexes only existing children, leaves its "
           "ancestors as they were, records only children of rules of the pair, and answers yes only for a recorded pair or "
           "one that relies on an ancestor) proved; the second search and the totality of the whole finder are bounded.",
    "C17": "_expand_classes_for and _auto_search_rules proved: whenever the search stops, for whatever reason, every packet it took "
           "from the queue was dealt with, and it gives up only when the queue is exhausted and there is no "
           "specification; pickling at every point is bounded.",
    "C19": "unexpanded_verified_classes proved to hand out exactly the classes verified with a pack, expand_verified to return only when "
           "there is none and to keep the root and whatever single expansions keep; single expansions (expand_comb_class) are bounded.",
    "C16": "All DefaultQueue functions that hand out, mark or move labels under contract, with a ghost history of what was "
           "added, stopped and handed out; do_level (a lazy generator interleaved with its caller) and termination are bounded.",
}
# properties whose listed functions are all under contract and discharged
PROOF = {"C03", "C15", "C16"}
ASSUME = {
    "C03": ["termination of TableMethod._process_queue is not proved (bounded stand-in)",
            "labels are natural numbers and a rule key has one shift per child (the shape AbstractRule.forest_key builds)"],
    "C11": ["TableMethod pumps exactly what C03's contracts say, taken as a monotone ghost predicate pump over sets of rule keys",
            "a stable sub-universe pumps the root iff the whole universe does (paper argument in DESIGN.md)"],
}


class _Meta(dict):
    def __missing__(self, prop):
        ded = bool(CONTRACTS.get(prop))
        return {
            "level": "proof" if prop in PROOF else "exploration",
            "explain": EXPLAIN.get(prop, "bounded stand-in of the property's postcondition on the real code"),
            "assumptions": ASSUME.get(prop, []),
            "deductive": ded,
        }


META = _Meta()
