From 0d4c4e71e90eb1dd24eda5e906058bd6ee8bbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 01/23] fix: ClassDB membership and lookup of unknown labels
 are total

---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 1a46b87a3aa4543749d5963f84c785ee1a28d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 02/23] fix: iterative pruning allows recursion to the root's
 equivalence class

The rules handed to iterative_prune are up to equivalence, so the label allowed
for recursion must be the representative of the root, not the root label itself.
---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..dd1b8ba 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From 2cdeaabc17a9f9c3131198db514c27ab37770eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 03/23] fix: proof_tree_generator_bfs gives each label a single
 rule

---
 comb_spec_searcher/tree_searcher.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..606d0c0 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -213,8 +213,17 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
+    def _one_rule_per_label(tree: Node) -> bool:
+        rules: Dict[int, Tuple[int, ...]] = {}
+        for node in tree.nodes():
+            if node.children:
+                rule = tuple(sorted(child.label for child in node.children))
+                if rules.setdefault(node.label, rule) != rule:
+                    return False
+        return True
+
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        yield from filter(_one_rule_per_label, _bfs_helper(root, frozenset()))
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From af3d3b34c9d3656df1d519916ac4f15bc608b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 04/23] fix: RuleDBBase.contains builds a hashable rule key

---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index dd1b8ba..fd84c4f 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -159,7 +159,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 2f7b8a3e8398cedcacab4d9d54f46408f1d065d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 05/23] fix: has_specification looks up the root's
 representative after merging cycles

---
 comb_spec_searcher/rule_db/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index fd84c4f..4cd31ae 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -222,7 +222,10 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Computing the pruned dict can merge equivalence classes, so it needs to be
+        # done before asking for the representative of the root.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From 8d53b5f815289f058619e8133697596eec67a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 06/23] fix: RecomputingDict skips rules with unlabelled
 classes

Replaying the pack on a class can produce rules that were never recorded, whose
classes have no label: asking for their emptiness raised a KeyError (reported as
a missing rule) and asking for their label polluted the class database.
---
 comb_spec_searcher/rule_db/forget.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..d500d90 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -100,6 +100,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
+                    if any(
+                        c not in self.classdb
+                        for c in itertools.chain([rule.comb_class], rule.children)
+                    ):
+                        # A recorded rule only involves classes with a label.
+                        continue
                     start_label = self.classdb.get_label(rule.comb_class)
                     nonempty_children = tuple(
                         c for c in rule.children if not self.classdb.is_empty(c)
-- 
2.43.0


From 8c3e11deef766732d12740aa31e190b289335ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 07/23] fix: rules made by a factory from a class outside the
 rule can be recomputed

---
 comb_spec_searcher/rule_db/forest.py | 8 +++++++-
 comb_spec_searcher/rule_db/forget.py | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..86b2c16 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -563,7 +563,13 @@ class ForestRuleExtractor:
         """
         Find a rule that have the given rule key.
         """
-        all_classes = (rule_key.parent,) + rule_key.children
+        # A factory can create a rule while expanding a class that is not in the rule,
+        # so all the other classes are tried last.
+        all_classes = itertools.chain(
+            (rule_key.parent,),
+            rule_key.children,
+            range(len(self.classdb.label_to_info)),
+        )
         all_normal_rules = itertools.chain.from_iterable(
             self._rules_for_class(c) for c in all_classes
         )
diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index d500d90..54a07dc 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -82,7 +82,11 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     def __getitem__(self, key: RuleKey) -> AbstractStrategy:
         if self._flatten(key) not in self.rules:
             raise KeyError(key)
-        possible_labels = (key[0],) + key[1]
+        # A factory can create a rule while expanding a class that is not in the rule,
+        # so all the other classes are tried last.
+        possible_labels = itertools.chain(
+            (key[0],), key[1], range(len(self.classdb.label_to_info))
+        )
         for label, strat in itertools.product(possible_labels, self.pack):
             comb_class = self.classdb.get_class(label)
             if isinstance(strat, StrategyFactory):
-- 
2.43.0


From 319df76e378bf9b83aee7aa4e10e95a3ee9f897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 08/23] fix: products with a single factor can be reversed and
 used in equivalence paths

---
 .../strategies/constructor/cartesian.py       |  8 +++++++
 comb_spec_searcher/strategies/rule.py         | 23 ++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..f7c96d3 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -406,6 +406,12 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         self._parent_shift = sum(self._min_sizes) - self._min_sizes[self.idx]
         self._num_parent_params = len(parent.extra_parameters)
 
+    def can_be_equivalent(self) -> bool:
+        return all(
+            len(params.values()) == len(set(params.values()))
+            for params in self.extra_parameters
+        )
+
     @staticmethod
     def param_map(
         child_pos_to_parent_pos: Tuple[Tuple[int, ...], ...],
@@ -509,6 +515,8 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         Dict representing the polynomial that multiply the polynomial of the
         flipped child for length n.
         """
+        if self.number_of_children == 1:
+            return Counter({(0,) * self._num_parent_params: 1})
         min_sizes = self._min_sizes[: self.idx] + self._min_sizes[self.idx + 1 :]
         max_sizes = self._max_sizes[: self.idx] + self._max_sizes[self.idx + 1 :]
         possible_sizes = utils.compositions(
diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..4ee2d70 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -43,7 +43,13 @@ from comb_spec_searcher.typing import (
 from ..combinatorial_class import CombinatorialClassType, CombinatorialObjectType
 from ..exception import SanityCheckFailure, SpecificationNotFound, StrategyDoesNotApply
 from ..utils import TermsCache, equal_counters
-from .constructor import Complement, Constructor, DisjointUnion
+from .constructor import (
+    CartesianProduct,
+    Complement,
+    Constructor,
+    DisjointUnion,
+    Quotient,
+)
 
 if TYPE_CHECKING:
     from .strategy import AbstractStrategy, Strategy, VerificationStrategy
@@ -748,20 +754,22 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     def constructor(self) -> Union[DisjointUnion, Complement]:
         if self._constructor is None:
             original_constructor = self.original_rule.constructor
-            if isinstance(original_constructor, DisjointUnion):
+            if isinstance(original_constructor, (DisjointUnion, CartesianProduct)):
                 self._constructor = DisjointUnion(
                     self.comb_class,
                     self.children,
                     (original_constructor.extra_parameters[self.child_idx],),
                 )
-            elif isinstance(original_constructor, Complement):
+            elif isinstance(original_constructor, (Complement, Quotient)):
                 assert isinstance(self.original_rule, ReverseRule)
                 original_original_rule = self.original_rule.original_rule
                 original_original_child_idx = (
                     original_original_rule.to_equivalence_rule().child_idx
                 )
                 original_original_constructor = original_original_rule.constructor
-                assert isinstance(original_original_constructor, DisjointUnion)
+                assert isinstance(
+                    original_original_constructor, (DisjointUnion, CartesianProduct)
+                )
                 self._constructor = Complement(
                     self.children[0],
                     (self.comb_class,),
@@ -856,9 +864,12 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             }
             for rule in self.rules:
                 original_constructor = rule.constructor
-                assert isinstance(original_constructor, (DisjointUnion, Complement))
+                assert isinstance(
+                    original_constructor,
+                    (DisjointUnion, CartesianProduct, Complement, Quotient),
+                )
                 rules_parameters = original_constructor.extra_parameters[0]
-                if isinstance(original_constructor, Complement):
+                if isinstance(original_constructor, (Complement, Quotient)):
                     if len(set(rules_parameters.values())) != len(
                         rules_parameters.values()
                     ):
-- 
2.43.0


From b602598fd3e981d9fff852ee274e9a06c8364837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 09/23] fix: reversing an equivalence rule that merges
 statistics

---
 comb_spec_searcher/strategies/rule.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 4ee2d70..31d930a 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -789,9 +789,12 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> "Rule":
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        reverse_rule = self.original_rule.to_reverse_rule(self.child_idx)
+        if reverse_rule.is_equivalence():
+            return reverse_rule.to_equivalence_rule()
+        return reverse_rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From 9b794a6242e40b1232394fb2ed1638ec71a32d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 10/23] fix: Complement subtracts in the coordinates of the
 parent

---
 .../strategies/constructor/disjoint.py        | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..7707211 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,20 +360,20 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
-        for param, value in subterms[0](n).items():
-            if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+        # The subtraction is done in the coordinates of the parent, as the terms of the
+        # siblings may not be expressible in the coordinates of the flipped child.
+        remaining: Terms = Counter(subterms[0](n))
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
             # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
+                mapped_param = param_map(param)
+                remaining[mapped_param] -= value
+                assert remaining[mapped_param] >= 0
+        parent_terms_mapped: Terms = Counter()
+        for param, value in remaining.items():
+            if value:
+                parent_terms_mapped[self._parent_param_map(param)] += value
         return parent_terms_mapped
 
     def get_sub_objects(
-- 
2.43.0


From 1d8556c75a02d7c7ca63703b9cbb4a2a27a5a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 11/23] fix: product equations multiply the statistics that a
 factor merges

---
 comb_spec_searcher/strategies/constructor/cartesian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index f7c96d3..ae82e6d 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,10 +145,10 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
-            res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
-                simultaneous=True,
-            )
+            subs: Dict[str, sympy.Expr] = {}
+            for parent, child in extra_parameters.items():
+                subs[child] = subs.get(child, 1) * sympy.var(parent)
+            res *= rhs_func.subs(subs, simultaneous=True)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
-- 
2.43.0


From 12a35b158280c99c75f2b6abb43ad6b2290ec4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:13 +0000
Subject: [PATCH 12/23] fix: get_genf checks the initial conditions of every
 class before choosing a solution

---
 comb_spec_searcher/specification.py | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..09634ff 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -418,12 +418,40 @@ class CombinatorialSpecification(
                 expansion = taylor_expand(genf, check)
             except TaylorExpansionError:
                 continue
-            if expansion == initial_conditions:
+            if expansion == initial_conditions and (
+                len(solutions) == 1
+                or self._satisfies_initial_conditions(solution, check)
+            ):
                 return sympy.simplify(genf)
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
 
+    def _satisfies_initial_conditions(
+        self, solution: Dict[Function, Expr], check: int
+    ) -> bool:
+        """
+        Return True if the solution agrees with the counts of every class of the
+        specification. A wrong branch of the system can agree with the root up to
+        size check, for example if the objects of the root are all larger.
+        """
+        for comb_class, rule in self.rules_dict.items():
+            func = self.get_function(comb_class)
+            if isinstance(rule, VerificationRule) or func not in solution:
+                continue
+            order = max(check, comb_class.minimum_size_of_object())
+            try:
+                with RecursionLimit(order * self.number_of_rules()):
+                    counts = [rule.count_objects_of_size(n) for n in range(order + 1)]
+            except NotImplementedError:
+                continue
+            try:
+                if taylor_expand(solution[func], order) != counts:
+                    return False
+            except TaylorExpansionError:
+                return False
+        return True
+
     def get_maple_equations(self, check: int = 6) -> str:
         """
         Convert the systems of equations to version that can be copy pasted to maple.
-- 
2.43.0


From 4afad269f19887e414583f53824dc7b1a325047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 13/23] fix: ParseTreeMap handles an equivalence rule against
 an atom's rule

---
 comb_spec_searcher/isomorphism.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..5f40093 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -348,9 +348,18 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if not rule1.children:
             return ParseTreeMap._min_object(rule2)
 
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+        assert isinstance(rule1, Rule)
         mapped_obj, idx = rule1.indexed_forward_map(obj)
 
+        if rule1.is_equivalence() and not rule2.is_equivalence():
+            # If only domain's rule is eq-rule then we don't backward map for the
+            # spec2's rule here but move along with the mapped object and next rule
+            # and return the outcome directly. Here, spec2's rule might be for an atom.
+            return self.map_rec(
+                mapped_obj[0], self.domain.rules_dict[rule1.children[0]], rule2
+            )
+
+        assert isinstance(rule2, Rule)
         if rule2.is_equivalence():
             if not rule1.is_equivalence():
                 # Backward map the outcome of a recursion when
@@ -366,13 +375,6 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                 return val
             # When both are eq-rules, we treat them normally and set matching order
             order: List[int] = [0]
-        elif rule1.is_equivalence():
-            # If only domain's rule is eq-rule then we don't backward map for the
-            # spec2's rule here but move along with the mapped object and next rule
-            # and return the outcome directly.
-            return self.map_rec(
-                mapped_obj[0], self.domain.rules_dict[rule1.children[0]], rule2
-            )
         else:
             # Fetch the matching order to know what parts to recurse together.
             order = self.get_order[(rule1.comb_class, rule2.comb_class)]
-- 
2.43.0


From 5453eed2c935f808eb460e4337441b11884edb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 14/23] fix: Isomorphism drops matches made under a pair that
 fails to match

---
 comb_spec_searcher/isomorphism.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 5f40093..8bc09cc 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -114,6 +114,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if is_base_case:
             return bool(is_base_case + 1)
 
+        # The matches found from here on might rely on the current pair being a match
+        num_matched = len(self._order_map)
+
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
@@ -174,10 +177,14 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             Isomorphism._extend_stack(i1, n, in_use, stack)
 
         # If stack has been exhausted we have failed to match the ids. We remove them
-        # from the ancestors set, memorize the failure and remove any data gathered.
+        # from the ancestors set, memorize the failure and remove any data gathered,
+        # including that of the descendants that matched by recursion to this pair.
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        while len(self._order_map) > num_matched:
+            matched_pair, _ = self._order_map.popitem()
+            self._index_data.pop(matched_pair, None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From 77b1dd2b98d3a9d0d88b74f82069d1e0b57ab264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:40 +0000
Subject: [PATCH 15/23] fix: the parallel finder extracts the rules of the
 start class itself, not of its representative

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 7898842a5d011c1d7ddc03be88f4dfbc72f208be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:58 +0000
Subject: [PATCH 16/23] fix: isomorphism follows equivalences past the root to
 the end of the path

---
 comb_spec_searcher/isomorphism.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 8bc09cc..65a7210 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -191,12 +191,12 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        # There can be several steps since a path is not grouped past the root
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -242,11 +242,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_steps1: int, eq_steps2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_steps1 + (c1,)
+        t2 = (0,) * eq_steps2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 7108b2bd064c824cbb812497346d90adc669cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:50 +0000
Subject: [PATCH 17/23] fix: the parallel finder matches every pair of labels
 it relies on, not only each label

---
 comb_spec_searcher/bijection.py | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..af323bd 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -387,6 +387,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs visited, in order, that match given the current spec maps.
+        matched: Dict[Tuple[int, int], None] = {}
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
@@ -396,13 +399,14 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2, matched
             )
             if bc:
                 return bool(bc + 1)
 
             # If ids have appeared before, we don't want to clean them when done
             rec1, rec2 = id1 in sp1, id2 in sp2
+            num_matched = len(matched)
 
             # For all children that matches for given parent pair where they are either
             # not in spec maps or they are mapped to the children we are looking at.
@@ -413,6 +417,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                matched[(id1, id2)] = None
 
                 # Construct cleaning sets that are passed down the recursion
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
@@ -434,6 +439,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                     return True
                 # If failed, remove all descendants that populated the spec maps.
+                while len(matched) > num_matched:
+                    matched.popitem()
                 ParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -471,6 +478,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Dict[Tuple[int, int], None],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -480,8 +488,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If assigned to each other, we are done. If they are only assigned to others
+        # then their children also have to match one another.
+        if (id1, id2) in matched:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -589,6 +598,9 @@ class EqPathParallelSpecFinder(
             sp2,
         ) = EqPathParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs visited, in order, that match given the current spec maps.
+        matched: Dict[Tuple[int, int], None] = {}
+
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
@@ -605,18 +617,21 @@ class EqPathParallelSpecFinder(
                 matching_info2,
                 sp1,
                 sp2,
+                matched,
                 self._path[-1],
                 eq_path_tracker,
             )
             if bc:
                 return bool(bc + 1)
             rec1, rec2 = id1 in sp1, id2 in sp2
+            num_matched = len(matched)
             for children1, children2 in filter(
                 lambda c: (id1 not in sp1 or c[0] == sp1[id1])
                 and (id2 not in sp2 or c[1] == sp2[id2]),
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
+                matched[(id1, id2)] = None
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
 
                 # Check if the path required for the eq labels actually matches
@@ -648,6 +663,8 @@ class EqPathParallelSpecFinder(
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
                         return True
+                while len(matched) > num_matched:
+                    matched.popitem()
                 EqPathParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
@@ -670,6 +687,7 @@ class EqPathParallelSpecFinder(
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Dict[Tuple[int, int], None],
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
     ) -> int:
@@ -685,9 +703,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
+        # If matched to each other we still need to check if they are valid in terms
         # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        if (id1, id2) in matched:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -721,12 +739,13 @@ class EqPathParallelSpecFinder(
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
         mem.add((id1, id2))
+        order = matching_info[(id1, id2)].get((children1, children2))
+        if order is None:
+            # Not matched to each other yet.
+            return True
         for j2, ((j1, child1), child2) in enumerate(
             zip(
-                (
-                    (i, children1[i])
-                    for i in matching_info[(id1, id2)][(children1, children2)]
-                ),
+                ((i, children1[i]) for i in order),
                 children2,
             )
         ):
-- 
2.43.0


From a28d0076fe358fe107b0900ddf68079d5d8f7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:56 +0000
Subject: [PATCH 18/23] fix: equivalence paths are compared per position below
 the grandparent

---
 comb_spec_searcher/bijection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index af323bd..8be87c9 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,7 +60,10 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
+        Tuple[
+            Tuple[int, int, Optional[Tuple[int, ...]]],
+            Tuple[int, int, Optional[Tuple[int, ...]]],
+        ],
         Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
     ],
 ]
@@ -781,7 +784,9 @@ class EqPathParallelSpecFinder(
         this path match.
         """
         children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        # The start of the path depends on the rule of the grandparent and the index.
+        grandparents = ((pid1, idx1, sp1.get(pid1)), (pid2, idx2, sp2.get(pid2)))
+        children_cache = cache[(id1, id2)][grandparents]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0


From 2f6d53fe8eccfe3ddbd7736456ade37e4d859963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 19/23] fix: rules of atoms other than their verification do
 not break the parallel finder

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 8be87c9..41f0105 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -136,7 +136,7 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
             assert not parent.is_empty()
-            if parent.is_atom():
+            if parent.is_atom() and not isinstance(rule, Rule):
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
-- 
2.43.0


From a748eb4d03e1a804a2836838c6acd6f94c6df415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 20/23] fix: forest rule databases compare by their content so
 a restored searcher equals the original

---
 comb_spec_searcher/rule_db/forest.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 86b2c16..a5af68c 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -202,6 +202,12 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        """Check if the same rules were added and the same terms are computable."""
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return self._rules == other._rules and self.function == other.function
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -639,6 +645,17 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return (
+            self.reverse == other.reverse
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+            and self.table_method == other.table_method
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 04afd4cb27741f4923672322ae2bc513094f35b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 21/23] fix: RecomputingDict drops empty children only when the
 rule declared them possibly empty

---
 comb_spec_searcher/rule_db/forget.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 54a07dc..f6c971e 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -111,8 +111,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                         # A recorded rule only involves classes with a label.
                         continue
                     start_label = self.classdb.get_label(rule.comb_class)
+                    # As when recording, only drop empty children of rules that
+                    # declared them possibly empty.
                     nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
+                        c
+                        for c in rule.children
+                        if not (rule.possibly_empty and self.classdb.is_empty(c))
                     )
                     end_labels = tuple(
                         sorted(map(self.classdb.get_label, nonempty_children))
-- 
2.43.0


From a1a563c164c60fafae4fb6774bf26111d226f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 22/23] fix: equality of strategies ignores the type arguments
 an instance was created with

---
 comb_spec_searcher/strategies/strategy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..05b8a9f 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -102,6 +102,14 @@ __all__ = (
 )
 
 
+def _settings(strategy: CSSstrategy) -> dict:
+    """
+    Return the attributes of the strategy without the one the typing module sets on
+    instances created with type arguments, e.g. by `EmptyStrategy[A, B]()`.
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 def strategy_from_dict(d) -> CSSstrategy:
     """
     Return the AbstractStrategy or StrategyFactory from the json representation.
@@ -247,7 +255,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +955,9 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        if not isinstance(other, StrategyFactory):
+            return NotImplemented
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From ad83e9971f7bae3cc976e5d2dab0b26f70706639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 23/23] fix: expanded specifications share no original rules
 with the specification they come from

---
 comb_spec_searcher/specification.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index 09634ff..b6ebb78 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -7,7 +7,7 @@ from copy import copy
 from functools import reduce
 from itertools import chain
 from operator import mul
-from typing import Any, Dict, Generic, Iterable, Iterator, List, Optional, Set, Union
+from typing import Any, Dict, Generic, Iterable, Iterator, List, Optional, Set, Union, cast
 
 import sympy
 from logzero import logger
@@ -38,7 +38,7 @@ from .strategies import (
     VerificationRule,
     VerificationStrategy,
 )
-from .strategies.rule import AbstractRule
+from .strategies.rule import AbstractRule, EquivalenceRule, ReverseRule
 from .utils import (
     RecursionLimit,
     maple_equations,
@@ -218,9 +218,9 @@ class CombinatorialSpecification(
         for cc, rule in self.rules_dict.items():
             if cc != comb_class:
                 if isinstance(rule, EquivalencePathRule):
-                    spec_rules.extend(map(copy, rule.rules))
+                    spec_rules.extend(map(self._copy_rule, rule.rules))
                 else:
-                    spec_rules.append(copy(rule))
+                    spec_rules.append(self._copy_rule(rule))
 
         ruledb = RuleDBForest(reverse=False, rule_cache=spec_rules)
         css = CombinatorialSpecificationSearcher(
@@ -248,6 +248,17 @@ class CombinatorialSpecification(
         new_spec = CombinatorialSpecification(self.root, spec_rule)
         return new_spec
 
+    @staticmethod
+    def _copy_rule(rule: AbstractRule) -> AbstractRule:
+        """
+        Return a copy of the rule that does not share the rule it is derived from.
+        """
+        rule = copy(rule)
+        if isinstance(rule, (EquivalenceRule, ReverseRule)):
+            original_rule = CombinatorialSpecification._copy_rule(rule.original_rule)
+            rule.original_rule = cast(Rule, original_rule)
+        return rule
+
     def _is_valid_spec(self) -> bool:
         """Checks that each class is on a left hand side."""
         comb_classes = set()
-- 
2.43.0

