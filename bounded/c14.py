"""C14 bounded stand-in: the default and the memory-saving rule database fed the same rules."""
import itertools

from core import Unit, unit_rng
import dom
from search import MODES, RuleDB, RuleDBForgetStrategy, describe, fake_clock, packs, searcher, start_classes

from comb_spec_searcher.strategies import StrategyFactory
from comb_spec_searcher import StrategyPack
from comb_spec_searcher.exception import StrategyDoesNotApply

RULE = ("a case is one comparison of the two databases after one insertion made by a real search "
        "(verified labels, specification existence, stored keys, membership, recomputed strategies); "
        "non-trivial: distinct (start class, pack, number of rules stored)")
BOUND = "random word languages, <= 40 insertions compared per search, strategies recomputed for every stored key"


class Far(StrategyFactory):
    """rules about the class two letters shorter: the class expanded is not in the rule"""

    def __call__(self, c):
        if c.kind == "W" and len(c.data[0]) >= 2 and not c.data[3]:
            p, pats, alph, _ = c.data
            par = c.make("W", (p[:-2], pats, alph, False))
            if not par.is_empty():
                yield dom.Expand()(par)

    def __repr__(self):
        return "Far()"

    def __str__(self):
        return "far"

    @classmethod
    def from_dict(cls, d):
        return cls()


class Both(dom.USt):
    """one-way twin of Reduce: equivalence only when the other child is empty"""

    def decomposition_function(self, c):
        if c.kind != "W" or c.data[3]:
            return None
        p, pats, alph, _ = c.data
        return tuple(self.kid(c, "W", (p + a, pats, alph, False)) for a in alph) + (
            self.kid(c, "W", (p, pats, alph, True)),)


def more_packs(mode):
    P = StrategyPack
    out = packs(mode)
    at = [dom.StatAtom()]
    out["far"] = P([dom.Split(mode)], [], [[Far(), dom.Expand(mode)]], at, "far")
    out["both"] = P([dom.Split(mode)], [], [[Both(mode)], [dom.Expand(mode)]], at, "both")
    out["upfac"] = P([dom.Split(mode)], [], [[dom.UpFac(mode), dom.Expand(mode)]], at, "upfac")
    out["bothinfer"] = P([dom.Split(mode)], [dom.DropLetter(mode)], [[dom.Half(mode), dom.Next(mode)], [Both(mode)]], at, "bothinfer")
    return out


def nonempty(s, rule):
    return tuple(sorted(s.classdb.get_label(c) for c in rule.children if not c.is_empty()))


def compare(ctx, s, a, b, data, rng, deep):
    n = len(s.classdb.comb_class_list)
    sa, sb = set(a), set(b)
    ctx.check(sa == sb, "stored", lambda: f"default stores {sorted(sa - sb)} more, memory-saving {sorted(sb - sa)} more", data)
    ctx.check(set(a.rule_to_strategy) == set(b.rule_to_strategy)
              and set(a.eqv_rule_to_strategy) == set(b.eqv_rule_to_strategy), "stores", "the two stores differ", data)
    ctx.check(len(list(a)) == len(sa) and len(list(b)) == len(sb), "dup", "a key is iterated twice", data)
    ha, hb = a.has_specification(), b.has_specification()
    ctx.check(ha is hb, "has_specification", f"default {ha}, memory-saving {hb}", data)
    for lab in range(n):
        ctx.check(a.is_verified(lab) == b.is_verified(lab), "is_verified",
                  f"label {lab}: default {a.is_verified(lab)}, memory-saving {b.is_verified(lab)}", data)
    queries = list(sa)
    for _ in range(6):
        queries.append((rng.randrange(n), tuple(rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 3])))))
    if sa:
        p, c = rng.choice(sorted(sa))
        queries += [(p, c + (0,)), (p, tuple(reversed(c))), (p, c[:-1])]
        if len(c) == 1:
            queries.append((c[0], (p,)))
    for p, c in queries:
        c2 = list(c)
        rng.shuffle(c2)
        exp = (p, tuple(sorted(c))) in sa
        qa, qb = a.contains(p, tuple(c2)), b.contains(p, tuple(c2))
        ctx.check(qa == exp and qb == exp, "contains",
                  f"contains({p}, {tuple(c2)}) is {qa} (default) and {qb} (memory-saving), stored: {exp}", data)
    if not deep:
        return
    for store in ("rule_to_strategy", "eqv_rule_to_strategy"):
        for key in sorted(sa):
            in_a = key in getattr(a, store)
            ctx.check(in_a == (key in getattr(b, store)), "which-store", f"{key} in {store}", data)
            if not in_a:
                continue
            cls = s.classdb.get_class(key[0])
            if cls.is_empty():
                continue
            for nm, db in (("default", a), ("memory-saving", b)):
                try:
                    strat = getattr(db, store)[key]
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(False, f"strategy-missing-{nm}", f"{store}[{key}] raised {type(e).__name__}: {e}", data)
                m = len(s.classdb.comb_class_list)
                try:
                    rule = strat(s.classdb.get_class(key[0]))
                    kids = nonempty(s, rule)
                except StrategyDoesNotApply:
                    ctx.check(False, f"strategy-{nm}", f"{store}[{key}] is {strat}, which does not apply", data)
                ctx.check(kids == key[1] and rule.comb_class == cls, f"strategy-{nm}",
                          f"{store}[{key}] is {strat}, whose rule has non-empty children {kids}", data)
                if store == "eqv_rule_to_strategy":
                    ctx.check(rule.is_two_way(), f"strategy-two-way-{nm}", f"{strat} is not two-way", data)
            ctx.ev(None)
    ctx.check(len(s.classdb.comb_class_list) == n, "labels-added", "answering queries added labels to the class database", data)


def search(ctx, name, pname, mode, cls="Lang"):
    rng = unit_rng(ctx, name)
    fake_clock()
    for _ in range(3):
        start = start_classes(rng, 1, cls=getattr(dom, cls), cat=0.5 if pname == "cat" else 0)[0]
        data = describe(start, pname, mode)
        ctx.input = data
        main = RuleDB()
        other = RuleDBForgetStrategy()
        state = {"n": 0, "s": None}
        real_add = main.add

        def add(start_label, ends, rule):
            real_add(start_label, ends, rule)
            other.add(start_label, ends, rule)
            s = main.searcher
            state["n"] += 1
            if state["n"] <= 40:
                d = dict(data, insertions=state["n"], last=f"{start_label} -> {ends} by {rule.strategy}")
                compare(ctx, s, main, other, d, rng, state["n"] % 5 == 0 or state["n"] <= 6)
                ctx.ev((repr(start), pname, mode, state["n"]))

        main.add = add
        orig_link = main.link_searcher

        def link(s):
            orig_link(s)
            other.link_searcher(s)
        main.link_searcher = link
        from comb_spec_searcher import CombinatorialSpecificationSearcher
        s = CombinatorialSpecificationSearcher(start, more_packs(mode)[pname], ruledb=main)
        for _ in range(60):
            if state["n"] > 40:
                break
            try:
                lab, strats, inf = next(s.classqueue)
            except StopIteration:
                break
            if rng.random() < 0.8 and s.ruledb.is_verified(lab):
                continue
            s._expand(s.classdb.get_class(lab), lab, strats, inf)
        compare(ctx, s, main, other, dict(data, insertions=state["n"]), rng, True)
        if main.has_specification() and not more_packs(mode)[pname].iterative:
            from comb_spec_searcher import CombinatorialSpecification
            for db in (main, other):
                spec = CombinatorialSpecification(start, db.get_specification_rules(minimization_time_limit=0))
                for k in range(5):
                    ctx.check(spec.get_terms(k) == start.true_terms(k), "spec-terms",
                              f"specification of {type(db).__name__}: terms {spec.get_terms(k)} of size {k}", data)
        ctx.samples.append(dict(data, insertions=state["n"]))


def units(tier, seed):
    n = 2 if tier == "quick" else 14
    us = []
    for pname in more_packs("keep"):
        for mode in ("keep", "merge", "canon", "drop"):
            if tier == "quick" and mode == "drop":
                continue
            for k in range(n):
                nm = f"search/{pname}/{mode}/{k}"
                us.append(Unit(nm, search, nm, pname, mode, timeout=60))
    for k in range(n):
        for pname in ("infer", "foreign", "half"):
            nm = f"searchB/{pname}/{k}"
            us.append(Unit(nm, search, nm, pname, "keep", "LangB", timeout=60))
    return us
