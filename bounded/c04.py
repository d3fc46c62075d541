"""C04 bounded stand-in: everything the searcher records, re-derived from the strategies."""
from c02 import Origins
from core import Unit, unit_rng
import dom
from search import describe, do_steps, fake_clock, searcher
from specs import ALLMODES, PACKS, all_packs, start_for
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies import EmptyStrategy
from comb_spec_searcher.strategies.strategy import AbstractStrategy
from comb_spec_searcher.strategies.rule import AbstractRule, VerificationRule
from comb_spec_searcher.typing import ForestRuleKey

RULE = ("a case is one rule insertion during a search: labels, re-derivation of the rule from the pack, and the keys the "
        "database stores before and after; non-trivial: distinct (class, strategy, children)")
BOUND = "word languages with <= 3 letters, <= 3 statistics; <= 45 work packets per search"


def base_keys(db):
    return set(db.rule_to_strategy) | set(db.eqv_rule_to_strategy)


def forest_keys(db):
    return list(db.table_method._rules)


def check_labels(ctx, s, data):
    seen = {}
    for lab in range(len(s.classdb.comb_class_list)):
        c = s.classdb.get_class(lab)
        ctx.check(c not in seen, "label-twice", lambda: f"labels {seen[c]} and {lab} both carry {c!r}", data)
        seen[c] = lab
        ctx.check(s.classdb.get_label(c) == lab, "label", lambda: f"get_label gives {s.classdb.get_label(c)} for the class of label {lab}", data)


def run(ctx, name, pname, mode, db, tries, cls="Lang"):
    rng = unit_rng(ctx, name)
    fake_clock()
    for _ in range(tries):
        start = start_for(rng, pname, getattr(dom, cls))
        pack = all_packs(mode)[pname]
        ev = rng.random() < 0.3
        data = describe(start, pname, mode, db, expand_verified=ev)
        data["pack"] = f"specs.all_packs({mode!r})[{pname!r}]"
        ctx.input = data
        from search import DBS
        from comb_spec_searcher import CombinatorialSpecificationSearcher
        rdb = DBS[db]()
        base = db in ("default", "forget")
        state = {"s": None, "n": 0, "keys": set() if base else 0, "expect": set()}
        link = rdb.link_searcher

        def linked(s, link=link, state=state):
            link(s)
            state["s"] = s
        rdb.link_searcher = linked
        real = rdb.add
        plain = {repr(st) for st in pack if isinstance(st, AbstractStrategy)}
        facs = [st for st in pack if not isinstance(st, AbstractStrategy)]
        emptyrep = repr(EmptyStrategy())

        def add(start_label, ends, rule):
            s = state["s"]
            d = dict(data, rule=f"{rule.comb_class!r} -> {rule.children!r} by {rule.strategy!r}",
                     recorded=f"{start_label} -> {ends}", insertion=state["n"])
            state["n"] += 1
            try:
                again = rule.strategy(s.classdb.get_class(start_label))
                kids = again.children
            except StrategyDoesNotApply:
                ctx.check(False, "does-not-apply", "the strategy does not apply to the class of the parent label", d)
            ctx.check(rule.comb_class == s.classdb.get_class(start_label), "parent-label", "the parent label carries another class", d)
            ctx.check(type(again) is type(rule) and tuple(kids) == tuple(rule.children), "children",
                      lambda: f"re-applying the strategy gives {kids!r}", d)
            ctx.check(tuple(ends) == tuple(s.classdb.get_label(c) for c in kids), "child-labels",
                      lambda: f"labels of the children are {tuple(s.classdb.get_label(c) for c in kids)}", d)
            r = repr(rule.strategy)
            if r not in plain:
                offered = r == emptyrep and rule.comb_class.is_empty()
                for f in facs:
                    for lab in range(len(s.classdb.comb_class_list)):
                        if offered:
                            break
                        c = s.classdb.get_class(lab)
                        for got in f(c):
                            st, pc = (got.strategy, got.comb_class) if isinstance(got, AbstractRule) else (got, c)
                            if repr(st) == r and pc == rule.comb_class:
                                offered = True
                                break
                ctx.check(offered, "foreign-strategy", "no strategy of the pack gives this rule", d)
            if isinstance(rule, VerificationRule):
                ctx.check(rule.strategy.verified(rule.comb_class), "not-verified", "the class is not verified by the strategy", d)
            real(start_label, ends, rule)
            kept = []
            for c, lab in zip(kids, ends):
                if c.is_empty() and again.possibly_empty:
                    continue
                kept.append(lab)
            if base:
                now = base_keys(rdb)
                exp = (start_label, tuple(sorted(kept)))
                new = now - state["keys"]
                ctx.check(new <= {exp}, "stored-extra", lambda: f"stored {sorted(new)}, the rule's key is {exp}", d)
                gone = state["keys"] - now
                ctx.check(all(len(k[1]) == 1 and len(kept) == 1 and {k[0], k[1][0]} == {start_label, kept[0]} for k in gone),
                          "stored-lost", lambda: f"the database dropped {sorted(gone)}", d)
                if kept != [start_label]:
                    ctx.check(exp in now, "stored-missing", lambda: f"{exp} is not stored", d)
                state["keys"] = now
                ver = rdb.is_verified(start_label)
                if isinstance(rule, VerificationRule):
                    ctx.check(ver, "verified", "a verification rule was recorded but its class is not verified", d)
            else:
                keys = forest_keys(rdb)
                new = keys[state["keys"]:]
                state["keys"] = len(keys)
                want = [(start_label, tuple(ends))]
                for k in new:
                    if k.children == () and k.parent in ends:
                        ctx.check(s.classdb.get_class(k.parent).is_empty(), "empty-rule", lambda: f"{k} recorded for a non-empty class", d)
                        continue
                    if (k.parent, k.children) == want[0]:
                        continue
                    ok = db == "forest" and any(
                        k.parent == ends[i] and sorted(k.children) == sorted((start_label,) + tuple(ends[:i]) + tuple(ends[i + 1:]))
                        for i in range(len(ends)))
                    ctx.check(ok, "stored-extra", lambda: f"{k} is neither the rule nor a reverse of it", d)
                ctx.check(any((k.parent, k.children) == want[0] for k in keys), "stored-missing", "the rule's key is not stored", d)
            ctx.ev((repr(rule.comb_class), r, repr(kids)))

        rdb.add = add
        s = CombinatorialSpecificationSearcher(start, pack, ruledb=rdb, expand_verified=ev)
        for _ in range(45):
            try:
                lab, strats, inf = next(s.classqueue)
            except StopIteration:
                break
            if ev or not s.ruledb.is_verified(lab):
                s._expand(s.classdb.get_class(lab), lab, strats, inf)
            if len(s.classdb.comb_class_list) > 120:
                break
        check_labels(ctx, s, data)
        for lab in range(len(s.classdb.comb_class_list)):
            c = s.classdb.get_class(lab)
            e = s.classdb.empty_list[lab]
            ctx.check(e is None or bool(e) == c.is_empty(), "emptiness", lambda: f"{c!r} recorded as {'empty' if e else 'non-empty'}", data)
        ctx.samples.append(dict(data, insertions=state["n"]))


def units(tier, seed):
    us = []
    n = 1 if tier == "quick" else 8
    dbs = ("default", "forest", "forget", "forestnr")
    for i, pname in enumerate(PACKS):
        for j, db in enumerate(dbs):
            ms = ALLMODES if tier != "quick" else (ALLMODES[(2 * i + j) % 7], ALLMODES[(i + 3 * j + 3) % 7])
            for mode in ms:
                for k in range(n):
                    nm = f"rules/{pname}/{mode}/{db}/{k}"
                    us.append(Unit(nm, run, nm, pname, mode, db, 8, timeout=90))
    for pname in ("infer", "half", "sym", "foreign"):
        for cls in ("LangB", "LangH"):
            for k in range(n):
                nm = f"rules{cls}/{pname}/{k}"
                us.append(Unit(nm, run, nm, pname, "canon", "default", 8, cls, timeout=90))
    return us
