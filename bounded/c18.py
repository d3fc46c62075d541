"""C18 bounded stand-in: everything that can be dumped is dumped, reloaded and compared with the original."""
import copy
import json
import pickle
import random
from typing import Generic, TypeVar

import c09
import c12
import dom
import gram
import specs as S
from core import Skip, Unit, unit_rng
from search import fake_clock, searcher, do_steps

from comb_spec_searcher import CombinatorialSpecification, StrategyPack
from comb_spec_searcher.combinatorial_class import CombinatorialClass
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.isomorphism import Bijection
from comb_spec_searcher.strategies import AtomStrategy, EmptyStrategy, StrategyFactory
from comb_spec_searcher.strategies.rule import (AbstractRule, EquivalencePathRule, EquivalenceRule, ReverseRule, Rule,
                                                VerificationRule)
from comb_spec_searcher.strategies.strategy import AbstractStrategy

RULE = ("a case is one object (specification, rule form, strategy, pack, bijection) dumped to JSON text, reloaded and "
        "compared: equality in both directions, rules class by class, counts, objects, equations, maps; "
        "non-trivial: distinct dumped texts")
BOUND = "word/Dyck languages and small grammars, sizes <= 5, all rule forms, all strategies of the test packs"


def js(x):
    return json.loads(json.dumps(x.to_jsonable()))


def form(r):
    """everything a rule consists of, as plain data"""
    out = [type(r).__name__, repr(r.comb_class), [repr(c) for c in r.children], repr(r.strategy), list(r.shifts())
           if not isinstance(r, VerificationRule) else [], r.formal_step]
    if isinstance(r, EquivalencePathRule):
        out.append([form(x) for x in r.rules])
    elif isinstance(r, (EquivalenceRule, ReverseRule)):
        out.append(form(r.original_rule))
        if isinstance(r, ReverseRule):
            out.append(r.idx)
    return out


def strategies_of(r):
    if isinstance(r, EquivalencePathRule):
        return [s for x in r.rules for s in strategies_of(x)]
    if isinstance(r, (EquivalenceRule, ReverseRule)):
        return strategies_of(r.original_rule) + [r.strategy]
    return [r.strategy]


def same_rule(ctx, a, b, data):
    ctx.check(a == b and b == a and not a != b, "rule-equal", lambda: f"reloaded rule differs: {a!r} / {b!r}", data)
    fa, fb = form(a), form(b)
    ctx.check(fa == fb, "rule-form", lambda: f"{fa} reloaded as {fb}", data)
    for x, y in zip(strategies_of(a), strategies_of(b)):
        ctx.check(x == y and y == x, "rule-strategy", lambda: f"{x!r} {x.__dict__} reloaded as {y!r} {y.__dict__}", data)


def equations(spec):
    names = {}
    for c in spec.comb_classes():
        names[str(spec.get_function(c).func if hasattr(spec.get_function(c), "func") else spec.get_function(c))] = repr(c)
    out = []
    for eq in spec.get_equations():
        s = str(eq)
        out.append(s)
    return sorted(out)


def same_spec(ctx, a, b, data, nmax=5):
    ctx.check(a == b and b == a, "spec-equal", "the reloaded specification is not equal to the original", data)
    ctx.check(not a != b, "spec-equal", "reloaded != original", data)
    ctx.check(a.root == b.root, "spec-root", "roots differ", data)
    ctx.check(set(a.rules_dict) == set(b.rules_dict), "spec-classes",
              lambda: f"classes with rules differ: {set(a.rules_dict) ^ set(b.rules_dict)}", data)
    for c, r in a.rules_dict.items():
        same_rule(ctx, r, b.rules_dict[c], dict(data, rule=str(c)))
    start = a.root
    for n in range(nmax + 1):
        ta, tb = a.get_terms(n), b.get_terms(n)
        ctx.check({k: v for k, v in ta.items() if v} == {k: v for k, v in tb.items() if v}, "spec-terms",
                  f"size {n}: original {dict(ta)}, reloaded {dict(tb)}", data)
        exp = start.true_terms(n) if hasattr(start, "true_terms") else None
        ctx.check(exp is None or {k: v for k, v in tb.items() if v} == dict(exp), "spec-true-terms",
                  f"size {n}: reloaded {dict(tb)}, true {exp}", data)
        oa = ob = None
        try:
            oa = [sorted(map(repr, a.generate_objects_of_size(n, **p))) for p in start.possible_parameters(n)]
        except NotImplementedError:
            pass
        try:
            ob = [sorted(map(repr, b.generate_objects_of_size(n, **p))) for p in start.possible_parameters(n)]
        except NotImplementedError:
            pass
        ctx.check(oa == ob, "spec-objects", lambda: f"size {n}: original {oa}, reloaded {ob}", data)
    try:
        ea = equations(a)
    except NotImplementedError:
        ea = None
    try:
        eb = equations(b)
    except NotImplementedError:
        eb = None
    ctx.check(ea == eb, "spec-equations", lambda: f"{ea} / {eb}", data)


def round_trip(ctx, spec, data, rng, nmax=5):
    before = rng.random() < 0.5
    if before:
        # use it first: rules of empty classes are added lazily, caches are filled
        how = rng.choice(["terms", "objects", "equations", "labels"])
        data = dict(data, used_before=how)
        try:
            if how == "terms":
                spec.get_terms(rng.choice([0, 3, 5]))
            elif how == "objects":
                list(spec.generate_objects_of_size(3, **{k: 1 for k in spec.root.extra_parameters}))
            elif how == "equations":
                list(spec.get_equations())
            else:
                for c in [c for r in list(spec.rules_dict.values()) for c in r.children]:
                    spec.get_rule(c)
        except NotImplementedError:
            pass
    ctx.input = data
    d = js(spec)
    txt = json.dumps(d)
    new = CombinatorialSpecification.from_dict(d)
    ctx.check(new == spec and spec == new, "spec-equal", "the reloaded specification is not equal to the original", data)
    ctx.check(json.dumps(js(new)) == txt, "spec-dump", "dumping the reloaded specification gives another text", data)
    same_spec(ctx, spec, new, data, nmax)
    ctx.ev(txt)
    if before:
        ctx.note("used before")
    ctx.note("specs")
    return new


def from_search(ctx, name, pname, mode, db, tries, cls="Lang"):
    for rng, spec, s, data in S.stream(ctx, name, pname, mode, db, tries, cls):
        new = round_trip(ctx, spec, data, rng)
        if rng.random() < 0.2:
            round_trip(ctx, new, dict(data, twice=True), rng, 3)


def from_grammar(ctx, name, tries):
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        nodes = gram.random_nodes(rng, rng.choice([2, 3, 4, 5]))
        if rng.random() < 0.7:
            nodes = gram.variant(rng, nodes, rng.choice([0.2, 0.7]))
        data = {"grammar": repr(nodes)}
        ctx.input = data
        try:
            spec = gram.specification(nodes)
        except (gram.Bad, RecursionError):
            continue
        round_trip(ctx, spec, data, rng, 4)


def all_rules(s, pack):
    """every rule of the pack on every class found, with the derived forms"""
    for i in range(len(s.classdb.comb_class_list)):
        c = s.classdb.get_class(i)
        if c.is_empty():
            yield EmptyStrategy()(c)
            continue
        for st in pack:
            for x in (st(c) if isinstance(st, StrategyFactory) else [st]):
                try:
                    r = x if isinstance(x, AbstractRule) else x(c)
                    r.children
                except StrategyDoesNotApply:
                    continue
                yield r


def forms(r):
    yield r
    if not isinstance(r, Rule):
        return
    out = [r]
    if r.is_reversible():
        for i in range(len(r.children)):
            try:
                out.append(r.to_reverse_rule(i))
            except (NotImplementedError, AssertionError):
                continue
    yield from out[1:]
    for x in out:
        try:
            e = x.to_equivalence_rule() if x.is_equivalence() else None
        except (NotImplementedError, AssertionError):
            e = None
        if e is not None:
            yield e
            yield EquivalencePathRule([e])


def rules(ctx, name, pname, mode, cls="Lang"):
    rng = unit_rng(ctx, name)
    fake_clock()
    start = S.start_for(rng, pname, getattr(dom, cls))
    pack = S.all_packs(mode)[pname]
    s = searcher(start, pack, rng.choice(["default", "forest"]))
    do_steps(s, 10)
    n = 0
    chain = []
    for r0 in all_rules(s, pack):
        if n > 120:
            break
        for r in forms(r0):
            n += 1
            data = {"start class": repr(start), "pack": f"specs.all_packs({mode!r})[{pname!r}]", "rule": repr(form(r))[:600]}
            ctx.input = data
            d = js(r)
            new = AbstractRule.from_dict(copy.deepcopy(d))
            same_rule(ctx, r, new, data)
            ctx.check(js(new) == d, "rule-dump", "dumping the reloaded rule gives another text", data)
            ctx.ev(json.dumps(d, sort_keys=True))
            ctx.note(type(r).__name__)
            if isinstance(r, EquivalencePathRule):
                chain.append(r.rules[0])
    by = {}
    for r in chain:
        by.setdefault(r.comb_class, []).append(r)
    for r in chain[:30]:
        path = [r]
        while len(path) < 4 and path[-1].children[0] in by:
            path.append(rng.choice(by[path[-1].children[0]]))
            if len(path) > 1:
                p = EquivalencePathRule(list(path))
                same_rule(ctx, p, AbstractRule.from_dict(js(p)), {"start class": repr(start), "path": repr(form(p))[:800]})
                ctx.ev(json.dumps(js(p)))
                ctx.note("paths")


def variants(st, rng):
    """the same strategy created in other ways"""
    yield "reloaded", AbstractStrategy.from_dict(js(st))
    yield "copied", copy.copy(st)
    yield "deep copied", copy.deepcopy(st)
    yield "unpickled", pickle.loads(pickle.dumps(st))
    cls = type(st)
    kw = {}
    if isinstance(st, AbstractStrategy):
        kw = {"ignore_parent": st.ignore_parent, "inferrable": st.inferrable, "possibly_empty": st.possibly_empty,
              "workable": st.workable}
    if cls in (EmptyStrategy, AtomStrategy):
        if cls is EmptyStrategy:
            yield "subscripted", cls[dom.Lang, dom.Word]()
        yield "plain", cls()
        return
    if cls in (GenericSwap, GenericFac):
        yield "subscripted", cls[int]()
        yield "subscripted otherwise", cls[str]()
        yield "plain", cls()


T = TypeVar("T")


class NewSwap(dom.Sym):
    """a subclass: another kind"""


class GenericSwap(dom.Sym, Generic[T]):
    """can be created with type arguments"""


class GenericFac(dom.ForeignFac, Generic[T]):
    """can be created with type arguments"""


def strategies(ctx, name):
    rng = unit_rng(ctx, name)
    seen = {}
    for mode in S.ALLMODES:
        for pname in S.PACKS:
            for st in S.all_packs(mode)[pname]:
                seen.setdefault(repr(st), st)
    seen["EmptyStrategy"] = EmptyStrategy()
    seen["AtomStrategy"] = AtomStrategy()
    seen["EmptySub"] = EmptyStrategy[dom.Lang, dom.Word]()
    seen["GenericSwap"] = GenericSwap()
    seen["GenericSwapSub"] = GenericSwap[int]()
    seen["GenericFac"] = GenericFac()
    seen["GenericFacSub"] = GenericFac[int]()
    for flags in range(16):
        kw = {"ignore_parent": bool(flags & 1), "inferrable": bool(flags & 2), "possibly_empty": bool(flags & 4),
              "workable": bool(flags & 8)}
        for cls in (dom.Sym, NewSwap):
            try:
                seen[f"{cls.__name__}{flags}"] = cls(**kw)
            except TypeError:
                pass
    sts = list(seen.items())
    for nm, st in sts:
        data = {"strategy": nm, "settings": str(st.__dict__)[:300]}
        ctx.input = data
        for how, other in variants(st, rng):
            d = dict(data, created=how)
            ctx.check(type(other) is type(st), "strategy-kind", f"{how}: {type(other)} instead of {type(st)}", d)
            ctx.check(st == other and other == st and not st != other, "strategy-equal",
                      lambda: f"{how} instance differs: {st.__dict__} / {other.__dict__}", d)
            ctx.check(js(other) == js(st), "strategy-dump", f"{how} instance is dumped differently", d)
            if isinstance(st, AbstractStrategy):
                for f in ("ignore_parent", "inferrable", "possibly_empty", "workable"):
                    ctx.check(getattr(st, f) == getattr(other, f), "strategy-flag", f"{how}: {f} changed", d)
            else:
                ctx.check(hash(st) == hash(other), "strategy-hash", f"{how}: equal strategies hash differently", d)
            ctx.ev((nm, how))
    dumps = {}
    for nm, st in sts:
        dumps.setdefault(json.dumps(js(st), sort_keys=True), []).append((nm, st))
    reps = [v[0] for v in dumps.values()]
    for (n1, s1) in reps:
        for (n2, s2) in reps:
            ctx.check((s1 == s2) == (n1 == n2), "strategy-distinct", f"{n1} == {n2} is {s1 == s2}", {"strategies": [n1, n2]})
    for group in dumps.values():
        for n2, s2 in group[1:]:
            ctx.check(group[0][1] == s2 and s2 == group[0][1], "strategy-equal", f"{group[0][0]} != {n2}", {"strategies": [group[0][0], n2]})
    ctx.note("strategies", len(sts))


def packs(ctx, name):
    rng = unit_rng(ctx, name)
    allp = {}
    for mode in S.ALLMODES:
        for pname, p in S.all_packs(mode).items():
            allp[(pname, mode)] = p
    for key, p in allp.items():
        ps = [p]
        ps.append(p.make_iterative("it"))
        for how, st in (("add_initial", dom.Sym()), ("add_verification", dom.VerFree()), ("add_symmetry", dom.Sym()),
                        ("add_inferral", dom.Normal("canon"))):
            try:
                ps.append(getattr(p, how)(st))
            except (ValueError, AttributeError):  # already in the pack
                pass
        for q in ps:
            data = {"pack": str(key), "name": q.name, "iterative": q.iterative}
            ctx.input = data
            d = js(q)
            new = StrategyPack.from_dict(copy.deepcopy(d))
            ctx.check(new == q and q == new and not new != q, "pack-equal", "the reloaded pack is not equal", data)
            for f in ("name", "iterative", "initial_strats", "inferral_strats", "ver_strats", "expansion_strats", "symmetries"):
                a, b = getattr(q, f), getattr(new, f)
                ctx.check(a == b and type(a) is type(b), "pack-field", f"{f}: {a} reloaded as {b}", data)
            ctx.check(list(map(repr, q)) == list(map(repr, new)), "pack-order", "strategies differ or are reordered", data)
            ctx.check(js(new) == d, "pack-dump", "dumping the reloaded pack gives another text", data)
            ctx.ev(json.dumps(d, sort_keys=True))
    keys = list(allp)
    for a in keys[:60]:
        for b in keys[:60]:
            if js(allp[a]) != js(allp[b]):
                ctx.check(allp[a] != allp[b], "pack-distinct", f"{a} equals {b}", {"packs": [str(a), str(b)]})


def maps_agree(ctx, b1, b2, data, nmax=5):
    c1, c2 = b1.domain.root, b1.codomain.root
    ctx.check(b2.domain == b1.domain and b2.codomain == b1.codomain, "bijection-specs", "specifications differ after reloading", data)
    for n in range(nmax + 1):
        for w in c1.objects_of_size(n):
            ctx.check(b1.map(w) == b2.map(w), "bijection-map", lambda: f"{w!r}: original {b1.map(w)!r}, reloaded {b2.map(w)!r}", data)
        for w in c2.objects_of_size(n):
            ctx.check(b1.inverse_map(w) == b2.inverse_map(w), "bijection-inverse",
                      lambda: f"{w!r}: original {b1.inverse_map(w)!r}, reloaded {b2.inverse_map(w)!r}", data)


def bijection_ok(ctx, s1, s2, data):
    b = Bijection.construct(s1, s2)
    if b is None:
        return
    d = js(b)
    txt = json.dumps(d)
    b2 = Bijection.from_dict(json.loads(txt))
    ctx.note("bijections")
    if not (c12.mapped(s1) and c12.mapped(s2)):
        ctx.check(b2.domain == b.domain and b2.codomain == b.codomain, "bijection-specs", "specifications differ after reloading", data)
        return
    maps_agree(ctx, b, b2, data, 4)
    b3 = Bijection.from_dict(js(b2))
    maps_agree(ctx, b, b3, data, 3)
    ctx.ev(txt)


def bijections_grammar(ctx, name, tries):
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        nodes = gram.random_nodes(rng, rng.choice([2, 3, 3, 4, 5]))
        pool = []
        for _ in range(2):
            g = gram.variant(rng, nodes, rng.choice([0.2, 0.7])) if pool or rng.random() < 0.3 else nodes
            try:
                pool.append((gram.specification(g), {"grammar": repr(g)}))
            except (gram.Bad, RecursionError):
                break
        if len(pool) == 2:
            data = {"first": pool[0][1], "second": pool[1][1]}
            ctx.input = data
            bijection_ok(ctx, pool[0][0], pool[1][0], data)


def bijections_words(ctx, name, pname, mode):
    rng = unit_rng(ctx, name)
    start, _ = S.configure(rng, pname, mode, "default", dom.Lang, rng.random() < 0.4)
    pool = []
    for c in (start, c12.permuted(start)):
        _, opts = S.configure(rng, pname, mode, "default")
        opts["expand_verified"] = True
        try:
            spec, s, data = S.find(ctx, rng, pname, mode, rng.choice(["default", "forest"]), config=(c, opts))
        except Skip:
            continue
        if spec is not None and len(spec.rules_dict) <= 40:
            pool.append((spec, data))
    for i, (s1, d1) in enumerate(pool):
        for s2, d2 in pool[i:]:
            data = {"first": d1, "second": d2}
            ctx.input = data
            bijection_ok(ctx, s1, s2, data)


def units(tier, seed):
    n = 1 if tier == "quick" else 6
    us = [Unit("strategies", strategies, "strategies", timeout=60), Unit("packs", packs, "packs", timeout=90)]
    us += S.grid(from_search, tier, tries=2, thorough=4)
    us += S.grid(from_search, tier, name="specsB", tries=2, pnames=("infer", "half", "cat", "sym"), extra=("LangB",))
    for k in range(8 * n):
        us.append(Unit(f"grammar/{k}", from_grammar, f"grammar/{k}", 40, timeout=60))
        us.append(Unit(f"bijgrammar/{k}", bijections_grammar, f"bijgrammar/{k}", 60, timeout=60))
    for pname in S.PACKS:
        for mode in ("keep", "drop", "merge", "canon", "rand1"):
            for k in range(n):
                nm = f"rules/{pname}/{mode}/{k}"
                us.append(Unit(nm, rules, nm, pname, mode, timeout=60))
    for pname in ("basic", "half", "infer", "halfinfer", "normal", "two", "cat", "sym", "both", "unaryprod", "symcat"):
        for mode in ("keep", "merge", "canon"):
            for k in range(n):
                nm = f"bijwords/{pname}/{mode}/{k}"
                us.append(Unit(nm, bijections_words, nm, pname, mode, timeout=60))
    return us
