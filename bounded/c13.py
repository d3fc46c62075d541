"""C13 bounded stand-in: both parallel finders on pairs of random searchers."""
import random

from core import Skip, Unit, Violation, repo_frames, unit_rng
import dom
import expr
import gram
import specs as S
from c01 import enumerate_ok
from c02 import judge
from search import do_steps, fake_clock, searcher
from specs import VerificationRule, all_packs, cap_queue

from comb_spec_searcher import AtomStrategy, StrategyPack
from comb_spec_searcher.bijection import EqPathParallelSpecFinder, ParallelSpecFinder
from comb_spec_searcher.isomorphism import Isomorphism

RULE = ("a case is one ordered pair of searchers handed to one finder; a returned pair of specifications is judged as in "
        "C01/C02 against each start class and must be isomorphic; non-trivial: distinct pairs for which specifications were "
        "returned")
BOUND = ("word languages with <= 3 letters and expression universes with <= 4 definitions, <= 60 work packets per searcher; "
         "verification by atoms only (the finder documents that restriction)")


class Broken(Exception):
    """raised on purpose"""


def plain(x, start):
    return {start.get_parameters(o): 0 for o in ()}


def find(ctx, finder, s1, s2, data):
    """-> specifications or None; the finder's two documented refusals count as 'found nothing'"""
    try:
        return finder(s1, s2).find()
    except ValueError as e:
        if "No specifications were found" in str(e):
            return None
        if "Only atoms can be verified" in str(e):
            ctx.note("refused")
            return None
        raise


def both(ctx, make1, make2, data, counts, finders=(ParallelSpecFinder, EqPathParallelSpecFinder)):
    """make*: () -> fresh searcher"""
    found = []
    for finder in finders:
        s1, s2 = make1(), make2()
        if s1 is None or s2 is None:
            raise Skip("no specification")
        d = dict(data, finder=finder.__name__)
        ctx.input = d
        got = find(ctx, finder, s1, s2, d)
        ctx.note("pairs")
        nontriv = [s.start_label != s.ruledb.equivdb[s.start_label] for s in (s1, s2)]
        if any(nontriv):
            ctx.note("start class is not its own representative")
        if got is None:
            ctx.ev(None, False)
            found.append(None)
            continue
        ctx.note("found " + finder.__name__)
        sp1, sp2 = got
        for sp, s in ((sp1, s1), (sp2, s2)):
            ctx.check(sp.root == s.start_class, "root", lambda: f"root is {sp.root!r}, not {s.start_class!r}", d)
            judge(ctx, sp, s.start_class, s.strategy_pack, d,
                  classes=[s.classdb.get_class(i) for i in range(len(s.classdb.comb_class_list))])
            counts(sp, s.start_class, d)
        ctx.check(Isomorphism.check(sp1, sp2), "isomorphic",
                  lambda: f"the two specifications are not isomorphic:\n{sp1}\n{sp2}", d)
        ctx.ev(repr(d))
        found.append(got)
    return found


# ------------------------------------------------------------------ words
def word_searcher(cfg):
    start, pname, mode, steps, cap = cfg
    pack = all_packs(mode)[pname]
    fake_clock(0.0005)
    s = searcher(start, pack, "default")
    cap_queue(s, cap)
    do_steps(s, steps)
    for _ in range(6):
        if s.has_specification():
            return s
        if len(s.classdb.comb_class_list) > 150 or not do_steps(s, 8):
            break
    return s if s.has_specification() else None


WPACKS = ("basic", "half", "infer", "halfinfer", "normal", "two", "factory", "ready", "foreign", "cat", "sym", "syminfer",
          "both", "bothinfer", "unaryprod", "unaryprod2", "symcat", "upfac", "iter")


def words(ctx, name, pname, mode, tries):
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        start = S.start_for(rng, pname, dom.Lang, rng.random() < 0.5)
        other = start
        r = rng.random()
        if r < 0.5:
            from c12 import permuted
            other = permuted(start)
        elif r < 0.6:
            other = S.start_for(rng, pname, dom.Lang, rng.random() < 0.5)
        p2 = pname if rng.random() < 0.6 else rng.choice(WPACKS)
        m2 = mode if rng.random() < 0.7 else rng.choice(S.ALLMODES)
        c1 = (start, pname, mode, rng.choice([0, 5, 20]), 60)
        c2 = (other, p2, m2, rng.choice([0, 5, 20]), 60)
        seed = rng.randrange(10 ** 6)
        data = {"first": repr(c1), "second": repr(c2), "universe": "words"}
        ctx.input = data

        def mk(c):
            random.seed(seed)
            return word_searcher(c)
        try:
            both(ctx, lambda: mk(c1), lambda: mk(c2), data, lambda sp, st, d: enumerate_ok(ctx, sp, st, d, 5))
        except Skip:
            continue


# ------------------------------------------------------------------ expressions
def random_expr(rng, nv, depth):
    r = rng.random()
    if depth == 0 or r < 0.35:
        q = rng.random()
        if q < 0.5:
            return ("v", rng.randrange(nv))
        if q < 0.93:
            return ("a", rng.choice([1, 1, 1, 0, 2]))
        return ("0",)
    k = rng.choice([1, 2, 2, 2, 3])
    es = tuple(random_expr(rng, nv, depth - 1) for _ in range(k))
    return ("+",) + es if r < 0.7 else ("*",) + es


def random_defs(rng):
    while True:
        nv = rng.choice([1, 2, 2, 3, 4])
        defs = []
        for _ in range(nv):
            e = random_expr(rng, nv, rng.choice([1, 2, 2]))
            if e[0] not in "+*":
                e = ("+", e, ("*", ("a", 1), ("v", rng.randrange(nv))))
            defs.append(e)
        defs = tuple(defs)
        g = expr.Defs(defs)
        if g.minm[0] is None:
            continue
        try:
            if all(g.count(("v", i), n) <= 10 ** 6 for i in range(nv) for n in range(9)) and \
                    sum(g.count(("v", 0), n) for n in range(9)) > 2:
                return defs
        except (gram.Bad, RecursionError):
            continue


def rename(rng, defs):
    """the same language: definitions permuted, operands reordered"""
    perm = list(range(1, len(defs)))
    rng.shuffle(perm)
    perm = [0] + perm

    def go(e):
        if e[0] == "v":
            return ("v", perm[e[1]])
        if e[0] in "+*":
            es = [go(x) for x in e[1:]]
            if rng.random() < 0.5:
                rng.shuffle(es)
            return (e[0],) + tuple(es)
        if e[0] == "c":
            return ("c", e[1], go(e[2]))
        return e
    out = [None] * len(defs)
    for i, e in enumerate(defs):
        out[perm[i]] = go(e)
    return tuple(out)


def random_pack(rng):
    pool = [expr.Sums(), expr.Prods(), expr.Distribute(), expr.UnfoldIn(), expr.SplitFirst(), expr.SplitSum(),
            expr.Flatten(), expr.OneWayFold(), expr.Sorted(), expr.Both(), expr.AtomRules()]
    inf, ini, syms = [], [], []
    if rng.random() < 0.4:
        inf.append(rng.choice([expr.Flatten(), expr.Sorted()]))
    if rng.random() < 0.4:
        syms.append(rng.choice([expr.Mirror(), expr.Rotate()]))
    base = [expr.Unfold(), expr.Sums(), expr.Prods()]
    extra = rng.sample(pool, rng.choice([0, 1, 2, 4]))
    every = base + [e for e in extra if repr(e) not in map(repr, base + inf)]
    every = list({repr(e): e for e in every}.values())
    rng.shuffle(every)
    k = rng.randrange(len(every) + 1)
    ini, exp = every[:k], every[k:]
    j = rng.randrange(len(exp) + 1)
    sets = [x for x in (exp[:j], exp[j:]) if x]
    return StrategyPack(ini, inf, sets, [AtomStrategy()], "expr", symmetries=syms)


def expr_searcher(start, pack, steps):
    fake_clock(0.0005)
    s = searcher(start, pack, "default")
    cap_queue(s, 60)
    do_steps(s, steps)
    for _ in range(6):
        if s.has_specification():
            return s
        if len(s.classdb.comb_class_list) > 150 or not do_steps(s, 8):
            break
    return s if s.has_specification() else None


def exprs(ctx, name, tries):
    rng = unit_rng(ctx, name)

    def counts(sp, st, d):
        for n in range(8):
            got, want = sp.count_objects_of_size(n), st.count(n)
            ctx.check(got == want, "count", lambda: f"size {n}: specification {got}, true {want}", d)
    for _ in range(tries):
        defs = random_defs(rng)
        defs2 = defs if rng.random() < 0.3 else rename(rng, defs)
        if rng.random() < 0.1:
            defs2 = random_defs(rng)
        p1, p2 = random_pack(rng), random_pack(rng)
        if rng.random() < 0.3:
            p2 = p1
        e1 = ("v", 0) if rng.random() < 0.6 else defs[0]
        e2 = ("v", 0) if rng.random() < 0.6 else defs2[0]
        k1, k2 = rng.choice([0, 10, 30, 50]), rng.choice([0, 10, 30, 50])
        data = {"first": [repr(defs), expr.show(e1), repr(p1), k1], "second": [repr(defs2), expr.show(e2), repr(p2), k2],
                "universe": "expressions"}
        ctx.input = data
        seed = rng.randrange(10 ** 6)

        def mk(defs, e, p, k):
            random.seed(seed)
            return expr_searcher(expr.Expr(defs, e), p, k)
        try:
            both(ctx, lambda: mk(defs, e1, p1, k1), lambda: mk(defs2, e2, p2, k2), data, counts)
        except (Skip, gram.Bad):
            continue


def joint(ctx, name, tries):
    """the same language in three forms: only a product rule, only a union rule, both; the second search has to choose
    one rule per class on both sides that fit every pair in which the class occurs"""
    rng = unit_rng(ctx, name)

    def counts(sp, st, d):
        for n in range(8):
            got, want = sp.count_objects_of_size(n), st.count(n)
            ctx.check(got == want, "count", lambda: f"size {n}: specification {got}, true {want}", d)
    z = ("a", 1)
    for _ in range(tries):
        leaves = [("a", 1), ("a", 2), ("v", 0), ("a", 0), ("v", 2)]
        kids = rng.sample(leaves, rng.choice([2, 2, 3]))
        sm = ("+",) + tuple(kids)
        forms = [("*", z, ("v", 1)), ("+",) + tuple(("*", z, k) for k in kids), ("*", z, sm)]

        def start():
            return ("+",) + tuple(rng.choice(forms) for _ in range(3)) + (("a", 1),)
        d1 = (("+", ("*", z, start()), z), sm, ("*", z, start()))
        d2 = (("+", ("*", z, start()), z), sm, ("*", z, start()))
        if rng.random() < 0.5:
            d1, d2 = d1[:2] + (("*", z, z),), d2[:2] + (("*", z, z),)
        try:
            for d in (d1, d2):
                g = expr.Defs(d)
                for n in range(9):
                    g.count(("v", 0), n)
        except (gram.Bad, RecursionError):
            continue
        packs = []
        for _ in range(2):
            st = [expr.Unfold(), expr.Sums(), expr.Prods(), expr.Distribute()]
            rng.shuffle(st)
            k = rng.randrange(5)
            packs.append(StrategyPack(st[:k], [], [st[k:]] if k < 4 else [], [AtomStrategy()], "joint"))
        data = {"first": [repr(d1), repr(packs[0])], "second": [repr(d2), repr(packs[1])], "universe": "expressions"}
        ctx.input = data

        def mk(d, p):
            s = expr_searcher(expr.Expr(d, ("v", 0)), p, 0)
            if s is not None:
                do_steps(s, 60)
            return s
        try:
            both(ctx, lambda: mk(d1, packs[0]), lambda: mk(d2, packs[1]), data, counts)
        except (Skip, gram.Bad):
            continue


def mutate(rng, defs):
    """one colour is added, removed or changed"""
    spots = []

    def go(e, path):
        spots.append(path)
        for i, x in enumerate(e):
            if isinstance(x, tuple):
                go(x, path + (i,))
    for i, e in enumerate(defs):
        go(e, (i,))

    def change(e, path):
        if path:
            return e[:path[0]] + (change(e[path[0]], path[1:]),) + e[path[0] + 1:]
        if e[0] == "c":
            return e[2] if rng.random() < 0.5 else ("c", 5 - e[1], e[2])
        return ("c", 2, e) if e[0] == "v" else e
    return change(defs, rng.choice(spots))


def coloured(ctx, name, tries):
    """two-way rules that are not equivalences: classes with one equivalence label and different counts"""
    rng = unit_rng(ctx, name)

    def counts(sp, st, d):
        for n in range(8):
            got, want = sp.count_objects_of_size(n), st.count(n)
            ctx.check(got == want, "count", lambda: f"size {n}: specification {got}, true {want}", d)
    z = ("a", 1)

    def colour(e, p=0.5):
        while rng.random() < p:
            e = ("c", rng.choice([2, 2, 3]), e)
        return e
    for _ in range(tries):
        ds = []
        for _ in range(2):
            def item():
                return colour(rng.choice([("v", 1), ("v", 1), ("v", 1), ("v", 0), ("v", 2)]))
            k = rng.choice([2, 2, 3])
            its = [item() for _ in range(k)]
            top = ("+",) + tuple(("*", z, i) for i in its) if rng.random() < 0.5 else ("*", z) + tuple(its)
            ds.append((colour(("+", top, z), 0.2), ("+", ("*", z, item()), ("a", rng.choice([0, 1]))),
                       ("*", z, colour(("v", 1), 0.3))))
        r = rng.random()
        if r < 0.3:
            ds[1] = (ds[1][0],) + ds[0][1:]
        elif r < 0.9:
            ds[1] = ds[0]
            if r < 0.7:
                ds[1] = mutate(rng, ds[0])
            if rng.random() < 0.3:
                ds[1] = rename(rng, ds[1])
        try:
            for d in ds:
                g = expr.Defs(d)
                for n in range(9):
                    g.count(("v", 0), n)
        except (gram.Bad, RecursionError):
            continue
        st = [expr.Unfold(), expr.Sums(), expr.Prods(), expr.Uncolour()]
        pack = StrategyPack(st[:2], [], [st[2:]], [AtomStrategy()], "colour")
        data = {"first": [repr(ds[0])], "second": [repr(ds[1])], "universe": "expressions with colours"}
        ctx.input = data

        def mk(d):
            s = expr_searcher(expr.Expr(d, ("v", 0)), pack, 0)
            if s is not None:
                do_steps(s, 60)
            return s
        try:
            both(ctx, lambda: mk(ds[0]), lambda: mk(ds[1]), data, counts, (EqPathParallelSpecFinder,))
        except (Skip, gram.Bad):
            continue


def units(tier, seed):
    us = []
    n = 1 if tier == "quick" else 8
    for j in range(8 * n):
        nm = f"joint/{j}"
        us.append(Unit(nm, joint, nm, 200, timeout=90))
        nm = f"coloured/{j}"
        us.append(Unit(nm, coloured, nm, 400, timeout=90))
    for k in range(n):
        for pname in WPACKS:
            for mode in S.ALLMODES[:4] if tier == "quick" else S.ALLMODES:
                nm = f"words/{pname}/{mode}/{k}"
                us.append(Unit(nm, words, nm, pname, mode, 16, timeout=90))
        for j in range(24):
            nm = f"exprs/{k}/{j}"
            us.append(Unit(nm, exprs, nm, 200, timeout=90))
    return us
