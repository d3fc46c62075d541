"""C12 bounded stand-in: bijections between specifications of random searches, judged object by object."""
import json

from core import Skip, Unit, unit_rng
import dom
import gram
import specs as S
from specs import VerificationRule, all_packs

from comb_spec_searcher import CombinatorialSpecification
from comb_spec_searcher.bijection import ParallelSpecFinder
from comb_spec_searcher.isomorphism import Bijection, Isomorphism

RULE = ("a case is one ordered pair of specifications: symmetry of the isomorphism test, and when a bijection is "
        "constructed, every object of size <= 6 mapped forth and back and compared with enumeration; non-trivial: "
        "distinct pairs for which a bijection exists")
BOUND = "word/Dyck languages with <= 3 letters, <= 2 statistics, objects of size <= 6"
NMAX = 6
PERM = {"a": "b", "b": "a", "d": "e", "e": "d", "x": "y", "y": "x"}


def atoms_only(spec):
    return all(r.comb_class.is_atom() or r.comb_class.is_empty() for r in spec.rules_dict.values()
               if isinstance(r, VerificationRule))


def objects_ok(ctx, bij, c1, c2, data, nmax=NMAX, key=""):
    for n in range(nmax + 1):
        o1 = list(c1.objects_of_size(n))
        o2 = list(c2.objects_of_size(n))
        img = []
        for w in o1:
            d = dict(data, object=str(w))
            ctx.input = d
            v = bij.map(w)
            ctx.check(c2.has(v) and len(v) == n, key + "image", lambda: f"{w!r} is mapped to {v!r}", d)
            ctx.check(bij.inverse_map(v) == w, key + "inverse", lambda: f"{w!r} -> {v!r} -> {bij.inverse_map(v)!r}", d)
            img.append(v)
        ctx.check(len(img) == len(o2) and set(img) == set(o2), key + "onto", lambda: f"size {n}: the image is {img[:8]}, expected {o2[:8]}", data)
        for v in o2:
            d = dict(data, object=str(v))
            ctx.input = d
            w = bij.inverse_map(v)
            ctx.check(c1.has(w) and bij.map(w) == v, key + "inverse2", lambda: f"{v!r} -> {w!r} -> {bij.map(w)!r}", d)
    ctx.input = data


def mapped(spec):
    """complements and quotients have no object maps (by design); the equivalences among them do"""
    from comb_spec_searcher.strategies.constructor import Complement, Quotient
    return all(isinstance(r, VerificationRule) or r.is_equivalence()
               or not isinstance(r.constructor, (Complement, Quotient)) for r in spec.rules_dict.values())


def judge(ctx, s1, s2, data, rng):
    i12, i21 = Isomorphism.check(s1, s2), Isomorphism.check(s2, s1)
    ctx.check(i12 == i21, "symmetric", f"isomorphic one way round: {i12}, the other: {i21}", data)
    ctx.note("pairs")
    b = Bijection.construct(s1, s2)
    ctx.check((b is not None) == i12, "construct", "construct and check disagree", data)
    if b is None:
        ctx.ev(None, False)
        return None
    if not (mapped(s1) and mapped(s2)):
        ctx.note("no object maps")
        return b
    ctx.note("bijections")
    if any(r.is_equivalence() for r in s1.rules_dict.values()) != any(r.is_equivalence() for r in s2.rules_dict.values()):
        ctx.note("equivalences on one side only")
    objects_ok(ctx, b, s1.root, s2.root, data)
    if rng.random() < 0.3:
        b2 = Bijection.from_dict(json.loads(json.dumps(b.to_jsonable())))
        objects_ok(ctx, b2, s1.root, s2.root, data, 4, "reloaded ")
    ctx.ev((repr(data)))
    return b


def reload(spec):
    return CombinatorialSpecification.from_dict(json.loads(json.dumps(spec.to_jsonable())))


def permuted(c):
    return c.make(c.kind, dom.lang_permute(c.kind, c.data, PERM),
                  tuple((n, "".join(sorted(dom.permute(ls, PERM)))) for n, ls in c.stats))


def family(ctx, name, pname, mode, tries):
    """specifications of one class and of its image under a permutation of the letters, by several searches"""
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        start, _ = S.configure(rng, pname, mode, "default", dom.Lang, rng.random() < 0.5)
        pool = []
        other = rng.choice([p for p in ("basic", "half", "infer", "halfinfer", "two", "unaryprod", "symcat", pname)])
        for c in (start, permuted(start)):
            for p, m, db in ((pname, mode, rng.choice(["default", "forget"])),
                             (rng.choice([pname, other]), rng.choice([mode, "keep", "merge"]), rng.choice(["forest", "forestnr", "default"]))):
                _, opts = S.configure(rng, pname, m, db)
                opts["expand_verified"] = True
                try:
                    spec, s, data = S.find(ctx, rng, p, m, db, config=(c, opts))
                except Skip:
                    continue
                if spec is not None and len(spec.rules_dict) <= 40:
                    pool.append((spec, data))
        for a, (s1, d1) in enumerate(pool):
            if atoms_only(s1):
                ctx.check(Isomorphism.check(s1, s1), "reflexive", "not isomorphic to itself", d1)
            for b, (s2, d2) in enumerate(pool):
                if b < a:
                    continue
                data = {"first": d1, "second": d2}
                ctx.input = data
                if rng.random() < 0.15:
                    judge(ctx, reload(s1), reload(s2), data, rng)
                else:
                    judge(ctx, s1, s2, data, rng)


def pool_pairs(ctx, name, mode, count):
    """all pairs of a pool of unrelated small specifications"""
    rng = unit_rng(ctx, name)
    pool = []
    for _ in range(count):
        pname = rng.choice(["basic", "half", "infer", "halfinfer", "normal", "two", "cat", "sym", "unaryprod", "symcat", "both"])
        db = rng.choice(["default", "forget", "forest"])
        start, opts = S.configure(rng, pname, mode, db, dom.Lang, rng.random() < 0.3)
        try:
            spec, s, data = S.find(ctx, rng, pname, mode, db, config=(start, opts))
        except Skip:
            continue
        if spec is not None and len(spec.rules_dict) <= 25:
            pool.append((spec, data))
    for i, (s1, d1) in enumerate(pool):
        for s2, d2 in pool[i:]:
            data = {"first": d1, "second": d2}
            ctx.input = data
            judge(ctx, s1, s2, data, rng)


def grammars(ctx, name, tries):
    """specifications of arbitrary shape: repeated and permuted children, equivalences, empty children"""
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        nodes = gram.random_nodes(rng, rng.choice([2, 3, 3, 4, 5, 6]))
        pool = []
        for _ in range(4):
            g = gram.variant(rng, nodes, rng.choice([0.2, 0.7])) if pool or rng.random() < 0.3 else nodes
            try:
                pool.append((gram.specification(g), {"grammar": repr(g)}))
            except (gram.Bad, RecursionError):
                if not pool:
                    break
        for i, (s1, d1) in enumerate(pool):
            ctx.input = d1
            ctx.check(Isomorphism.check(s1, s1), "reflexive", "not isomorphic to itself", d1)
            for s2, d2 in pool[i:]:
                data = {"first": d1, "second": d2}
                ctx.input = data
                judge(ctx, s1, s2, data, rng)


def stale(ctx, name, tries):
    """two nodes of one shape and different counts, a common descendant refers back to one of them only: matches
    made while the wrong pair was tried must be forgotten"""
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        k = rng.choice([2, 2, 3])  # nodes 1..k: products z * A * atom_i, node k+1: A, k+2: the recursive part of A
        A, B, z, e = k + 1, k + 2, k + 3, k + 4
        sizes = rng.sample([1, 2, 3, 4], k)
        kids = [[z, A, e + 1 + i] for i in range(k)]
        for c in kids:
            rng.shuffle(c)
        tail = [("+", tuple(rng.sample([e, B], 2))), ("*", tuple(rng.sample([z, rng.randrange(1, k + 1)], 2))), ("a", 1),
                ("a", 0)] + [("a", s) for s in sizes] + [("0",)]
        g1 = tuple([("+", tuple(range(1, k + 1)))] + [("*", tuple(c)) for c in kids] + tail)
        perm = rng.sample(kids, k)
        for c in perm:
            rng.shuffle(c)
        g2 = tuple([("+", tuple(range(1, k + 1)))] + [("*", tuple(c)) for c in perm] + tail)
        if rng.random() < 0.4:
            g2 = gram.variant(rng, g2, 0)
        data = {"first": repr(g1), "second": repr(g2)}
        ctx.input = data
        judge(ctx, gram.specification(g1), gram.specification(g2), data, rng)


def units(tier, seed):
    us = []
    for k in range(2):
        us.append(Unit(f"stale/{k}", stale, f"stale/{k}", 60 if tier == "quick" else 400, timeout=60))
    n = 1 if tier == "quick" else 8
    for k in range(16 * n):
        us.append(Unit(f"grammars/{k}", grammars, f"grammars/{k}", 200 if tier == "quick" else 1000, timeout=90))
    for k in range(n):
        for pname in ("basic", "half", "infer", "halfinfer", "normal", "two", "factory", "ready", "foreign", "cat", "sym",
                      "syminfer", "iter", "both", "bothinfer", "unaryprod", "unaryprod2", "iter2", "symcat", "upfac"):
            for mode in S.ALLMODES[:4] if tier == "quick" else S.ALLMODES:
                nm = f"family/{pname}/{mode}/{k}"
                us.append(Unit(nm, family, nm, pname, mode, 3, timeout=120))
        for mode in S.ALLMODES:
            for j in range(2):
                nm = f"pool/{mode}/{k}/{j}"
                us.append(Unit(nm, pool_pairs, nm, mode, 12, timeout=40))
    return us
