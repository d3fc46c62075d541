"""C06 bounded stand-in: EquivalenceDB against Floyd-Warshall reachability."""
import itertools

from core import Unit, unit_rng

from comb_spec_searcher.equiv_db import EquivalenceDB

RULE = ("a case is one state of an edge/verification history in which all label pairs are compared with "
        "transitive-closure reachability; non-trivial: distinct (edges, verified labels)")
BOUND = "<= 9 labels and <= 30 operations (random), all one-/two-way edge sequences of length <= 3 on 3 labels"


class Mon:
    def __init__(self, ctx):
        self.ctx, self.db = ctx, EquivalenceDB()
        self.edges, self.marked, self.trace = set(), set(), []
        self.labels = set()

    def reach(self):
        r = {a: {a} for a in self.labels}
        for a, b in self.edges:
            r[a].add(b)
        for k in self.labels:
            for a in self.labels:
                if k in r[a]:
                    r[a] |= r[k]
        return r

    def op(self, op, a, b=None):
        self.trace.append((op, a, b))
        self.labels |= {a} | ({b} if b is not None else set())
        if op == "two":
            self.db.add_two_way_edge(a, b)
            self.edges |= {(a, b), (b, a)}
        elif op == "one":
            self.db.add_one_way_edge(a, b)
            self.edges.add((a, b))
        elif op == "ver":
            self.db.set_verified(a)
            self.marked.add(a)
        elif op == "query":
            self.db.equivalent(a, b if b is not None else a)
            self.db.is_verified(a)
        elif op == "cycles":
            self.db.connect_cycles()
            self.full()

    def full(self, exact=True):
        r = self.reach()
        d = {"history": self.trace}
        c = self.ctx
        for a in self.labels:
            for b in self.labels:
                exp = b in r[a] and a in r[b]
                got = self.db.equivalent(a, b)
                if got and not exp:
                    c.check(False, "false-equivalence", f"{a} and {b} reported equivalent", d)
                if exact and exp and not got:
                    c.check(False, "missed-equivalence", f"{a} and {b} not reported equivalent", d)
                if not exp and not exact:
                    continue
                if got:
                    p = self.db.find_path(a, b)
                    ok = p[0] == a and p[-1] == b and all(
                        e in self.edges for e in zip(p[:-1], p[1:]))
                    c.check(ok, "path", f"path from {a} to {b} is {p}", d)
                else:
                    try:
                        self.db.find_path(a, b)
                        c.check(False, "path-inequivalent", f"a path between inequivalent {a},{b}", d)
                    except KeyError:
                        pass
            scc = {b for b in self.labels if self.db.equivalent(a, b)}
            c.check((self.db[a] == a) or self.db[a] in scc, "root", f"root {self.db[a]} of {a} outside its class", d)
            exp = bool(scc & self.marked)
            got = self.db.is_verified(a)
            c.check(got is exp, "verified", f"is_verified({a}) is {got}; class {scc}, marked {self.marked}", d)
            got = self.db.equivalent_set(a)
            c.check(got == scc, "equivalent_set", f"equivalent_set({a}) is {got}, expected {scc}", d)


def history(ctx, name, n, steps, dens):
    rng = unit_rng(ctx, name)
    for _ in range(12):
        m = Mon(ctx)
        labs = rng.sample(range(40), n)
        for _ in range(steps):
            op = rng.choices(["two", "one", "ver", "query", "cycles"], dens)[0]
            a, b = rng.choice(labs), rng.choice(labs)
            m.op(op, a, b if op in ("two", "one", "query") else None)
            m.full(exact=False)
            ctx.ev((sorted(m.edges), sorted(m.marked)))
        m.op("cycles", labs[0])
        m.full()
    ctx.samples.append({"history": m.trace[:10]})


def shape(ctx, name):
    """cycles through long one-way chains, chords, figure-eights, and re-running connect_cycles"""
    rng = unit_rng(ctx, name)
    for n in range(2, 9):
        for chord in range(0, 6):
            m = Mon(ctx)
            labs = list(range(n))
            rng.shuffle(labs)
            es = [("one", labs[i], labs[(i + 1) % n]) for i in range(n)]
            for _ in range(chord):
                es.append((rng.choice(["one", "one", "two"]), rng.choice(labs), rng.choice(labs)))
            drop = rng.random() < 0.4
            if drop:
                es.pop(rng.randrange(n))
            rng.shuffle(es)
            for i, e in enumerate(es):
                m.op(*e)
                if rng.random() < 0.2:
                    m.op("cycles", labs[0])
                if rng.random() < 0.15:
                    m.op("ver", rng.choice(labs))
            m.op("cycles", labs[0])
            m.full()
            ctx.ev((sorted(m.edges), sorted(m.marked)))


def exhaustive(ctx, name, first):
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    ops = [("one",) + p for p in pairs] + [("two",) + p for p in pairs if p[0] < p[1]] + [("ver", 0), ("ver", 2), ("cycles", 0)]
    for rest in itertools.product(ops, repeat=2 if ctx.tier == "quick" else 3):
        m = Mon(ctx)
        for o in (first,) + rest:
            m.op(*o)
            m.full(exact=False)
        m.op("cycles", 0)
        m.full()
        ctx.ev((first, rest))


def units(tier, seed):
    n = 24 if tier == "quick" else 250
    us = []
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    for f in [("one",) + p for p in pairs] + [("two", 0, 1), ("two", 1, 2), ("ver", 1)]:
        nm = "exhaustive/" + "-".join(map(str, f))
        us.append(Unit(nm, exhaustive, nm, f, hang=True))
    for k in range(n):
        for j, (lab, steps, dens) in enumerate([(4, 12, (1, 5, 1, 1, 1)), (7, 20, (1, 6, 1, 1, 0)),
                                                (9, 30, (1, 8, 1, 1, 0.3)), (6, 16, (3, 3, 2, 1, 1)),
                                                (5, 14, (0, 8, 1, 0, 0.5))]):
            nm = f"history/{j}/{k}"
            us.append(Unit(nm, history, nm, lab, steps, dens, hang=True))
        us.append(Unit(f"shape/{k}", shape, f"shape/{k}", hang=True))
    return us
