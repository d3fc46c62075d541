"""C16 bounded stand-in: random histories of the work queue, judged only on the packets handed out."""
import copy
import itertools
import pickle

from core import Unit, unit_rng

from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError

RULE = ("a case is one queue operation (add / stop / verified / not-inferrable / next / do_level) "
        "of a history; histories end by draining the queue; non-trivial: distinct (pack shape, "
        "operation, label, level, outcome)")
BOUND = "<= 7 labels, <= 60 operations per random history; exhaustive histories of <= 5 operations over 2 labels"


class P:
    def __init__(self, shape):
        inf, ini, exp = shape
        self.inferral_strats = [f"inf{i}" for i in range(inf)]
        self.initial_strats = [f"ini{i}" for i in range(ini)]
        self.expansion_strats = [[f"exp{j}_{i}" for i in range(k)] for j, k in enumerate(exp)]


SHAPES = [(2, 2, (1, 2)), (0, 1, (2,)), (1, 0, (1, 1, 1)), (0, 0, (1,)), (0, 0, (1, 1)), (1, 1, ()),
          (0, 0, ()), (1, 0, ()), (0, 3, (1, 3)), (2, 0, (2, 2)), (1, 1, (1,)), (1, 2, (0, 1))]


class Monitor:
    def __init__(self, ctx, shape):
        self.ctx, self.pack = ctx, P(shape)
        self.q = DefaultQueue(self.pack)
        self.added, self.stopped = set(), set()
        self.notinf = set()
        self.got = {}
        self.trace = []
        self.order = [("inf",)] if self.pack.inferral_strats else []

    def fail(self, key, what):
        self.ctx.check(False, key, what, {"pack": [self.pack.inferral_strats, self.pack.initial_strats,
                                                   self.pack.expansion_strats], "history": self.trace})

    def expected(self, lab, notinf):
        seq = []
        if self.pack.inferral_strats and not notinf:
            seq.append((tuple(self.pack.inferral_strats), True))
        seq += [((s,), False) for s in self.pack.initial_strats]
        for st in self.pack.expansion_strats:
            seq += [((s,), False) for s in st]
        return seq

    def packet(self, wp):
        lab, strats, inferral = wp
        if lab in self.stopped:
            self.fail("stopped", f"work {wp} for a stopped label")
        if lab not in self.added:
            self.fail("unknown", f"work {wp} for a label never added")
        got = self.got.setdefault(lab, [])
        if any(g == (tuple(strats), inferral) for g in got):
            self.fail("twice", f"work {wp} handed out twice")
        got.append((tuple(strats), inferral))
        exp = self.expected(lab, (lab in self.notinf))
        if got != exp[: len(got)]:
            self.fail("order", f"label {lab} got {got}, expected a prefix of {exp}")

    def op(self, op, lab=None):
        self.trace.append((op, lab))
        q = self.q
        if op == "add":
            q.add(lab)
            self.added.add(lab)
        elif op == "stop":
            q.set_stop_yielding(lab)
            self.stopped.add(lab)
        elif op == "ver":
            q.set_verified(lab)
            self.stopped.add(lab)
        elif op == "notinf":
            q.set_not_inferrable(lab)
            if not any(i for _, i in self.got.get(lab, [])):
                self.notinf.add(lab)
        elif op == "next":
            try:
                self.packet(next(q))
                out = "wp"
            except StopIteration:
                out = "stop"
                self.drained()
            self.trace[-1] = ("next", out)
        elif op == "level":
            lv = q.levels_completed
            n = 0
            try:
                for wp in q.do_level():
                    n += 1
                    self.packet(wp)
                    if n > 3000:
                        self.fail("level-endless", "do_level does not end")
                if q.levels_completed == lv:
                    self.fail("level-quiet", "do_level ended without the level counter advancing and without the error")
            except NoMoreClassesToExpandError:
                if q.levels_completed != lv:
                    self.fail("level-error", "do_level raised although the level counter advanced")
                self.drained()
            except (StopIteration, RuntimeError) as e:
                self.fail("level-exc", f"do_level raised {e!r}")

    def drained(self):
        """exhaustion was signalled: everything must have been handed out"""
        for lab in sorted(self.added - self.stopped):
            exp = self.expected(lab, lab in self.notinf)
            got = self.got.get(lab, [])
            if got != exp:
                self.fail("incomplete", f"exhausted but label {lab} got {got}, expected {exp}")
        for _ in range(2):
            try:
                wp = next(self.q)
            except StopIteration:
                continue
            self.fail("revived", f"work {wp} after exhaustion was signalled")

    def drain(self):
        for _ in range(5000):
            try:
                self.packet(next(self.q))
            except StopIteration:
                self.drained()
                return
        self.fail("endless", "the queue does not run dry")


def history(ctx, name, shape, steps):
    rng = unit_rng(ctx, name)
    m = Monitor(ctx, shape)
    labs = list(range(rng.choice([1, 2, 4, 7])))
    rng.shuffle(labs)
    w = rng.choice([(6, 1, 1, 2, 10, 1), (6, 0, 0, 1, 8, 1), (4, 3, 2, 3, 6, 0), (8, 1, 1, 1, 2, 3)])
    for _ in range(steps):
        op = rng.choices(["add", "stop", "ver", "notinf", "next", "level"], w)[0]
        lab = rng.choice(labs)
        m.op(op, lab)
        ctx.ev((shape, m.trace[-1], m.q.levels_completed, len(m.got)))
        if rng.random() < 0.03:
            q2 = pickle.loads(pickle.dumps(m.q))
            ctx.check(q2 == m.q, "pickle", "unpickled queue differs", m.trace)
            m.q = q2
    m.drain()
    if rng.random() < 0.5:
        m.op("add", 50)
        m.drain()
        ctx.check(m.got.get(50, []) == m.expected(50, False), "after-exhaustion",
                  f"label added after exhaustion got {m.got.get(50)}", m.trace)
    ctx.samples.append({"pack shape": shape, "history": m.trace[:12]})


def small(ctx, name, shape, first):
    ops = [("add", 0), ("add", 1), ("stop", 0), ("notinf", 0), ("notinf", 1), ("ver", 1), ("next", None),
           ("level", None)]
    for rest in itertools.product(ops, repeat=3 if ctx.tier == "quick" else 4):
        m = Monitor(ctx, shape)
        for op, lab in (first,) + rest:
            m.op(op, lab)
        m.drain()
        ctx.ev((shape, first, rest))


def levels(ctx, name, shape):
    """labels added while a level is handed out belong to a later level"""
    m = Monitor(ctx, shape)
    for lab in range(4):
        m.op("add", lab)
    nxt = 10
    for _ in range(6):
        m.op("level")
        for _ in range(2):
            m.op("add", nxt)
            nxt += 1
        ctx.ev((shape, nxt))
    m.drain()


def units(tier, seed):
    n = 40 if tier == "quick" else 400
    us = []
    for i, shape in enumerate(SHAPES):
        us.append(Unit(f"levels/{i}", levels, f"levels/{i}", shape, timeout=20, hang=True))
        for first in [("add", 0), ("notinf", 0), ("stop", 0)]:
            nm = f"small/{i}/{first[0]}"
            us.append(Unit(nm, small, nm, shape, first, timeout=60, hang=True))
        for k in range(n):
            nm = f"history/{i}/{k}"
            us.append(Unit(nm, history, nm, shape, 60, timeout=20, hang=True))
    return us
