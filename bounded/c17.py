"""C17 bounded stand-in: searches pickled at every point or interrupted by their time limit, against uninterrupted ones."""
import os
import pickle
import random
import subprocess
import sys
import tempfile

import c01
import c02
import dom
from core import REPO, Skip, Unit, unit_rng
from search import describe, fake_clock, searcher
from specs import PACKS, all_packs, start_for

from comb_spec_searcher.exception import ExceededMaxtimeError, NoMoreClassesToExpandError, SpecificationNotFound

RULE = ("a case is one pickling point of one search (restored == original, then both continued in lockstep: packets, "
        "classes, labels, emptiness, rules, verified sets, existence and counts of specifications compared) or one "
        "interrupted search; non-trivial: distinct (start class, pack, database, steps)")
BOUND = "random word/Dyck languages, <= 60 work packets, pickled after every 1-7 steps, databases default/forget/forest"


def step(s):
    """one packet as the automatic search handles it; None when the queue is exhausted"""
    try:
        wp = next(s.classqueue)
    except StopIteration:
        return None
    lab, strats, inf = wp
    if s.expand_verified or not s.ruledb.is_verified(lab):
        s._expand(s.classdb.get_class(lab), lab, strats, inf)
    return (lab, tuple(repr(x) for x in strats), inf)


def rules_of(db):
    if hasattr(db, "equivdb"):
        return (sorted(db.rule_to_strategy), sorted(db.eqv_rule_to_strategy),
                [repr(v) for _, v in sorted(db.rule_to_strategy.items())] if type(db).__name__ == "RuleDB" else None,
                sorted((a, tuple(sorted(b))) for a, b in db.equivdb.vertices.items() if b),
                sorted((a, tuple(sorted(b))) for a, b in db.equivdb.get_one_way_vertices().items() if b))
    return (repr(list(getattr(db.table_method, "_rules", ()))), sorted(map(repr, db.table_method.pumping_subuniverse())),
            sorted(db.table_method.function.items(), key=repr))


def universe(s):
    n = len(s.classdb.comb_class_list)
    return {"classes": [repr(s.classdb.get_class(i)) for i in range(n)],
            "known emptiness": list(s.classdb.empty_list),
            "rules": rules_of(s.ruledb),
            "verified": [i for i in range(n) if s.ruledb.is_verified(i)],
            "expanded": (sorted(s.tried_to_verify), sorted(s.inferral_expanded), sorted(s.symmetry_expanded))}


def same(ctx, a, b, what, data):
    ua, ub = universe(a), universe(b)
    for k in ua:
        ctx.check(ua[k] == ub[k], f"{what}-{k.split()[0]}", lambda: f"{k}: {str(ua[k])[:300]} != {str(ub[k])[:300]}", data)


def specs_of(ctx, s, seed, data, smallest):
    if not s.has_specification():
        return None
    random.seed(seed)
    kw = {"smallest": True} if smallest else {"minimization_time_limit": 0}
    return s.get_specification(**kw)


def pickled(ctx, name, pname, mode, db, cls="Lang"):
    rng = unit_rng(ctx, name)
    start = start_for(rng, pname, getattr(dom, cls))
    pack = all_packs(mode)[pname]
    opts = {"expand_verified": rng.random() < 0.3}
    every = rng.choice([1, 2, 3, 7])
    total = 10 * every if every < 4 else 50
    asks = rng.choice([1, 3, 9])
    proto = rng.choice([2, 4, 5])
    data = describe(start, pname, mode, db, options=opts, pickled_every=every, has_specification_every=asks)
    ctx.input = data
    ck = fake_clock(0.001)

    def fresh():
        ck.t = 1000.0
        return searcher(start, all_packs(mode)[pname], db, **opts)
    clocks = {}
    a = fresh()
    clocks["a"] = ck.t
    b = fresh()
    clocks["b"] = ck.t
    done = False
    for k in range(0, total, every):
        d = dict(data, step=k)
        ctx.input = d
        r = pickle.loads(pickle.dumps(b, protocol=proto))
        ctx.check(r == b and b == r, "restored-equal", f"after {k} steps the restored searcher differs from the original", d)
        ctx.check(not r != b, "restored-equal", f"after {k} steps restored != original", d)
        same(ctx, b, r, "restored", d)
        b = r
        for i in range(every):
            pk = {}
            for nm, s in (("a", a), ("b", b)):
                ck.t = clocks[nm]
                pk[nm] = step(s)
                if (k + i) % asks == 0:
                    pk[nm] = (pk[nm], s.has_specification())
                clocks[nm] = ck.t
            ctx.check(pk["a"] == pk["b"], "packets", f"step {k + i}: uninterrupted {pk['a']}, resumed {pk['b']}", d)
            done = pk["a"] is None or pk["a"][0] is None
        same(ctx, a, b, "resumed", d)
        ctx.ev((repr(start), pname, mode, db, k))
        if done or len(a.classdb.comb_class_list) > 200:
            break
    sm = rng.random() < 0.3 and not pack.iterative and not db.startswith("forest")
    ra = specs_of(ctx, a, 5, data, sm)
    pa = pickle.dumps(a)
    rb = specs_of(ctx, b, 5, data, sm)
    ctx.check((ra is None) == (rb is None), "answers", f"uninterrupted finds {ra is not None}, resumed {rb is not None}", data)
    if ra is not None:
        if sm:
            na, nb = ra.number_of_rules(), rb.number_of_rules()
            ctx.check(na == nb, "answers", f"smallest: uninterrupted {na} rules, resumed {nb}", data)
            ctx.note("smallest", 1)
        for sp in (ra, rb):
            c01.enumerate_ok(ctx, sp, start, data, 4)
        classes = [b.classdb.get_class(i) for i in range(len(b.classdb.comb_class_list))]
        c02.judge(ctx, rb, start, pack, data, classes=classes)
        r = pickle.loads(pa)
        ctx.check(r == a, "restored-equal", "after extracting a specification the restored searcher differs", data)
        rc = specs_of(ctx, r, 5, data, sm)
        ctx.check(rc is not None, "answers", "the searcher pickled after success no longer finds a specification", data)
        c01.enumerate_ok(ctx, rc, start, data, 4)


CHILD = """
import pickle, sys
sys.path[:0] = [{bounded!r}]
import c17
from search import fake_clock
fake_clock(0.001)
with open({path!r}, "rb") as f:
    s = pickle.load(f)
out = []
for i in range({n}):
    out.append(c17.step(s))
    if i % 4 == 0:
        out.append(s.has_specification())
with open({out!r}, "wb") as f:
    pickle.dump((out, c17.universe(s), s.has_specification()), f)
"""


def fresh_process(ctx, name, pname, mode, db):
    rng = unit_rng(ctx, name)
    start = start_for(rng, pname)
    data = describe(start, pname, mode, db, restored="in a new process with another hash seed")
    ctx.input = data
    fake_clock(0.001)
    s = searcher(start, all_packs(mode)[pname], db)
    for _ in range(rng.choice([1, 4, 9, 15])):
        step(s)
    tmp = tempfile.mkdtemp()
    p, o = os.path.join(tmp, "s.pickle"), os.path.join(tmp, "out.pickle")
    try:
        with open(p, "wb") as f:
            pickle.dump(s, f)
        n = 12
        exp = []
        for i in range(n):
            exp.append(step(s))
            if i % 4 == 0:
                exp.append(s.has_specification())
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10000)), PYTHONPATH=REPO + ":" + here)
        pr = subprocess.run([sys.executable, "-B", "-c", CHILD.format(bounded=here, path=p, out=o, n=n)], env=env,
                            capture_output=True, timeout=100, check=False)
        if pr.returncode != 0:
            err = pr.stderr.decode(errors="replace")
            if "comb_spec_searcher/" in err.split("Traceback")[-1].rsplit("File", 1)[-1]:
                ctx.check(False, "restored-fails", "the restored searcher raised: " + err[-800:], data)
            raise RuntimeError(err[-2000:])
        with open(o, "rb") as f:
            out, uni, has = pickle.load(f)
    finally:
        for f in (p, o):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(tmp)
    ctx.check(out == exp, "packets", lambda: f"here {exp}, resumed in a new process {out}", data)
    mine = universe(s)
    for k in mine:
        ctx.check(mine[k] == uni[k], f"resumed-{k.split()[0]}", lambda: f"{k}: here {str(mine[k])[:300]}, new process {str(uni[k])[:300]}", data)
    ctx.check(has == s.has_specification(), "answers", "existence of a specification differs in the new process", data)
    ctx.ev((repr(start), pname, mode, db, "process"))


def interrupted(ctx, name, pname, mode, db):
    rng = unit_rng(ctx, name)
    start = start_for(rng, pname)
    pack = all_packs(mode)[pname]
    opts = {"expand_verified": rng.random() < 0.3}
    limit = rng.choice([0, 0, 0.01, 0.05])
    tick = rng.choice([0.00002, 0.0005, 0.004])
    repickle = rng.random() < 0.5
    data = describe(start, pname, mode, db, options=opts, max_expansion_time=limit, tick=tick, pickled_between=repickle)
    ctx.input = data
    fake_clock(tick)
    a = searcher(start, all_packs(mode)[pname], db, **opts)
    events = []
    cap = {"n": 0}

    def watch(s):
        q, real_q = s.classqueue, type(s.classqueue)

        class Watched(real_q):
            def __next__(self):
                cap["n"] += 1
                if cap["n"] > 70:
                    raise StopIteration
                try:
                    wp = real_q.__next__(self)
                except StopIteration:
                    events.append(("end",))
                    raise
                events.append(("packet", wp.label, repr(wp.strategies), wp.inferral))
                return wp
        q.__class__ = Watched
        db_, real_db = s.ruledb, type(s.ruledb)

        class Db(real_db):
            def has_specification(self):
                r = real_db.has_specification(self)
                events.append(("ask", r))
                return r
        Db.__name__ = real_db.__name__
        db_.__class__ = Db
        return real_q, real_db
    spec = None
    times = 0
    for _ in range(300):
        cls = watch(a)
        times += 1
        try:
            spec = a.auto_search(max_expansion_time=limit, perc=rng.choice([1, 50, 100]))
            break
        except ExceededMaxtimeError:
            a.classqueue.__class__, a.ruledb.__class__ = cls
            if repickle:
                r = pickle.loads(pickle.dumps(a))
                ctx.check(r == a, "restored-equal", "searcher restored after a time limit differs", data)
                a = r
            continue
        except SpecificationNotFound:
            break
    a.classqueue.__class__, a.ruledb.__class__ = cls
    # replay the same calls without interruption
    b = searcher(start, all_packs(mode)[pname], db, **opts)
    got = []
    for e in events:
        if e[0] == "ask":
            got.append(("ask", b.has_specification()))
        else:
            r = step(b)
            got.append(("end",) if r is None else ("packet", r[0], None, r[2]))
    want = [e if e[0] != "packet" else (e[0], e[1], None, e[3]) for e in events]
    ctx.check(got == want, "continues", lambda: f"interrupted {times - 1} times: {want[-6:]}; uninterrupted: {got[-6:]}", data)
    if spec is None:
        same(ctx, a, b, "continued", data)
    ctx.check(b.has_specification() == a.has_specification(), "answers", "existence differs from the uninterrupted search", data)
    ctx.ev((repr(start), pname, mode, db, limit, tick))
    ctx.note("interruptions", times - 1)
    if spec is not None:
        c01.enumerate_ok(ctx, spec, start, data, 5)
        classes = [a.classdb.get_class(i) for i in range(len(a.classdb.comb_class_list))]
        c02.judge(ctx, spec, start, pack, data, classes=classes)
        ctx.note("specs")


def levels(ctx, name, pname, mode, db):
    """level-wise searches, pickled between levels"""
    rng = unit_rng(ctx, name)
    start = start_for(rng, pname)
    data = describe(start, pname, mode, db, pickled="between levels")
    ctx.input = data
    fake_clock(0.001)
    a = searcher(start, all_packs(mode)[pname], db)
    b = searcher(start, all_packs(mode)[pname], db)
    for lev in range(3):
        b2 = pickle.loads(pickle.dumps(b))
        ctx.check(b2 == b, "restored-equal", f"after level {lev} the restored searcher differs", data)
        b = b2
        ends = []
        for s in (a, b):
            try:
                s.do_level()
                ends.append("level")
            except NoMoreClassesToExpandError:
                ends.append("end")
        ctx.check(ends[0] == ends[1], "level-end", f"level {lev}: uninterrupted {ends[0]}, resumed {ends[1]}", data)
        same(ctx, a, b, "resumed", data)
        ctx.ev((repr(start), pname, mode, db, "level", lev))
        if ends[0] == "end" or len(a.classdb.comb_class_list) > 80:
            break


def units(tier, seed):
    us = []
    n = 3 if tier == "quick" else 12
    modes = ("keep", "drop", "merge", "canon", "rand1")
    dbs = ("default", "forget", "forest", "forestnr")
    for i, pname in enumerate(PACKS):
        for j, db in enumerate(dbs):
            for k in range(n):
                mode = modes[(i + j + k) % len(modes)]
                nm = f"pickled/{pname}/{mode}/{db}/{k}"
                us.append(Unit(nm, pickled, nm, pname, mode, db, timeout=90))
                nm = f"interrupted/{pname}/{mode}/{db}/{k}"
                us.append(Unit(nm, interrupted, nm, pname, mode, db, timeout=90))
        for k in range(n):
            db = dbs[(i + k) % 4]
            nm = f"levels/{pname}/{db}/{k}"
            us.append(Unit(nm, levels, nm, pname, modes[i % 5], db, timeout=60))
            if i % 3 == 0 or tier != "quick":
                nm = f"process/{pname}/{db}/{k}"
                us.append(Unit(nm, fresh_process, nm, pname, modes[i % 5], db, timeout=120))
    for pname in ("infer", "half", "foreign"):
        for db in dbs:
            nm = f"pickledB/{pname}/{db}"
            us.append(Unit(nm, pickled, nm, pname, "keep", db, "LangB", timeout=90))
    return us
