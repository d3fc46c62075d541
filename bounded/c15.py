"""C15 bounded stand-in: random histories on ClassDB against a list-of-classes oracle."""
import pickle

from core import Unit, unit_rng
from dom import Lang, LangB, LangH

from comb_spec_searcher.class_db import ClassDB

RULE = ("a case is one operation of a random history (get_label, get_class, in, is_empty, "
        "set_empty) over freshly built equal copies of random classes; non-trivial: distinct "
        "(class kind, operation, argument, database size)")
BOUND = "histories of <= 60 operations over <= 12 distinct classes, plain/compressed/hash-colliding"


class Empt(Lang):
    calls = 0

    def is_empty(self):
        Empt.calls += 1
        return super().is_empty()


class EmptB(LangB):
    def is_empty(self):
        Empt.calls += 1
        return super().is_empty()


class LangHB(LangB):
    """several classes share their hash and are compressed"""

    def __hash__(self):
        return 3


KINDS = {"plain": Lang, "bytes": LangB, "collide": LangH, "count": Empt, "countb": EmptB,
         "collideb": LangHB}


def pool(rng, cls):
    out = []
    while len(out) < 12:
        alph = rng.choice(["a", "ab"])
        pre = "".join(rng.choice("ab") for _ in range(rng.choice([0, 0, 1, 2])))
        pats = tuple(sorted({"".join(rng.choice("ab") for _ in range(rng.choice([1, 2])))
                             for _ in range(rng.choice([0, 1, 2]))}))
        st = rng.choice([(), (("k", "a"),), (("k", "b"),)])
        a = ("W", (pre, pats, alph, rng.random() < 0.3), st)
        if a not in out:
            out.append(a)
    return [lambda a=a: cls(*a) for a in out]


def history(ctx, name, kind, steps):
    rng = unit_rng(ctx, name)
    cls = KINDS[kind]
    mk = pool(rng, cls)
    db = ClassDB(cls)
    model = []  # classes by label
    truth = {}
    trace = []
    for _ in range(steps):
        op = rng.choice(["label", "label", "label", "class", "in", "inlabel", "empty", "empty2",
                         "foreign", "len", "sweep", "pickle", "add", "classc"])
        i = rng.randrange(len(mk))
        c = mk[i]()
        trace.append((op, i, repr(c)))
        ctx.input = {"class kind": kind, "history": trace}

        def lab(x):
            for k, y in enumerate(model):
                if y == x:
                    return k
            model.append(x)
            return len(model) - 1

        if op == "label":
            exp = lab(c)
            got = db.get_label(c)
            ctx.check(got == exp and type(got) is int, "label", f"get_label gave {got}, expected {exp}")
            ctx.check(db.get_label(got) == got, "label-of-label", "get_label(label) != label")
        elif op == "add":
            try:
                db.add(c)
            except TypeError:
                pass
            else:
                lab(c)
        elif op == "class" and model:
            k = rng.randrange(len(model))
            ctx.check(db.get_class(k) == model[k], "class", f"class {k} is {db.get_class(k)!r}, stored {model[k]!r}")
        elif op == "classc":
            lab(c)
            ctx.check(db.get_class(c) == c, "class-of-class", "get_class(c) != c")
        elif op == "in":
            exp = any(y == c for y in model)
            ctx.check((c in db) is exp, "in-class", f"{c!r} in db is {c in db}, expected {exp}")
        elif op == "inlabel":
            for k in (len(model), len(model) - 1, -1, -len(model), 0, len(model) + 5, -len(model) - 1,
                      10 ** 30, True if len(model) > 1 else 0):
                exp = 0 <= k < len(model)
                got = k in db
                ctx.check(got is exp, f"in-label", f"{k} in db is {got}, with {len(model)} labels")
        elif op == "foreign":
            for x in ("abc", b"xx", None, 1.5, (1, 2), "a", [1], {}, object()):
                try:
                    got = x in db
                except Exception as e:  # pylint: disable=broad-except
                    ctx.check(False, "in-foreign-raises", f"{x!r} in db raised {e!r}")
                ctx.check(got is False, "in-foreign", f"{x!r} in db is {got}")
        elif op in ("empty", "empty2"):
            exp0 = lab(c)
            db.get_label(c)
            exp = Lang(c.kind, c.data, c.stats).is_empty()
            got = db.is_empty(c) if op == "empty" else db.is_empty(c, exp0)
            ctx.check(got is exp, "empty", f"is_empty({c!r}) is {got}, the class says {exp}")
            truth[exp0] = exp
            before = Empt.calls
            ctx.check(db.is_empty(mk[i]()) is exp, "empty-again", "the second answer differs")
            if kind.startswith("count"):
                ctx.check(Empt.calls == before, "empty-cached", "emptiness recomputed though cached")
            if rng.random() < 0.3:
                db.set_empty(c if rng.random() < 0.5 else exp0, exp)
                ctx.check(db.is_empty(c) is exp, "set-empty", "set_empty lost")
        elif op == "pickle":
            db2 = pickle.loads(pickle.dumps(db))
            ctx.check(db2 == db, "pickle-eq", "the unpickled database differs")
            if rng.random() < 0.5:
                db = db2
        elif op == "len":
            ctx.check(len(list(iter(db.label_to_info))) == len(model) if hasattr(db, "label_to_info") else True,
                      "len", "number of labels differs from the number of distinct classes")
        elif op == "sweep":
            for k, y in enumerate(model):
                ctx.check(db.get_class(k) == y, "class", f"class {k} changed: {db.get_class(k)!r} was {y!r}")
                ctx.check(db.get_label(cls(y.kind, y.data, y.stats)) == k, "label",
                          f"label of {y!r} is {db.get_label(y)}, was {k}")
            for k, e in truth.items():
                ctx.check(db.is_empty(model[k], k) is e, "empty-later", f"emptiness of label {k} changed")
        ctx.ev((kind, op, i, len(model)))
    ctx.samples.append({"kind": kind, "first operations": trace[:4], "classes": len(model)})


def huge(ctx, name):
    """sizes beyond a byte/word: many classes"""
    for cls in (Lang, LangB):
        db = ClassDB(cls)
        n = 1500
        for r in range(2):
            for k in range(n):
                c = cls("F", ("a" * k,))
                ctx.check(db.get_label(c) == k, "label-many", f"class {k} labelled {db.get_label(c)}")
        for k in range(n):
            ctx.check(db.get_class(k) == cls("F", ("a" * k,)), "class-many", f"label {k}")
            ctx.ev((cls.__name__, k))


def raising(ctx, name):
    """lookups of unknown labels raise KeyError, foreign objects TypeError, and change nothing"""
    for cls in (Lang, LangB):
        db = ClassDB(cls)
        for k in range(4):
            db.get_label(cls("F", ("a" * k,)))
        for bad, err in ((4, KeyError), (-1, KeyError), (99, KeyError), ("x", TypeError), (None, TypeError)):
            for f in (db.get_label, db.get_class):
                try:
                    f(bad)
                except err:
                    pass
                except Exception as e:  # pylint: disable=broad-except
                    ctx.fail("lookup-error", f"{f.__name__}({bad!r}) raised {e!r} instead of {err.__name__}")
                else:
                    ctx.fail("lookup-no-error", f"{f.__name__}({bad!r}) answered")
                ctx.ev((cls.__name__, str(bad), f.__name__))
        ctx.check(db.get_label(cls("F", ("zz",))) == 4, "label-after-errors", "labels not dense after failed lookups")


def units(tier, seed):
    n = 40 if tier == "quick" else 600
    us = [Unit(f"huge", huge, "huge"), Unit("raising", raising, "raising")]
    for k in range(n):
        for kind in KINDS:
            nm = f"history/{kind}/{k}"
            us.append(Unit(nm, history, nm, kind, 60))
    return us
