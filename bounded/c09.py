"""C09/C10 bounded stand-in: every rule form evaluated on the true terms of its children."""
from core import Skip, Unit, unit_rng
import dom

from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.rule import EquivalencePathRule

RULE = ("a case is the terms of one size computed by one rule form from the enumerated terms of its "
        "children, compared with the enumerated terms of its left-hand side; non-trivial: distinct "
        "(class, strategy, form, size) with a non-zero count")
BOUND = "word/Dyck languages with <= 3 letters and <= 3 statistics, sizes <= 6, chains of <= 4 equivalences"
NMAX = 6


def strategies(mode):
    return [dom.Expand(mode), dom.Half(mode), dom.Next(mode), dom.Split(mode), dom.Split2(mode),
            dom.SplitLast(mode), dom.CatSplit(mode), dom.DyckUnion(mode), dom.DyckProd(mode),
            dom.Reduce(mode), dom.DropLetter(mode), dom.Normal(mode), dom.Same(mode), dom.Sym(), dom.Twist(mode), dom.Turn(mode)]


def classes(rng, mode, count, depth=2):
    todo = dom.start_classes(rng, count, cat=0.35)
    seen = dict.fromkeys(todo)
    for _ in range(depth):
        nxt = []
        for c in todo:
            for st in strategies(mode):
                kids = st.decomposition_function(c)
                for k in kids or ():
                    if k not in seen and not k.is_empty():
                        seen[k] = None
                        nxt.append(k)
        todo = rng.sample(nxt, min(len(nxt), 6))
    return list(seen)


def base_rules(c, mode):
    for st in strategies(mode):
        try:
            rule = st(c)
            if rule.children is None:
                continue
        except StrategyDoesNotApply:
            continue
        yield rule


def forms(rule):
    """(name, derived rule) for every form the library derives from a rule"""
    yield "rule", lambda: rule
    if rule.is_reversible():
        for i, k in enumerate(rule.children):
            if not k.is_empty():
                yield f"reverse({i})", lambda i=i: rule.to_reverse_rule(i)
    if rule.is_equivalence():
        i = next(i for i, k in enumerate(rule.children) if not k.is_empty())
        yield "equivalence", lambda: rule.to_equivalence_rule()
        yield "equivalence.reverse", lambda: rule.to_equivalence_rule().to_reverse_rule(0)
        if rule.to_reverse_rule(i).is_equivalence():
            yield "reverse.equivalence", lambda: rule.to_reverse_rule(i).to_equivalence_rule()
        yield "path", lambda: EquivalencePathRule([rule if len(rule.children) == 1 else rule.to_equivalence_rule()])


def providers(rule, log):
    def make(i, child):
        def get(n):
            log.append((i, n))
            return child.true_terms(n)
        return get
    return tuple(make(i, c) for i, c in enumerate(rule.children))


def check_form(ctx, rule, data, nmax=NMAX, shifts=False):
    log = []
    rule.subterms = providers(rule, log)
    sh = rule.shifts() if shifts else None
    own = rule.get_terms if shifts else None
    for n in range(nmax + 1):
        log.clear()
        if shifts:
            ownlog = []

            def spy(m, n=n, ownlog=ownlog):
                ownlog.append(m)
                return rule.terms_cache[m] if m < n else rule.comb_class.true_terms(m)
            terms = rule.constructor.get_terms(spy, rule.subterms, n)
            rule.terms_cache.append(terms)
            ctx.check(len(sh) == len(rule.children), "shift-count", f"{len(sh)} shifts for {len(rule.children)} children", data)
            for i, m in log:
                ctx.check(m <= n - sh[i], "reads-beyond-shift",
                          f"terms of size {n} read child {i} at size {m}, declared shifts {sh}", data)
            for m in ownlog:
                ctx.check(m < n, "reads-own-term", f"terms of size {n} read the class's own terms of size {m}", data)
            ctx.ev((repr(rule.comb_class), repr(rule.strategy), data["form"], n) if log or ownlog else None)
        else:
            terms = rule.get_terms(n)
            true = rule.comb_class.true_terms(n)
            ctx.check(isinstance(terms, dict) and {k: v for k, v in terms.items() if v} == dict(true), "terms",
                      lambda: f"size {n}: computed {dict(terms)}, true {dict(true)}", data)
            ctx.ev((repr(rule.comb_class), repr(rule.strategy), data["form"], n) if true else None)
    del own


def one(ctx, name, mode, shifts):
    rng = unit_rng(ctx, name)
    for c in classes(rng, mode, 3):
        for rule in base_rules(c, mode):
            for fname, make in forms(rule):
                data = {"class": repr(c), "strategy": f"dom.{rule.strategy!r}", "form": fname,
                        "children": [repr(k) for k in rule.children]}
                ctx.input = data
                check_form(ctx, make(), data, shifts=shifts)
                if rng.random() < 0.02:
                    ctx.samples.append(data)


def chain_steps(c, mode):
    """equivalence rules leaving c, and reverses of those entering it, as the extractors build them"""
    for rule in base_rules(c, mode):
        if rule.is_equivalence():
            e = rule if len(rule.children) == 1 else rule.to_equivalence_rule()
            yield c, e.children[0], rule, False
            yield e.children[0], c, rule, True


def chains(ctx, name, mode, shifts):
    rng = unit_rng(ctx, name)
    edges = {}
    # statistics renamed in different ways, so that several forms of the same class exist
    modes = [mode, "canon", "merge", "drop", f"rand{rng.randrange(1000)}", f"rand{rng.randrange(1000)}"]
    cs = []
    for _ in range(3):
        cs.extend(classes(rng, mode, 1, depth=1))
    seen = set(cs)
    todo = list(cs)
    for _ in range(2):
        nxt = []
        for c in todo:
            for m in modes:
                for a, b, rule, rev in chain_steps(c, m):
                    edges.setdefault(a, []).append((b, rule, rev))
                    for k in (a, b):
                        if k not in seen:
                            seen.add(k)
                            nxt.append(k)
        todo = rng.sample(nxt, min(len(nxt), 12))
    for _ in range(60):
        if not edges:
            return
        a = cur = rng.choice(sorted(edges))
        path = []
        for _ in range(rng.randint(2, 4)):
            if cur not in edges:
                break
            b, rule, rev = rng.choice(edges[cur])
            e = rule if len(rule.children) == 1 else rule.to_equivalence_rule()
            style = rng.randrange(2)
            if rev:
                r = e.to_reverse_rule(0)
            else:
                r = e
            if style and len(r.children) == 1 and type(r).__name__ != "EquivalenceRule":
                r = r.to_equivalence_rule() if r.is_equivalence() else r
            if not r.is_equivalence():
                break
            path.append((r, rule, rev))
            cur = b
        if not path:
            continue
        data = {"class": repr(a), "form": "path", "chain": [
            ("reverse of " if rev else "") + f"dom.{rule.strategy!r} on {rule.comb_class!r}" for _, rule, rev in path]}
        ctx.input = data
        check_form(ctx, EquivalencePathRule([r for r, _, _ in path]), data, shifts=shifts)


def _units(tier, shifts):
    n = 3 if tier == "quick" else 30
    us = []
    for mode in ("keep", "drop", "merge", "canon") + tuple(f"rand{i}" for i in range(6)):
        for k in range(n):
            nm = f"forms/{mode}/{k}"
            us.append(Unit(nm, one, nm, mode, shifts, timeout=60))
            nm = f"chains/{mode}/{k}"
            us.append(Unit(nm, chains, nm, mode, shifts, timeout=60))
    return us


def units(tier, seed):
    return _units(tier, False)
