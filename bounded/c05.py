"""C05 bounded stand-in: pruning, specification detection and proof-tree finders against
brute-force fixed points and enumeration of rule choices."""
import itertools
import random

from core import Skip, Unit, unit_rng

from comb_spec_searcher import tree_searcher as ts
from comb_spec_searcher.rule_db.base import RuleDB
from comb_spec_searcher.strategies.rule import VerificationRule

RULE = ("a case is one database state (after an insertion) or one finder call on a random rule set; "
        "non-trivial: distinct (rules, finder)")
BOUND = "<= 9 labels, <= 14 rules of arity <= 3 per database; generators compared on <= 5 labels, <= 3 rules each"


# ------------------------------------------------------------- fakes around the database
class FakeStrategy:
    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return self.key == other.key


class FakeRule:
    def __init__(self, key, children, two, pe):
        self.strategy = FakeStrategy(key)
        self.children = children
        self._two = two
        self.possibly_empty = pe

    def is_two_way(self):
        return self._two


class FakeVer(VerificationRule):
    # pylint: disable=super-init-not-called
    def __init__(self, key):
        self._st = FakeStrategy(key)

    strategy = property(lambda self: self._st)
    children = property(lambda self: ())
    possibly_empty = property(lambda self: False)


class FakeQueue:
    def __init__(self):
        self.stopped = []

    def set_stop_yielding(self, label):
        self.stopped.append(label)


class FakePack:
    def __init__(self, iterative):
        self.iterative = iterative

    def __iter__(self):
        return iter(())


class FakeClassDB:
    def __init__(self, empties):
        self.empties = empties

    def is_empty(self, c, label=None):
        return c in self.empties


class FakeSearcher:
    def __init__(self, root, iterative, empties=()):
        self.start_label = root
        self.strategy_pack = FakePack(iterative)
        self.classdb = FakeClassDB(set(empties))
        self.classqueue = FakeQueue()


# ------------------------------------------------------------- oracle
def sccs(labels, edges):
    r = {a: {a} for a in labels}
    for a, b in edges:
        r[a].add(b)
    for k in labels:
        for a in labels:
            if k in r[a]:
                r[a] |= r[k]
    rep = {}
    for a in labels:
        rep[a] = min(b for b in labels if b in r[a] and a in r[b])
    return rep


def quotient(labels, rules, rep):
    q = {}
    for p, cs in rules:
        if len(cs) == 1 and rep[p] == rep[cs[0]]:
            continue
        q.setdefault(rep[p], set()).add(tuple(sorted(rep[c] for c in cs)))
    return q


def gfp(q):
    alive = set(q)
    while True:
        new = {k for k in alive if any(all(c in alive for c in r) for r in q[k])}
        if new == alive:
            return alive
        alive = new


def bottom_up(q, root):
    got, ver = set(), {root}
    while True:
        new = {k for k in q if any(all(c in ver for c in r) for r in q[k])}
        if new == got:
            return got
        got = new
        ver = got | {root}


def min_size(q, alive, root):
    """size of the smallest proof tree by enumerating one rule per reached class"""
    best = [None]
    q = {k: sorted(r for r in q[k] if all(c in alive for c in r)) for k in alive}

    def rec(chosen, todo, size):
        if best[0] is not None and size >= best[0]:
            return
        if not todo:
            best[0] = size
            return
        k = todo[0]
        for r in q[k]:
            nw = [c for c in dict.fromkeys(r) if c != k and c not in chosen and c not in todo]
            rec(chosen | {k}, todo[1:] + nw, size + len(r))
    rec(frozenset(), [root], 1)
    return best[0]


def tree_ok(node, q, root):
    """None if a proof tree for root over the rule sets q, else what is wrong"""
    if node is None or node.label != root:
        return f"root of the tree is {getattr(node, 'label', None)}, not {root}"
    rules, stack, labels, steps = {}, [node], set(), 0
    seen_ids = {}
    while stack:
        v = stack.pop()
        steps += 1
        if steps > 20000:
            return "tree too large"
        labels.add(v.label)
        if v.children and id(v) not in seen_ids:
            seen_ids[id(v)] = v
            rules.setdefault(v.label, set()).add(tuple(sorted(c.label for c in v.children)))
            stack.extend(v.children)
    for lab in labels:
        rs = rules.get(lab, set())
        if len(rs) > 1:
            return f"class {lab} is given several rules {sorted(rs)}"
        r = next(iter(rs)) if rs else ()
        if r not in q.get(lab, ()):
            return f"class {lab} is given {lab} -> {r}, which is not recorded" if rs else f"class {lab} has no rule"
    return None


def rand_rules(rng, n, m, one=0.25, two=0.2, leaf=0.15):
    out = []
    for _ in range(m):
        p = rng.randrange(n)
        x = rng.random()
        if x < leaf:
            out.append(("ver", p, ()))
        elif x < leaf + one:
            out.append(("one", p, (rng.randrange(n),)))
        elif x < leaf + one + two:
            out.append(("two", p, (rng.randrange(n),)))
        else:
            out.append(("rule", p, tuple(rng.randrange(n) for _ in range(rng.choice([2, 2, 3])))))
    return [r for r in out if not (r[0] in ("one", "two") and r[2] == (r[1],))]


def add(db, r, kids=None, pe=False):
    kind, p, cs = r
    if kind == "ver":
        db.add(p, (), FakeVer(r))
    else:
        db.add(p, cs, FakeRule(r, kids or cs, kind == "two", pe))


def database(ctx, name, iterative, n, m):
    rng = unit_rng(ctx, name)
    for _ in range(6):
        rules = rand_rules(rng, n, m, leaf=rng.choice([0.1, 0.2, 0.35]))
        root = rng.randrange(n)
        empties = set()
        if rng.random() < 0.3:
            empties = {n, n + 1}
        db = RuleDB()
        db.link_searcher(FakeSearcher(root, iterative, empties))
        rec, edges = set(), set()
        check_each = rng.random() < 0.7
        for i, r in enumerate(rules):
            kind, p, cs = r
            kids, pe = cs, False
            if empties and kind != "ver" and rng.random() < 0.5:
                kids = list(cs) + [rng.choice(sorted(empties))]
                rng.shuffle(kids)
                kids, pe = tuple(kids), True
            add(db, (kind, p, kids), kids, pe)
            rec.add((p, tuple(sorted(cs))))
            if kind in ("one", "two"):
                edges.add((p, cs[0]))
                if kind == "two":
                    edges.add((cs[0], p))
            if not check_each and i != len(rules) - 1:
                continue
            data = {"iterative": iterative, "root": root, "empty labels": sorted(empties), "rules": rules[: i + 1]}
            ctx.input = data
            labels = set(range(n))
            rep = sccs(labels, edges)
            q = quotient(labels, rec, rep)
            alive = bottom_up(q, rep[root]) if iterative else gfp(q)
            exp = rep[root] in alive
            got = db.has_specification()
            ctx.check(got is exp, "has_specification", f"has_specification is {got}, expected {exp}", data)
            for lab in [] if iterative else labels:
                v = db.is_verified(lab)
                ctx.check(v is (rep[lab] in alive), "is_verified",
                          f"is_verified({lab}) is {v}, expected {rep[lab] in alive}", data)
            ctx.check({(a, tuple(b)) for a, b in db} <= rec, "recorded",
                      "the database iterates a rule that was not inserted", data)
            ctx.ev((iterative, root, tuple(rules[: i + 1])))
            if exp:
                # finders speak about the database's own representatives
                mp = {lab: db.equivdb[lab] for lab in labels}
                dq = {}
                for k, rs in q.items():
                    dq[mp[k]] = {tuple(sorted(mp[c] for c in x)) for x in rs}
                modes = [False] if iterative else [False, True]
                for smallest in modes:
                    node = db._get_specification_node(minimization_time_limit=0, smallest=smallest)
                    bad = tree_ok(node, dq, mp[root])
                    ctx.check(bad is None, "tree", f"{bad} (smallest={smallest}): {node}", data)
                    if smallest:
                        best = min_size(q, alive, rep[root])
                        ctx.check(len(node) == best, "smallest",
                                  f"the 'smallest' tree has {len(node)} nodes, the minimum is {best}", data)
                if not iterative and n <= 5:
                    for node in itertools.islice(db._all_nodes(), 200):
                        bad = tree_ok(node, dq, mp[root])
                        ctx.check(bad is None, "all-nodes", f"{bad}: {node}", data)


def rand_dict(rng, n, k, arity=3):
    d = {}
    for i in range(n):
        rs = set()
        for _ in range(rng.randint(0, k)):
            if rng.random() < 0.25:
                rs.add(())
            else:
                rs.add(tuple(sorted(rng.randrange(n) for _ in range(rng.randint(1, arity)))))
        if rs:
            d[i] = rs
    return d


def cp(d):
    return {k: set(v) for k, v in d.items()}


def all_choices(q, root):
    """set of frozenset((label, rule)) of all proof trees: one rule per reached class"""
    out = set()

    def rec(chosen, todo):
        if not todo:
            out.add(frozenset(chosen.items()))
            return
        k = todo[0]
        for r in q[k]:
            nw = [c for c in dict.fromkeys(r) if c != k and c not in chosen and c not in todo]
            rec({**chosen, k: r}, todo[1:] + nw)
    rec({}, [root])
    return out


def finders(ctx, name, n, k):
    rng = unit_rng(ctx, name)
    for _ in range(12):
        d = rand_dict(rng, n, k)
        data = {"rules": {a: sorted(b) for a, b in d.items()}}
        ctx.input = data
        alive = gfp(d)
        p = cp(d)
        ts.prune(p)
        exp = {a: {r for r in d[a] if all(c in alive for c in r)} for a in alive}
        ctx.check(p == exp, "prune", f"prune left {p}, the greatest fixed point is {exp}", data)
        ctx.ev(("prune", str(data)))
        for root in range(n):
            # iterative
            q = {a: set(b) for a, b in d.items()}
            bu = bottom_up(q, root)
            ip = ts.iterative_prune(cp(d), root=root)
            ver = bu | {root}
            expi = {a: {r for r in d[a] if all(c in ver for c in r)} for a in bu}
            ctx.check(dict(ip) == expi, "iterative_prune", f"iterative_prune(root={root}) gave {dict(ip)}, expected {expi}", data)
            ctx.ev(("iprune", root, str(data)))
            if root in bu:
                node = ts.iterative_proof_tree_finder(cp(d), root)
                bad = tree_ok(node, d, root)
                ctx.check(bad is None, "iterative-tree", f"{bad}: {node}", data)
                # recursion only to the root
                ctx.check(recursion_free(node, root), "iterative-recursion", f"{node}: recursion to a non-root class", data)
                node = ts.iterative_proof_tree_finder({a: set(b) for a, b in ip.items()}, root)
                ctx.check(tree_ok(node, d, root) is None, "iterative-tree-pruned", str(node), data)
            else:
                try:
                    node = ts.iterative_proof_tree_finder(cp(d), root)
                    ctx.check(False, "iterative-no-tree", f"a tree {node} for an underivable root", data)
                except ValueError:
                    pass
            if root not in alive:
                continue
            for f in ("dfs", "random", "smallish"):
                for _ in range(4):
                    random.seed(rng.random())
                    if f == "dfs":
                        node = ts.proof_tree_dfs(cp(exp), root)[1]
                    elif f == "random":
                        node = ts.random_proof_tree(cp(exp), root)
                    else:
                        node = ts.smallish_random_proof_tree(cp(exp), root, 0.001)
                    bad = tree_ok(node, exp, root)
                    ctx.check(bad is None, f"tree-{f}", f"{f}: {bad}: {node}", data)
                    ctx.ev((f, root, str(data)))
            if n > 5:
                continue
            cap = 400
            trees = list(itertools.islice(ts.proof_tree_generator_dfs(cp(exp), root), cap))
            keys = set()
            for node in trees:
                bad = tree_ok(node, exp, root)
                ctx.check(bad is None, "generator-dfs", f"{bad}: {node}", data)
                keys.add(frozenset(node.rule_keys()))
            ch = all_choices(exp, root)
            if len(trees) < cap:
                ctx.check(keys == ch, "generator-dfs-complete",
                          f"{len(keys)} rule choices generated, {len(ch)} exist", data)
                mn = min(1 + sum(len(r) for _, r in c) for c in ch)
                for mx in range(0, mn + 2):
                    g = list(itertools.islice(ts.proof_tree_generator_dfs(cp(exp), root, maximum=mx), cap))
                    ctx.check(bool(g) == (mx >= mn), "generator-dfs-maximum",
                              f"maximum={mx}: {len(g)} trees although the smallest has {mn} nodes", data)
                    for node in g:
                        ctx.check(len(node) <= mx and tree_ok(node, exp, root) is None,
                                  "generator-dfs-bound", f"maximum={mx}: {node}", data)
            for node in itertools.islice(ts.proof_tree_generator_bfs(cp(exp), root), 60):
                bad = tree_ok(node, exp, root)
                ctx.check(bad is None, "generator-bfs", f"{bad}: {node}", data)
    ctx.samples.append(data)


def recursion_free(node, root):
    rules = {}
    stack, ids = [node], set()
    while stack:
        v = stack.pop()
        if id(v) in ids:
            continue
        ids.add(id(v))
        if v.children:
            rules[v.label] = [c.label for c in v.children]
            stack.extend(v.children)
    state = {}

    def acyclic(k):
        if k == root and state.get("started"):
            return True
        state["started"] = True
        if state.get(k) == 1:
            return False
        if state.get(k) == 2:
            return True
        state[k] = 1
        ok = all(acyclic(c) for c in rules.get(k, ()))
        state[k] = 2
        return ok
    return acyclic(root)


def units(tier, seed):
    n = 24 if tier == "quick" else 250
    us = []
    for k in range(n):
        for it in (False, True):
            for j, (a, b) in enumerate([(4, 7), (6, 12), (9, 14), (5, 10)]):
                nm = f"database/{'iter' if it else 'plain'}/{j}/{k}"
                us.append(Unit(nm, database, nm, it, a, b, timeout=40))
        for j, (a, b) in enumerate([(3, 3), (4, 2), (5, 2), (7, 3)]):
            nm = f"finders/{j}/{k}"
            us.append(Unit(nm, finders, nm, a, b, timeout=40))
    return us
