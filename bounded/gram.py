"""Classes of derivation trees of small grammars: specifications of arbitrary shape.

A grammar is a tuple of nodes: ("a", size) atom, ("0",) empty, ("+", children) tagged union,
("*", children) tuple.  The objects of a node are its derivation trees, enumerated from the
grammar itself."""
from itertools import product

from comb_spec_searcher import (AtomStrategy, CartesianProductStrategy, CombinatorialClass, CombinatorialObject,
                                CombinatorialSpecification, DisjointUnionStrategy)
from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies import EmptyStrategy


class Tree(CombinatorialObject):
    __slots__ = ("tag", "parts", "n")

    def __init__(self, tag, parts=(), n=None):
        self.tag, self.parts = tag, tuple(parts)
        self.n = sum(p.n for p in self.parts) if n is None else n

    def size(self):
        return self.n

    def __len__(self):
        return self.n

    def key(self):
        return (self.tag, tuple(p.key() for p in self.parts), self.n)

    def __eq__(self, other):
        return isinstance(other, Tree) and self.key() == other.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.tag}({', '.join(map(repr, self.parts))})" if self.parts else f"{self.tag}"

    def __lt__(self, other):
        return repr(self) < repr(other)


class Bad(Exception):
    """the grammar is not productive"""


class Gram:
    def __init__(self, nodes):
        self.nodes = nodes
        self.memo = {}
        self.minm = [None] * len(nodes)
        for _ in range(len(nodes) + 1):
            for i, nd in enumerate(nodes):
                if nd[0] == "a":
                    self.minm[i] = nd[1]
                elif nd[0] == "+":
                    ms = [self.minm[c] for c in nd[1] if self.minm[c] is not None]
                    self.minm[i] = min(ms) if ms else None
                elif nd[0] == "*":
                    ms = [self.minm[c] for c in nd[1]]
                    self.minm[i] = None if None in ms else sum(ms)

    def objects(self, i, n):
        k = (i, n)
        if k in self.memo:
            r = self.memo[k]
            if r is None:
                raise Bad
            return r
        self.memo[k] = None
        nd = self.nodes[i]
        if self.minm[i] is None or n < self.minm[i]:
            r = ()
        elif nd[0] == "a":
            r = (Tree("a", (), nd[1]),) if n == nd[1] else ()
        elif nd[0] == "+":
            r = tuple(Tree(f"+{j}", (o,)) for j, c in enumerate(nd[1]) if self.minm[c] is not None
                      for o in self.objects(c, n))
        else:
            out = []
            mins = [self.minm[c] for c in nd[1]]
            for sizes in comps(n, mins):
                out.extend(Tree("*", os) for os in product(*(self.objects(c, s) for c, s in zip(nd[1], sizes))))
            r = tuple(out)
        self.memo[k] = r
        return r


def comps(n, mins):
    if not mins:
        if n == 0:
            yield ()
        return
    for s in range(mins[0], n - sum(mins[1:]) + 1):
        for r in comps(n - s, mins[1:]):
            yield (s,) + r


_GRAMS = {}


def gram(nodes):
    if nodes not in _GRAMS:
        _GRAMS[nodes] = Gram(nodes)
    return _GRAMS[nodes]


def to_t(x):
    return tuple(to_t(y) for y in x) if isinstance(x, (list, tuple)) else x


class Node(CombinatorialClass):
    def __init__(self, nodes, i):
        self.nodes, self.i = to_t(nodes), i

    @property
    def g(self):
        return gram(self.nodes)

    def is_empty(self):
        return self.g.minm[self.i] is None

    def is_atom(self):
        return self.nodes[self.i][0] == "a"

    def minimum_size_of_object(self):
        return self.g.minm[self.i]

    def objects_of_size(self, n, **parameters):
        yield from self.g.objects(self.i, n)

    def has(self, o):
        return isinstance(o, Tree) and o in self.g.objects(self.i, o.n)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["nodes"], d["i"] = self.nodes, self.i
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["nodes"], d["i"])

    def __eq__(self, other):
        return isinstance(other, Node) and (self.i, self.nodes) == (other.i, other.nodes)

    def __hash__(self):
        return hash((self.i, self.nodes))

    def __repr__(self):
        return f"Node({self.nodes!r}, {self.i})"

    def __str__(self):
        return repr(self)


class GUnion(DisjointUnionStrategy):
    def decomposition_function(self, c):
        nd = c.nodes[c.i]
        return tuple(Node(c.nodes, k) for k in nd[1]) if nd[0] == "+" else None

    def forward_map(self, comb_class, obj, children=None):
        j = int(obj.tag[1:])
        return tuple(obj.parts[0] if k == j else None for k in range(len(comb_class.nodes[comb_class.i][1])))

    def backward_map(self, comb_class, objs, children=None):
        for k, o in enumerate(objs):
            if o is not None:
                yield Tree(f"+{k}", (o,))

    def formal_step(self):
        return "union"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return "GUnion()"


class GProd(CartesianProductStrategy):
    def decomposition_function(self, c):
        nd = c.nodes[c.i]
        return tuple(Node(c.nodes, k) for k in nd[1]) if nd[0] == "*" else None

    def forward_map(self, comb_class, obj, children=None):
        return obj.parts

    def backward_map(self, comb_class, objs, children=None):
        yield Tree("*", objs)

    def formal_step(self):
        return "product"

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return "GProd()"


def specification(nodes, root=0):
    """the specification of the grammar's own rules; Bad when it is not productive or not reachable"""
    g = gram(nodes)
    if g.minm[root] is None:
        raise Bad
    todo, seen, rules = [root], set(), []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        c = Node(nodes, i)
        if g.minm[i] is None:
            continue
        kind = nodes[i][0]
        st = AtomStrategy() if kind == "a" else GUnion() if kind == "+" else GProd()
        r = st(c)
        if kind == "+":
            live = [k for k in nodes[i][1] if g.minm[k] is not None]
            if len(live) == 1 and len(nodes[i][1]) > 1:
                r = r.to_equivalence_rule()
            todo.extend(live)
        elif kind == "*":
            todo.extend(nodes[i][1])
        rules.append(r)
    for n in range(7):
        for i in seen:
            if sum(1 for _ in g.objects(i, n)) > 400:
                raise Bad
    return CombinatorialSpecification(Node(nodes, root), rules)


def random_nodes(rng, k):
    """k inner nodes followed by atoms and an empty node"""
    base = (("a", 1), ("a", 0), ("a", 2), ("0",), ("a", 1))
    out = []
    for i in range(k):
        def pick(inner=0.6):
            if rng.random() < inner:
                return rng.randrange(k)
            return k + rng.choice([0, 0, 0, 1, 2, 3, 4])
        r = rng.random()
        if r < 0.2:
            out.append(("+", (pick(0.8),)))
        elif r < 0.55:
            out.append(("+", tuple(pick() for _ in range(rng.choice([2, 2, 3])))))
        elif r < 0.9:
            ch = [k + rng.choice([0, 0, 4])] + [pick() for _ in range(rng.choice([1, 1, 2]))]
            rng.shuffle(ch)
            out.append(("*", tuple(ch)))
        else:
            out.append(("*", tuple(pick() for _ in range(rng.choice([2, 2, 3])))))
    return tuple(out) + base


def variant(rng, nodes, mutate=0.3):
    """a grammar of the same shape: nodes renamed, children reordered, equivalences inserted or removed;
    with some probability one child is changed"""
    nodes = [list(nd) if nd[0] in "a0" else [nd[0], list(nd[1])] for nd in nodes]
    for nd in nodes:
        if nd[0] in "+*" and rng.random() < 0.6:
            rng.shuffle(nd[1])
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            j = rng.choice([i for i, nd in enumerate(nodes) if nd[0] in "+*"])
            p = rng.randrange(len(nodes[j][1]))
            nodes.append(["+", [nodes[j][1][p]] if rng.random() < 0.7 else
                          [nodes[j][1][p], next(i for i, nd in enumerate(nodes) if nd[0] == "0")]])
            nodes[j][1][p] = len(nodes) - 1
    if rng.random() < 0.3:
        j = rng.choice([i for i, nd in enumerate(nodes) if nd[0] in "+*"])
        if nodes[j][0] == "+":
            nodes[j][1].insert(rng.randrange(len(nodes[j][1]) + 1), next(i for i, nd in enumerate(nodes) if nd[0] == "0"))
    if rng.random() < 0.3:
        # duplicate a node and send some uses to the copy
        j = rng.randrange(len(nodes))
        nodes.append([nodes[j][0]] + [list(x) if isinstance(x, list) else x for x in nodes[j][1:]])
        for nd in nodes:
            if nd[0] in "+*":
                nd[1] = [len(nodes) - 1 if c == j and rng.random() < 0.5 else c for c in nd[1]]
    while rng.random() < mutate:
        j = rng.choice([i for i, nd in enumerate(nodes) if nd[0] in "+*"])
        nodes[j][1][rng.randrange(len(nodes[j][1]))] = rng.randrange(len(nodes))
    perm = list(range(1, len(nodes)))
    rng.shuffle(perm)
    perm = [0] + perm
    out = [None] * len(nodes)
    for i, nd in enumerate(nodes):
        out[perm[i]] = tuple(nd) if nd[0] in "a0" else (nd[0], tuple(perm[c] for c in nd[1]))
    return tuple(out)
