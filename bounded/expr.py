"""Universes with many rules per class: classes are algebraic expressions over mutually recursive
definitions, rules are algebraic identities.  Counts come from the definitions themselves.

Expressions: ("v", i) | ("a", size) | ("0",) | ("+", e, ...) | ("*", e, ...)."""
from collections import Counter
from functools import lru_cache

from comb_spec_searcher import (AtomStrategy, CartesianProductStrategy, CombinatorialClass, DisjointUnionStrategy,
                                Strategy, StrategyFactory)
from comb_spec_searcher.strategies import SymmetryStrategy
from comb_spec_searcher.strategies.constructor import Constructor
from gram import Bad, Tree, to_t


class Defs:
    """counts of expressions over a tuple of definitions"""

    def __init__(self, defs):
        self.defs = defs
        self.minm = [None] * len(defs)
        for _ in range(len(defs) + 1):
            for i, e in enumerate(defs):
                self.minm[i] = self.least(e)
        self.memo = {}

    def least(self, e):
        k = e[0]
        if k == "v":
            return self.minm[e[1]]
        if k == "a":
            return e[1]
        if k == "0":
            return None
        if k == "c":
            return self.least(e[2])
        ms = [self.least(x) for x in e[1:]]
        if k == "+":
            ms = [m for m in ms if m is not None]
            return min(ms) if ms else None
        return None if None in ms else sum(ms)

    def count(self, e, n):
        m = self.least(e)
        if m is None or n < m:
            return 0
        key = (e, n)
        if key in self.memo:
            if self.memo[key] is None:
                raise Bad
            return self.memo[key]
        self.memo[key] = None
        k = e[0]
        if k == "v":
            r = self.count(self.defs[e[1]], n)
        elif k == "a":
            r = int(n == e[1])
        elif k == "c":
            r = e[1] * self.count(e[2], n)
        elif k == "+":
            r = sum(self.count(x, n) for x in e[1:])
        else:
            rest = e[2:]
            r = 0
            if not rest:
                r = self.count(e[1], n)
            else:
                tail = ("*",) + rest
                for s in range(self.least(e[1]), n - self.least(tail) + 1):
                    a = self.count(e[1], s)
                    if a:
                        r += a * self.count(tail, n - s)
        self.memo[key] = r
        return r


@lru_cache(maxsize=None)
def defs_of(defs):
    return Defs(defs)


def weight(e):
    return 1 + sum(weight(x) for x in e[1:] if isinstance(x, tuple))


class Expr(CombinatorialClass):
    def __init__(self, defs, e):
        self.defs, self.e = to_t(defs), to_t(e)

    @property
    def g(self):
        return defs_of(self.defs)

    def is_empty(self):
        return self.g.least(self.e) is None

    def is_atom(self):
        return self.e[0] == "a"

    def minimum_size_of_object(self):
        return self.g.least(self.e)

    def objects_of_size(self, n, **parameters):
        assert self.is_atom()
        if n == self.e[1]:
            yield Tree("a", (), n)

    def count(self, n):
        return self.g.count(self.e, n)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["defs"], d["e"] = self.defs, self.e
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(d["defs"], d["e"])

    def __eq__(self, other):
        return isinstance(other, Expr) and (self.e, self.defs) == (other.e, other.defs)

    def __hash__(self):
        return hash((self.e, self.defs))

    def __repr__(self):
        return f"Expr({self.defs!r}, {self.e!r})"

    def __str__(self):
        return show(self.e)


def show(e):
    if e[0] == "v":
        return f"v{e[1]}"
    if e[0] == "a":
        return f"z{e[1]}"
    if e[0] == "0":
        return "0"
    if e[0] == "c":
        return f"{e[1]}.{show(e[2])}"
    return "(" + f" {e[0]} ".join(map(show, e[1:])) + ")"


class _S:
    def forward_map(self, comb_class, obj, children=None):
        raise NotImplementedError

    def backward_map(self, comb_class, objs, children=None):
        raise NotImplementedError

    def formal_step(self):
        return type(self).__name__

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return f"{type(self).__name__}()"

    def kids(self, c):
        es = self.parts(c.e, c.defs)
        return None if es is None else tuple(Expr(c.defs, e) for e in es)

    def decomposition_function(self, comb_class):
        return self.kids(comb_class)


class Unfold(_S, DisjointUnionStrategy):
    def parts(self, e, defs):
        return (defs[e[1]],) if e[0] == "v" else None


class Sums(_S, DisjointUnionStrategy):
    def parts(self, e, defs):
        return e[1:] if e[0] == "+" else None


class Prods(_S, CartesianProductStrategy):
    def parts(self, e, defs):
        return e[1:] if e[0] == "*" else None


class Distribute(_S, DisjointUnionStrategy):
    """x * (a + b) * y = x*a*y + x*b*y"""

    def parts(self, e, defs):
        if e[0] != "*" or weight(e) > 14:
            return None
        for i, x in enumerate(e[1:], 1):
            if x[0] == "+":
                return tuple(e[:i] + (y,) + e[i + 1:] for y in x[1:])
        return None


class UnfoldIn(_S, DisjointUnionStrategy):
    """unfold one definition inside a product: an equivalence"""

    def parts(self, e, defs):
        if e[0] != "*" or weight(e) > 10:
            return None
        for i, x in enumerate(e[1:], 1):
            if x[0] == "v":
                return (e[:i] + (defs[x[1]],) + e[i + 1:],)
        return None


class SplitFirst(_S, CartesianProductStrategy):
    def parts(self, e, defs):
        if e[0] != "*" or len(e) < 4:
            return None
        return (e[1], ("*",) + e[2:])


class SplitSum(_S, DisjointUnionStrategy):
    def parts(self, e, defs):
        if e[0] != "+" or len(e) < 4:
            return None
        return (e[1], ("+",) + e[2:])


class Flatten(_S, DisjointUnionStrategy):
    """nested sums and products are flattened, single operands unwrapped: an equivalence"""

    def parts(self, e, defs):
        f = flat(e)
        return (f,) if f != e else None


def flat(e):
    if e[0] not in "+*":
        return e
    out = []
    for x in e[1:]:
        if x[0] == e[0]:
            out.extend(x[1:])
        else:
            out.append(x)
    return out[0] if len(out) == 1 else (e[0],) + tuple(out)


class Rotate(_S, SymmetryStrategy):
    def parts(self, e, defs):
        return (e[:1] + e[2:] + e[1:2],) if e[0] in "+*" and len(e) > 2 else None


class Mirror(_S, SymmetryStrategy):
    def parts(self, e, defs):
        return (e[:1] + tuple(reversed(e[1:])),) if e[0] in "+*" and len(e) > 2 else None


class OneWayFold(_S, DisjointUnionStrategy):
    """an expression equal to a definition's body is that definition; declared one way"""

    def parts(self, e, defs):
        for i, d in enumerate(defs):
            if d == e:
                return (("v", i),)
        return None

    def is_two_way(self, comb_class):
        return False


class Sorted(_S, DisjointUnionStrategy):
    def parts(self, e, defs):
        f = e[:1] + tuple(sorted(e[1:])) if e[0] in "+*" else e
        return (f,) if f != e else None


class Times(Constructor):
    """every object in k colours"""

    def __init__(self, k):
        self.k = k

    def can_be_equivalent(self):
        return False

    def get_equation(self, lhs_func, rhs_funcs):
        import sympy
        return sympy.Eq(lhs_func, self.k * rhs_funcs[0])

    def reliance_profile(self, n, **parameters):
        raise NotImplementedError

    def get_terms(self, parent_terms, subterms, n):
        return Counter({p: self.k * v for p, v in subterms[0](n).items()})

    def get_sub_objects(self, subobjs, n):
        raise NotImplementedError

    def random_sample_sub_objects(self, parent_count, subsamplers, subrecs, n, **parameters):
        raise NotImplementedError

    def equiv(self, other, data=None):
        return type(other) is type(self) and other.k == self.k, None


class Over(Times):
    def get_terms(self, parent_terms, subterms, n):
        return Counter({p: v // self.k for p, v in subterms[0](n).items()})


class Uncolour(_S, Strategy):
    """k.e -> e, a two-way rule that is not an equivalence"""

    def parts(self, e, defs):
        return (e[2],) if e[0] == "c" else None

    def can_be_equivalent(self):
        return False

    def is_two_way(self, comb_class):
        return True

    def is_reversible(self, comb_class):
        return True

    def shifts(self, comb_class, children=None):
        return (0,)

    def constructor(self, comb_class, children=None):
        return Times(comb_class.e[1])

    def reverse_constructor(self, idx, comb_class, children=None):
        return Over(comb_class.e[1])


class Both(StrategyFactory):
    """several rules for one class at once"""

    def __call__(self, comb_class):
        yield Sums()
        yield Prods()
        yield SplitFirst()
        yield Distribute()

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return "Both()"

    def __str__(self):
        return "both"


class SplitAtom(_S, CartesianProductStrategy):
    """an atom as a product of smaller atoms"""

    def parts(self, e, defs):
        if e[0] != "a" or e[1] < 2:
            return None
        return (("a", 1), ("a", e[1] - 1))


class AtomRules(StrategyFactory):
    """rules about the atoms of a product, made while the product is expanded"""

    def __call__(self, comb_class):
        if comb_class.e[0] in "+*":
            for x in comb_class.e[1:]:
                if x[0] == "a" and x[1] >= 2:
                    yield SplitAtom()(Expr(comb_class.defs, x))

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return "AtomRules()"

    def __str__(self):
        return "atom rules"
