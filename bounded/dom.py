"""A combinatorial domain with an independent brute-force oracle.

Classes are languages of words; statistics count letters.  Every class enumerates itself
from its definition (not from any rule), so it serves as the ground truth for counts,
objects, parameters and emptiness."""
import pickle
import random
from collections import Counter, defaultdict
from functools import lru_cache
from itertools import product

import sympy

from comb_spec_searcher import (
    AtomStrategy,
    CartesianProductStrategy,
    CombinatorialClass,
    CombinatorialObject,
    DisjointUnionStrategy,
    StrategyFactory,
    StrategyPack,
    VerificationStrategy,
)
from comb_spec_searcher.exception import InvalidOperationError, StrategyDoesNotApply
from comb_spec_searcher.strategies import SymmetryStrategy


class Word(str, CombinatorialObject):
    def __len__(self):
        return str.__len__(self)

    def size(self):
        return str.__len__(self)


# ------------------------------------------------------------------ languages
@lru_cache(maxsize=None)
def lang_words(kind, data, n):
    """All words of length n of the language, from its definition."""
    if kind == "W" or kind == "P":
        prefix, pats, alph, just = data
        if any(p in prefix for p in pats):
            return ()
        if just:
            return (prefix,) if len(prefix) == n else ()
        if n < len(prefix) + (1 if kind == "P" else 0):
            return ()
        level = [prefix]
        for _ in range(n - len(prefix)):
            level = [w + a for w in level for a in alph
                     if not any((w + a).endswith(p) for p in pats)]
        return tuple(level)
    if kind == "C":
        if len(data) == 1:
            return lang_words(data[0][0], data[0][1], n)
        out = []
        for i in range(n + 1):
            first = lang_words(data[0][0], data[0][1], i)
            if first:
                rest = lang_words("C", data[1:], n - i)
                out.extend(u + v for u in first for v in rest)
        return tuple(out)
    if kind == "D":
        o, c, mode = data
        if n == 0:
            return ("",) if mode == "all" else ()
        if n % 2:
            return ()
        out = []
        for i in range(0, n - 1, 2):
            for u in lang_words("D", (o, c, "all"), i):
                for v in lang_words("D", (o, c, "all"), n - 2 - i):
                    out.append(o + u + c + v)
        return tuple(out)
    if kind == "F":
        return tuple(w for w in data if len(w) == n)
    if kind == "T":
        return lang_words(*data, n) + lang_words("C", wrapped(data), n)
    raise ValueError(kind)


def wrapped(inner):
    """the parts of c u d v with u, v in the language"""
    return (("W", ("c", (), "cd", True)), inner, ("W", ("d", (), "cd", True)), inner)


@lru_cache(maxsize=None)
def lang_letters(kind, data):
    """the letters that occur in some word"""
    if kind in "WP":
        prefix, pats, alph, just = data
        if just:
            return frozenset(prefix)
        keep = max(map(len, pats), default=1)
        found, todo, seen = set(prefix), [prefix[-keep:]], set()
        while todo:
            w = todo.pop()
            if w in seen:
                continue
            seen.add(w)
            for a in alph:
                if not any((w + a).endswith(p) for p in pats):
                    found.add(a)
                    todo.append((w + a)[-keep:])
        return frozenset(found)
    if kind == "C":
        return frozenset().union(*[lang_letters(*p) for p in data])
    if kind == "D":
        return frozenset(data[:2])
    if kind == "F":
        return frozenset("".join(data))
    if kind == "T":
        return lang_letters(*data) | frozenset("cd")
    raise ValueError(kind)


def lang_min(kind, data):
    if kind == "W":
        return len(data[0])
    if kind == "P":
        return len(data[0]) + 1
    if kind == "C":
        return sum(lang_min(*p) for p in data)
    if kind == "D":
        return 0 if data[2] == "all" else 2
    if kind == "F":
        return min(map(len, data), default=0)
    if kind == "T":
        return lang_min(*data)
    raise ValueError(kind)


def lang_empty(kind, data):
    if kind == "W":
        return any(p in data[0] for p in data[1])
    if kind == "P":
        return not lang_words(kind, data, len(data[0]) + 1)
    if kind == "C":
        return any(lang_empty(*p) for p in data)
    if kind == "D":
        return False
    if kind == "F":
        return not data
    if kind == "T":
        return lang_empty(*data)
    raise ValueError(kind)


def lang_minstat(kind, data, letters):
    if kind == "W" or kind == "P":
        base = sum(data[0].count(a) for a in letters)
        if kind == "P":
            nx = [w[-1] for w in lang_words(kind, data, len(data[0]) + 1)]
            if nx and all(a in letters for a in nx):
                base += 1
        return base
    if kind == "C":
        return sum(lang_minstat(k, d, letters) for k, d in data)
    if kind == "D":
        return 0 if data[2] == "all" else sum(a in letters for a in data[:2])
    if kind == "F":
        return min((sum(w.count(a) for a in letters) for w in data), default=0)
    if kind == "T":
        return lang_minstat(*data, letters)
    raise ValueError(kind)


def to_t(x):
    return tuple(to_t(y) for y in x) if isinstance(x, (list, tuple)) else x


class Lang(CombinatorialClass):
    def __init__(self, kind, data, stats=()):
        self.kind, self.data, self.stats = kind, to_t(data), to_t(stats)
        self._h = hash((self.kind, self.data, self.stats))

    def key(self):
        return (self.kind, self.data, self.stats)

    def make(self, kind, data, stats=None):
        return type(self)(kind, data, self.stats if stats is None else stats)

    def is_empty(self):
        return lang_empty(self.kind, self.data)

    def is_atom(self):
        if self.kind == "F":
            return len(self.data) == 1
        return self.kind == "W" and self.data[3] and not self.is_empty()

    def minimum_size_of_object(self):
        return lang_min(self.kind, self.data)

    @property
    def extra_parameters(self):
        return tuple(n for n, _ in self.stats)

    def get_minimum_value(self, parameter):
        return lang_minstat(self.kind, self.data, dict(self.stats)[parameter])

    def possible_parameters(self, n):
        for vals in product(range(n + 1), repeat=len(self.stats)):
            yield dict(zip(self.extra_parameters, vals))

    def get_parameters(self, obj):
        return tuple(sum(str.count(obj, a) for a in ls) for _, ls in self.stats)

    def objects_of_size(self, n, **parameters):
        for w in lang_words(self.kind, self.data, n):
            w = Word(w)
            if not parameters or all(
                parameters[k] == v for k, v in zip(self.extra_parameters, self.get_parameters(w))
            ):
                yield w

    def true_terms(self, n):
        return Counter(self.get_parameters(Word(w)) for w in lang_words(self.kind, self.data, n))

    def has(self, w):
        return str(w) in lang_words(self.kind, self.data, str.__len__(w))

    def to_jsonable(self):
        d = super().to_jsonable()
        d["key"] = [self.kind, self.data, self.stats]
        return d

    @classmethod
    def from_dict(cls, d):
        import dom
        return getattr(dom, d["comb_class"])(*d["key"])

    def __eq__(self, other):
        if not isinstance(other, Lang):
            return NotImplemented
        return type(self) is type(other) and self.key() == other.key()

    def __hash__(self):
        return self._h

    def __reduce__(self):
        return (type(self), (self.kind, self.data, self.stats))

    def __repr__(self):
        return f"{type(self).__name__}({self.kind!r}, {self.data!r}, {self.stats!r})"

    def __str__(self):
        return repr(self)

    def __lt__(self, other):
        return self.key() < other.key()


class LangB(Lang):
    """Same classes, stored compressed by the class database."""

    def to_bytes(self):
        return repr(self.key()).encode()

    @classmethod
    def from_bytes(cls, b):
        import ast

        return cls(*ast.literal_eval(b.decode()))


class LangH(Lang):
    """Every class hashes alike (dictionary collisions)."""

    def __hash__(self):
        return 7


# ------------------------------------------------------------------ statistics
def simplify_stats(stats, kind, data, mode):
    """-> (child stats, {parent name: child name})"""
    letters = lang_letters(kind, data)
    if mode.startswith("rand"):
        return random_stats(stats, kind, data, mode, letters)
    if mode == "keep":
        return stats, {n: n for n, _ in stats}
    out, mp, seen = [], {}, {}
    for n, ls in stats:
        eff = "".join(sorted(a for a in ls if a in letters))
        if not eff:
            continue
        if mode == "drop":
            out.append((n, ls))
            mp[n] = n
            continue
        if eff in seen:
            mp[n] = seen[eff]
            continue
        nm = n if mode == "merge" else None
        seen[eff] = nm or f"s{len(seen)}"
        out.append((seen[eff], eff))
        mp[n] = seen[eff]
    if mode == "canon":
        # canonical names by sorted effective letters
        order = sorted(range(len(out)), key=lambda i: out[i][1])
        ren = {out[i][0]: f"s{j}" for j, i in enumerate(order)}
        out = [(ren[out[i][0]], out[i][1]) for i in order]
        mp = {p: ren[c] for p, c in mp.items()}
    return tuple(out), mp


def random_stats(stats, kind, data, mode, letters):
    """a seeded choice, per statistic, of dropping, merging, renaming and reordering"""
    rng = random.Random(repr((mode, kind, data, stats)))
    groups = []  # (effective letters, [parent names])
    for n, ls in stats:
        eff = "".join(sorted(a for a in ls if a in letters))
        if not eff and rng.random() < 0.6:
            continue
        for g in groups:
            if g[0] == eff and rng.random() < 0.7:
                g[1].append(n)
                break
        else:
            groups.append((eff, [n], ls))
    rng.shuffle(groups)
    names = sorted({n for n, _ in stats} | {"t0", "t1"})
    rng.shuffle(names)
    out = tuple((names[i], g[0] if g[0] else g[2]) for i, g in enumerate(groups))
    mp = {p: names[i] for i, g in enumerate(groups) for p in g[1]}
    return out, {n: mp[n] for n, _ in stats if n in mp}


class _Mode:
    mode = "keep"

    def _init_mode(self, mode):
        self.mode = mode

    def kid(self, comb_class, kind, data):
        st, mp = simplify_stats(comb_class.stats, kind, data, self.mode)
        return comb_class.make(kind, data, st)

    def to_jsonable(self):
        d = super().to_jsonable()
        d["mode"] = self.mode
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return tuple(
            simplify_stats(comb_class.stats, c.kind, c.data, self.mode)[1] for c in children
        )

    def __repr__(self):
        return f"{type(self).__name__}({self.mode!r})"

    def __str__(self):
        return self.formal_step()

    def formal_step(self):
        return f"{type(self).__name__.lower()} {self.mode}"


class USt(_Mode, DisjointUnionStrategy):
    def __init__(self, mode="keep", ignore_parent=False, inferrable=True, possibly_empty=True,
                 workable=True):
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)
        self._init_mode(mode)

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return tuple(obj if c.has(obj) else None for c in children)


class PSt(_Mode, CartesianProductStrategy):
    def __init__(self, mode="keep", ignore_parent=True, inferrable=True, possibly_empty=False,
                 workable=True):
        super().__init__(ignore_parent=ignore_parent, inferrable=inferrable,
                         possibly_empty=possibly_empty, workable=workable)
        self._init_mode(mode)

    def backward_map(self, comb_class, objs, children=None):
        yield Word("".join(objs))


# ------------------------------------------------------------------ strategies
class Expand(USt):
    """W(p) = {p} + W(pa) + W(pb) + ..."""

    def decomposition_function(self, c):
        if c.kind != "W" or c.data[3]:
            return None
        p, pats, alph, _ = c.data
        return (self.kid(c, "W", (p, pats, alph, True)),) + tuple(
            self.kid(c, "W", (p + a, pats, alph, False)) for a in alph
        )


class Half(USt):
    """W(p) = {p} + P(p)"""

    def decomposition_function(self, c):
        if c.kind != "W" or c.data[3]:
            return None
        p, pats, alph, _ = c.data
        return (self.kid(c, "W", (p, pats, alph, True)), self.kid(c, "P", (p, pats, alph, False)))


class Next(USt):
    """P(p) = W(pa) + W(pb) + ..."""

    def decomposition_function(self, c):
        if c.kind != "P":
            return None
        p, pats, alph, _ = c.data
        return tuple(self.kid(c, "W", (p + a, pats, alph, False)) for a in alph)


def safe_index(prefix, pats):
    i = 0
    while i < len(prefix) and not any(
        pat.startswith(prefix[i:]) for pat in pats
    ):
        i += 1
    return i


class Split(PSt):
    """W(uv) = {u} x W(v) when no pattern can start inside u and leave the prefix"""

    pieces = 1

    def decomposition_function(self, c):
        if c.kind not in "WP" or c.data[3]:
            return None
        p, pats, alph, _ = c.data
        if any(x in p for x in pats):
            return None
        i = safe_index(p, pats)
        if i == 0:
            return None
        atoms = [p[:i]] if self.pieces == 1 or i == 1 else [p[:1], p[1:i]]
        rest = self.kid(c, c.kind, (p[i:], pats, alph, False))
        kids = [self.kid(c, "W", (u, pats, alph, True)) for u in atoms]
        return tuple(kids) + (rest,)

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        out, k = [], 0
        for c in children[:-1]:
            m = len(c.data[0])
            out.append(Word(obj[k:k + m]))
            k += m
        return tuple(out) + (Word(obj[k:]),)


class Split2(Split):
    pieces = 2


class SplitLast(Split):
    """same with the recursive part first in the tuple of children"""

    def decomposition_function(self, c):
        r = super().decomposition_function(c)
        return None if r is None else (r[-1],) + r[:-1]

    def forward_map(self, comb_class, obj, children=None):
        m = sum(len(c.data[0]) for c in children[1:])
        return (Word(obj[m:]), Word(obj[:m]))

    def backward_map(self, comb_class, objs, children=None):
        yield Word(objs[1] + objs[0])


class CatSplit(PSt):
    """concatenation over disjoint alphabets"""

    def decomposition_function(self, c):
        if c.kind != "C":
            return None
        return tuple(self.kid(c, k, d) for k, d in c.data)

    def forward_map(self, comb_class, obj, children=None):
        out = []
        for k, d in comb_class.data:
            ls = lang_letters(k, d)
            out.append(Word("".join(a for a in obj if a in ls)))
        return tuple(out)


class Same(PSt):
    """a product with a single factor: only the statistics change"""

    def __init__(self, mode="canon", **kw):
        super().__init__(mode, **kw)

    def decomposition_function(self, c):
        r = self.kid(c, c.kind, c.data)
        return None if r == c else (r,)

    def forward_map(self, comb_class, obj, children=None):
        return (obj,)


class DyckUnion(USt):
    def decomposition_function(self, c):
        if c.kind != "D" or c.data[2] != "all":
            return None
        o, cl, _ = c.data
        return (self.kid(c, "W", ("", (), o + cl, True)), self.kid(c, "D", (o, cl, "non")))


class DyckProd(PSt):
    def decomposition_function(self, c):
        if c.kind != "D" or c.data[2] != "non":
            return None
        o, cl, _ = c.data
        al = o + cl
        return (self.kid(c, "W", (o, (), al, True)), self.kid(c, "D", (o, cl, "all")),
                self.kid(c, "W", (cl, (), al, True)), self.kid(c, "D", (o, cl, "all")))

    def forward_map(self, comb_class, obj, children=None):
        o = comb_class.data[0]
        h = 0
        for i, a in enumerate(obj):
            h += 1 if a == o else -1
            if h == 0:
                break
        return (Word(obj[0]), Word(obj[1:i]), Word(obj[i]), Word(obj[i + 1:]))


class Reduce(USt):
    """inferral: drop patterns containing another pattern or foreign letters"""

    def __init__(self, mode="keep", ignore_parent=True, inferrable=True, possibly_empty=False,
                 workable=True):
        super().__init__(mode, ignore_parent, inferrable, possibly_empty, workable)

    def decomposition_function(self, c):
        if c.kind not in "WP":
            return None
        p, pats, alph, j = c.data
        keep = tuple(
            x for x in pats
            if all(a in alph or a in p for a in x) and not any(y != x and y in x for y in pats)
        )
        if keep == pats or j:
            return None
        return (self.kid(c, c.kind, (p, keep, alph, j)),)


class DropLetter(USt):
    """a one-letter pattern removes the letter from the alphabet"""

    def __init__(self, mode="keep", ignore_parent=True, inferrable=True, possibly_empty=False,
                 workable=True):
        super().__init__(mode, ignore_parent, inferrable, possibly_empty, workable)

    def decomposition_function(self, c):
        if c.kind not in "WP" or c.data[3]:
            return None
        p, pats, alph, j = c.data
        bad = [a for a in alph if a in pats and a not in p]
        if not bad:
            return None
        a = bad[0]
        return (self.kid(c, c.kind, (p, tuple(x for x in pats if a not in x),
                                     alph.replace(a, ""), j)),)


class Normal(USt):
    """rename/merge/drop the statistics only"""

    def __init__(self, mode="canon", ignore_parent=False, inferrable=True, possibly_empty=False,
                 workable=True):
        super().__init__(mode, ignore_parent, inferrable, possibly_empty, workable)

    def decomposition_function(self, c):
        r = self.kid(c, c.kind, c.data)
        return None if r == c else (r,)


def permute(word, perm):
    return "".join(perm.get(a, a) for a in word)


def lang_permute(kind, data, perm):
    if kind in "WP":
        p, pats, alph, j = data
        return (permute(p, perm), tuple(sorted(permute(x, perm) for x in pats)),
                "".join(sorted(permute(alph, perm))), j)
    if kind == "C":
        return tuple((k, lang_permute(k, d, perm)) for k, d in data)
    if kind == "D":
        return (perm.get(data[0], data[0]), perm.get(data[1], data[1]), data[2])
    return tuple(sorted(permute(w, perm) for w in data))


class Sym(SymmetryStrategy):
    """permutation of the letters: a <-> b"""

    def __init__(self, perm=(("a", "b"), ("b", "a")), **kw):
        super().__init__(**kw)
        self.perm = to_t(perm)

    def decomposition_function(self, c):
        pm = dict(self.perm)
        r = c.make(c.kind, lang_permute(c.kind, c.data, pm),
                   tuple((n, "".join(sorted(permute(ls, pm)))) for n, ls in c.stats))
        return (r,)

    def extra_parameters(self, comb_class, children=None):
        return ({n: n for n, _ in comb_class.stats},)

    def forward_map(self, comb_class, obj, children=None):
        return (Word(permute(obj, dict(self.perm))),)

    def backward_map(self, comb_class, objs, children=None):
        yield Word(permute(objs[0], {b: a for a, b in self.perm}))

    def formal_step(self):
        return "swap letters"

    def to_jsonable(self):
        d = super().to_jsonable()
        d["perm"] = self.perm
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return f"Sym({self.perm!r})"


SWAP = {"a": "b", "b": "a"}


class Twist(USt):
    """W(p) = {p} + W(pa) + W(pb) + ..., the children at odd positions with letters a and b swapped:
    the object maps depend on the position of the child"""

    def decomposition_function(self, c):
        if c.kind != "W" or c.data[3]:
            return None
        p, pats, alph, _ = c.data
        out = []
        for i, d in enumerate([(p, pats, alph, True)] + [(p + a, pats, alph, False) for a in alph]):
            if i % 2:
                d = lang_permute("W", d, SWAP)
            out.append(c.make("W", d, simplify_stats(self.turned(c.stats, i), "W", d, self.mode)[0]))
        return tuple(out)

    @staticmethod
    def turned(stats, i):
        if i % 2 == 0:
            return stats
        return tuple((n, "".join(sorted(permute(ls, SWAP)))) for n, ls in stats)

    def extra_parameters(self, comb_class, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        return tuple(
            simplify_stats(self.turned(comb_class.stats, i), c.kind, c.data, self.mode)[1]
            for i, c in enumerate(children)
        )

    def forward_map(self, comb_class, obj, children=None):
        if children is None:
            children = self.decomposition_function(comb_class)
        out = []
        for i, c in enumerate(children):
            w = Word(permute(obj, SWAP)) if i % 2 else obj
            out.append(w if c.has(w) else None)
        return tuple(out)

    def backward_map(self, comb_class, objs, children=None):
        for i, w in enumerate(objs):
            if w is not None:
                yield Word(permute(w, SWAP)) if i % 2 else w


class Turn(Twist):
    """an equivalence whose only non-empty child is at an odd position: 0 + swap(W) (+ 0 + 0)"""

    def decomposition_function(self, c):
        if c.kind not in "WP" or c.data[3] or c.data[2] == "a":
            return None
        d = lang_permute(c.kind, c.data, SWAP)
        kids = [c.make("F", (), simplify_stats(self.turned(c.stats, i), "F", (), self.mode)[0]) for i in range(4)]
        i = 1 if len(c.data[1]) % 2 else 3
        kids[i] = c.make(c.kind, d, simplify_stats(self.turned(c.stats, i), c.kind, d, self.mode)[0])
        return tuple(kids[:3] if i == 1 else kids)


class WrapUnion(USt):
    """T(Y) = Y + cYdY"""

    def decomposition_function(self, c):
        if c.kind != "T":
            return None
        return (self.kid(c, *c.data), self.kid(c, "C", wrapped(c.data)))


class WrapSplit(PSt):
    """cYdY, and z^k Y"""

    def decomposition_function(self, c):
        if c.kind != "C" or not (c.data == wrapped(c.data[1]) or len(c.data) == 2):
            return None
        return tuple(self.kid(c, k, d) for k, d in c.data)

    def forward_map(self, comb_class, obj, children=None):
        if len(comb_class.data) == 2 and comb_class.data[0][0] == "W":
            m = lang_min(*comb_class.data[0])
            return (Word(obj[:m]), Word(obj[m:]))
        i = obj.index("d")
        return (Word("c"), Word(obj[1:i]), Word("d"), Word(obj[i + 1:]))


# ------------------------------------------------------------------ factories
class WrapFac(StrategyFactory):
    """from Y, the rule of T(Y): Y is found by reversing it"""

    def __call__(self, c):
        if c.kind == "W" and not c.data[3]:
            t = c.make("T", (c.kind, c.data))
            yield WrapUnion()(t)
            # a rule with T(Y) on the right, so that it is looked at
            yield WrapSplit()(c.make("C", (("W", ("z", (), "z", True)), t.key()[:2])))

    @classmethod
    def from_dict(cls, d):
        return cls()

    def __repr__(self):
        return "WrapFac()"

    def __str__(self):
        return "wrap"


class _Fac(StrategyFactory):
    def __init__(self, mode="keep"):
        self.mode = mode

    def to_jsonable(self):
        d = super().to_jsonable()
        d["mode"] = self.mode
        return d

    @classmethod
    def from_dict(cls, d):
        return cls(**d)

    def __repr__(self):
        return f"{type(self).__name__}({self.mode!r})"

    def __str__(self):
        return type(self).__name__


class StratFac(_Fac):
    """yields strategies, one of which usually does not apply"""

    def __call__(self, c):
        yield Split(self.mode)
        yield Expand(self.mode)
        yield DyckUnion(self.mode)


class ReadyFac(_Fac):
    """yields ready-made rules"""

    def __call__(self, c):
        for st in (Split(self.mode), Expand(self.mode)):
            try:
                yield st(c)
                break
            except StrategyDoesNotApply:
                pass


class ForeignFac(_Fac):
    """yields a rule whose parent is another class than the one expanded"""

    def __call__(self, c):
        if c.kind == "W" and c.data[0] and not c.data[3]:
            p, pats, alph, _ = c.data
            par = c.make("W", (p[:-1], pats, alph, False))
            if not par.is_empty():
                yield Expand(self.mode)(par)
        if c.kind == "W" and not c.data[3]:
            yield Split(self.mode)


class UpFac(_Fac):
    """yields only rules of parents that have the class as a child (for reverse rules)"""

    def __call__(self, c):
        if c.kind == "W" and c.data[0] and not c.data[3]:
            p, pats, alph, _ = c.data
            par = c.make("W", (p[:-1], pats, alph, False))
            if not par.is_empty():
                yield Expand(self.mode)(par)


# ------------------------------------------------------------------ verification
class StatAtom(AtomStrategy):
    """atoms carrying statistics"""

    def get_terms(self, comb_class, n):
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        res = defaultdict(list)
        for w in comb_class.objects_of_size(n):
            res[comb_class.get_parameters(w)].append(w)
        return res

    def get_genf(self, comb_class, funcs=None):
        if not self.verified(comb_class):
            raise StrategyDoesNotApply("not an atom")
        n = comb_class.minimum_size_of_object()
        w = next(comb_class.objects_of_size(n))
        res = sympy.var("x") ** n
        for k, v in zip(comb_class.extra_parameters, comb_class.get_parameters(w)):
            res *= sympy.var(k) ** v
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        return next(comb_class.objects_of_size(n, **parameters))


class _BruteVer(VerificationStrategy):
    def __init__(self, ignore_parent=True):
        super().__init__(ignore_parent=ignore_parent)

    def get_terms(self, comb_class, n):
        return comb_class.true_terms(n)

    def get_objects(self, comb_class, n):
        res = defaultdict(list)
        for w in comb_class.objects_of_size(n):
            res[comb_class.get_parameters(w)].append(w)
        return res

    def random_sample_object_of_size(self, comb_class, n, **parameters):
        import random

        return random.choice(list(comb_class.objects_of_size(n, **parameters)))

    def formal_step(self):
        return type(self).__name__

    @classmethod
    def from_dict(cls, d):
        return cls(**d)


class VerFree(_BruteVer):
    """W(p) without patterns, verified by a formula; no pack"""

    def verified(self, c):
        return c.kind == "W" and not c.data[1] and not c.data[3]

    def get_genf(self, c, funcs=None):
        if not self.verified(c):
            raise StrategyDoesNotApply("not free")
        p, _, alph, _ = c.data
        x = sympy.var("x")

        def wt(a):
            r = x
            for n, ls in c.stats:
                if a in ls:
                    r *= sympy.var(n)
            return r

        res = sympy.Integer(1)
        for a in p:
            res *= wt(a)
        return res / (1 - sum(wt(a) for a in alph))


class VerWrap(_BruteVer):
    def __init__(self, ignore_parent=False):
        super().__init__(ignore_parent)

    def verified(self, c):
        return c.kind == "T" and not c.data[1][1]

    def get_genf(self, c, funcs=None):
        if not self.verified(c):
            raise StrategyDoesNotApply("not verified")
        x = sympy.var("x")
        p, _, alph, _ = c.data[1]
        y = x ** len(p) / (1 - len(alph) * x)
        return y + x ** 2 * y ** 2


class VerUnary(_BruteVer):
    """classes over a single letter, expandable with a pack"""

    def verified(self, c):
        return c.kind in "WP" and not c.data[3] and len(set(c.data[2]) | set(c.data[0])) <= 1 \
            and not c.is_empty()

    def pack(self, comb_class):
        return StrategyPack([Split()], [], [[Expand(), Next()]], [StatAtom()], "unary")


class VerPrefix(_BruteVer):
    """classes with a prefix of length >= k, expandable with a pack"""

    def __init__(self, k=2, ignore_parent=True):
        super().__init__(ignore_parent)
        self.k = k

    def verified(self, c):
        return c.kind == "W" and not c.data[3] and len(c.data[0]) >= self.k and not c.is_empty()

    def pack(self, comb_class):
        return StrategyPack([Split()], [], [[Expand()]], [StatAtom()], "prefix")

    def to_jsonable(self):
        d = super().to_jsonable()
        d["k"] = self.k
        return d

    def __repr__(self):
        return f"VerPrefix({self.k}, {self.ignore_parent})"


class VerSingle(_BruteVer):
    """the named classes only; optional pack; used to force reverse rules"""

    def __init__(self, keys=(), ignore_parent=False):
        super().__init__(ignore_parent)
        self.keys = to_t(keys)

    def verified(self, c):
        return c.key()[:2] in self.keys

    def to_jsonable(self):
        d = super().to_jsonable()
        d["keys"] = self.keys
        return d

    def __repr__(self):
        return f"VerSingle({self.keys!r})"


# ------------------------------------------------------------------ packs
def packs(mode="keep"):
    """name -> StrategyPack"""
    P = StrategyPack
    at = [StatAtom()]
    out = {
        "basic": P([Split(mode)], [], [[Expand(mode)]], at, "basic"),
        "half": P([Split(mode)], [], [[Half(mode), Next(mode)]], at, "half"),
        "infer": P([Split(mode)], [Reduce(mode), DropLetter(mode)], [[Expand(mode)]], at, "infer"),
        "halfinfer": P([SplitLast(mode)], [Reduce(mode), DropLetter(mode)],
                       [[Half(mode), Next(mode)]], at, "halfinfer"),
        "normal": P([Split(mode)], [Normal("canon")], [[Expand(mode)]], at, "normal"),
        "two": P([], [Reduce(mode)], [[Split2(mode)], [Half(mode), Next(mode)], [Expand(mode)]],
                 at, "two"),
        "factory": P([], [DropLetter(mode)], [[StratFac(mode)]], at, "factory"),
        "ready": P([], [], [[ReadyFac(mode), Next(mode)]], at, "ready"),
        "foreign": P([], [], [[ForeignFac(mode), Expand(mode)]], at, "foreign"),
        "free": P([Split(mode)], [Reduce(mode)], [[Expand(mode)]], at + [VerFree()], "free"),
        "unary": P([Split(mode)], [DropLetter(mode)], [[Expand(mode)]], at + [VerUnary()],
                   "unary"),
        "prefix": P([Split(mode)], [], [[Expand(mode)]], at + [VerPrefix(2)], "prefix"),
        "cat": P([CatSplit(mode), DyckUnion(mode), DyckProd(mode), Split(mode)], [],
                 [[Expand(mode)]], at, "cat"),
        "sym": P([Split(mode)], [], [[Expand(mode)]], at, "sym", symmetries=[Sym()]),
        "syminfer": P([Split(mode)], [Reduce(mode), DropLetter(mode)], [[Half(mode), Next(mode)]],
                      at, "syminfer", symmetries=[Sym()]),
        "iter": P([Split(mode)], [], [[Expand(mode)]], at, "iter", iterative=True),
        "iterfree": P([Split(mode)], [Reduce(mode)], [[Expand(mode)]], at + [VerFree()],
                      "iterfree", iterative=True),
    }
    return out


def start_classes(rng, count, cls=Lang, stats=True, cat=False):
    """random start classes"""
    out = []
    while len(out) < count:
        alph = rng.choice(["ab", "ab", "abc", "a"])
        np_ = rng.choice([0, 1, 1, 2, 2, 3])
        pats = set()
        for _ in range(np_):
            ln = rng.choice([1, 2, 2, 2, 3, 3]) if len(alph) < 3 else rng.choice([1, 2, 2])
            pats.add("".join(rng.choice(alph) for _ in range(ln)))
        prefix = "".join(rng.choice(alph) for _ in range(rng.choice([0, 0, 0, 1, 2, 3])))
        st = []
        if stats:
            for i in range(rng.choice([0, 0, 1, 2, 2, 3])):
                ls = "".join(sorted(rng.sample(alph + "z", rng.randint(1, len(alph)))))
                st.append((f"k{i}", ls))
        st = tuple(st)
        w = ("W", (prefix, tuple(sorted(pats)), alph, False))
        if cat and rng.random() < cat:
            other = rng.choice([
                ("D", ("(", ")", "all")),
                ("D", ("(", ")", "non")),
                ("W", (rng.choice(["", "d"]), rng.choice([(), ("dd",), ("ddd", "ed")]), "de", False)),
            ])
            parts = [w, other]
            if rng.random() < 0.4:
                parts.append(("W", (rng.choice(["", "x"]), rng.choice([(), ("xy",)]), "xy", False)))
            rng.shuffle(parts)
            allow = "".join(sorted(frozenset().union(*[lang_letters(*p) for p in parts])))
            st = tuple((f"k{i}", "".join(sorted(rng.sample(allow, rng.randint(1, len(allow))))))
                       for i in range(len(st)))
            c = cls("C", tuple(parts), st)
        else:
            c = cls(*w, st)
        if c.is_empty() or c in out:
            continue
        out.append(c)
    return out
