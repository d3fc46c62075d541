"""Symbolic values and states."""
import itertools

import z3

from .ty import *
from .world import Unsupported

_ctr = itertools.count()


class Val:
    pass


class SV(Val):
    """Pure value of a sorted type."""

    __slots__ = ("ty", "t", "src")

    def __init__(self, ty, t, src=None):
        self.ty, self.t, self.src = ty, t, src

    def __repr__(self):
        return f"SV({self.ty},{self.t})"


class Loc(Val):
    """Pointer to a mutable container cell."""

    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Loc({self.cid})"


class EmptyTy(Ty):
    """Type of an empty container literal whose element type is not known yet."""

    def __init__(self, kind):
        self.kind = kind
        self.name = "empty-" + kind

    @property
    def mutable(self):
        return True


class Obj(Val):
    __slots__ = ("oid", "rec")

    def __init__(self, oid, rec):
        self.oid, self.rec = oid, rec

    def __repr__(self):
        return f"Obj({self.oid}:{self.rec})"


class PT(Val):
    """Concrete tuple."""

    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"PT({self.items})"


class FnV(Val):
    """Function value: closure, bound method, lambda, builtin."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class TypeV(Val):
    """A class object (type)."""

    def __init__(self, ty=None, ci=None, name=None):
        self.ty, self.ci, self.name = ty, ci, name


class ModV(Val):
    def __init__(self, name):
        self.name = name


class ISeq(Val):
    """Indexable iterable; n(st) and at(st, i) are live."""

    def __init__(self, n, at, src=None):
        self.n, self.at, self.src = n, at, src
        self.takes = None  # index -> [(contract, arguments)] of the calls made when that element is taken


class ISet(Val):
    """Unordered iterable over the keys satisfying member(x)."""

    def __init__(self, kty, member, mk, src=None, live=None):
        self.kty, self.member, self.mk, self.src, self.live = kty, member, mk, src, live


class IConc(Val):
    def __init__(self, items):
        self.items = items


class Comp(Val):
    """Comprehension: quantified vars, domain formula, element value (pure)."""

    def __init__(self, vars, dom, elem, st, iseq_n=None, nofilter=False):
        self.vars, self.dom, self.elem, self.st = vars, dom, elem, st
        self.iseq_n, self.nofilter = iseq_n, nofilter


class RefList(Val):
    """A list of references to lists: known cells, then (for each group) the entries of a dict that satisfy a
    condition.  Held in a cell of its own."""

    def __init__(self, ty, items, groups=()):
        self.ety, self.items, self.groups = ty, tuple(items), tuple(groups)
        self.ty = Cls("list of references")


class StarV(Val):
    def __init__(self, v):
        self.v = v


class SuperV(Val):
    def __init__(self, obj, ci, after):
        self.obj, self.ci, self.after = obj, ci, after
        self.ty = Cls("super")


class Raise(Val):
    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node

    def __repr__(self):
        return f"Raise({self.exc})"


NONEV = None


def none():
    return SV(NONE, z3.Const("NoneVal", NONE.sort()))


def I(n):
    return SV(INT, z3.IntVal(n) if isinstance(n, int) else n)


def B(b):
    return SV(BOOL, z3.BoolVal(b) if isinstance(b, bool) else b)


def nid():
    return next(_ctr)


_fresh = itertools.count()


def fresh(ty, hint="v"):
    return z3.Const(f"{hint}~{next(_fresh)}", ty.sort())


def fresh_mark():
    return next(_fresh)


def wf(ty, t, depth=0):
    """Well-typedness facts of a fresh term."""
    out = []
    if isinstance(ty, Seq):
        out.append(ty.len(t) >= 0)
        if isinstance(ty.t, (Seq, DictT)) and depth == 0:
            i = z3.Int(f"wf_i{depth}")
            for f in wf(ty.t, ty.at(t, i), depth + 1):
                out.append(z3.ForAll([i], f))
    elif isinstance(ty, DictT):
        if isinstance(ty.v, Seq) and depth == 0:
            k = z3.Const(f"wf_k{depth}", ty.k.sort())
            for f in wf(ty.v, sel(ty.val(t), k), depth + 1):
                out.append(z3.ForAll([k], f))
    elif isinstance(ty, NT):
        for i, (_, ft) in enumerate(ty.fields):
            out.extend(wf(ft, ty.get(t, i), depth + 1))
    return out


class St:
    __slots__ = ("frames", "fid", "heap", "cells", "pc", "ycid", "ctx", "ver", "stack")

    def __init__(self):
        self.frames = {}
        self.fid = None
        self.heap = {}
        self.cells = {}
        self.pc = []
        self.ycid = None
        self.ver = 0
        self.stack = ()

    def copy(self):
        s = St()
        s.frames = {k: (p, dict(d), m) for k, (p, d, m) in self.frames.items()}
        s.fid = self.fid
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.ycid = self.ycid
        s.ver = self.ver
        s.stack = self.stack
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            self.pc.append(f)
        return self

    # locals
    def new_frame(self, parent, minfo):
        fid = nid()
        self.frames[fid] = (parent, {}, minfo)
        return fid

    def lookup(self, name, fid=None):
        fid = self.fid if fid is None else fid
        while fid is not None:
            p, d, _ = self.frames[fid]
            if name in d:
                return d[name]
            fid = p
        return None

    def lookup_frame(self, name, fid=None):
        fid = self.fid if fid is None else fid
        while fid is not None:
            p, d, _ = self.frames[fid]
            if name in d:
                return fid
            fid = p
        return None

    def minfo(self):
        return self.frames[self.fid][2]

    # cells
    def new_cell(self, sv):
        cid = nid()
        self.cells[cid] = ("val", sv)
        return Loc(cid)

    def root(self, cid):
        while self.cells[cid][0] == "view":
            cid = self.cells[cid][1]
        return cid

    def read(self, cid):
        c = self.cells[cid]
        if c[0] == "val":
            return c[1]
        par = self.read(c[1])
        return elem(par, c[2])

    def write(self, cid, sv):
        self.ver += 1
        c = self.cells[cid]
        if c[0] == "val":
            self.cells[cid] = ("val", sv)
            return
        par = self.read(c[1])
        self.write(c[1], store(par, c[2], sv))

    def deref(self, v):
        if isinstance(v, Loc):
            return self.read(v.cid)
        return v


def elem(par, key):
    ty = par.ty
    if isinstance(ty, Seq):
        return SV(ty.t, ty.at(par.t, key))
    if isinstance(ty, DictT):
        return SV(ty.v, sel(ty.val(par.t), key))
    if isinstance(ty, ITup):
        return SV(ty.t, ty.at(par.t, key))
    if isinstance(ty, MapT):
        return SV(ty.v, sel(par.t, key))
    raise Unsupported(f"element of {ty}")


def store(par, key, sv):
    ty = par.ty
    if isinstance(ty, Seq):
        return SV(ty, ty.mk(ty.len(par.t), z3.Store(ty.arr(par.t), key, sv.t)))
    if isinstance(ty, DictT):
        return SV(ty, ty.mk(ty.dom(par.t), z3.Store(ty.val(par.t), key, sv.t)))
    raise Unsupported(f"store into {ty}")
