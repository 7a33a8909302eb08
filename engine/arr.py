"""Index-function arrays: the stencil domain.

An array is a function from symbolic indices to scalar terms.  An index on an
axis is ``('L', k)`` (k-th from the low end), ``('H', k)`` (k-th from the high
end) or ``('G', d)`` (a generic interior position, shifted by d).  Slicing,
padding, shifting and slice assignment are index maps, so the value of an array
expression at a cell class is the exact stencil, boundary cases included.
"""

from __future__ import annotations

from dataclasses import dataclass
from typing import Callable, NamedTuple, Optional

from . import poly as P


class Unsupported(Exception):
    pass


class DefiniteError(Exception):
    """The analysed code raises here on every grid (e.g. shape mismatch)."""


class Ext(NamedTuple):
    """Axis length: nominal symbol (or None) plus a constant."""

    sym: Optional[str]
    c: int

    def plus(self, k):
        return Ext(self.sym, self.c + k)

    def one(self):
        return self.sym is None and self.c == 1

    def poly(self):
        if self.sym is None:
            return P.P(self.c)
        return P.sym("size", self.sym, pos=True) + self.c


ONE_EXT = Ext(None, 1)


class Sc:
    """A scalar term. ``d``: (guard, denominator) pairs that may make it NaN."""

    __slots__ = ("p", "d", "k")

    def __init__(self, p, d=frozenset(), k="num"):
        self.p = P.P(p)
        self.d = d
        self.k = k

    def __repr__(self):
        return f"Sc({self.p!r}:{self.k})"

    def __eq__(self, o):
        return isinstance(o, Sc) and self.p == o.p and self.d == o.d

    def __hash__(self):
        return hash(self.p)


MAXD = 40


def du(*ds):
    r = frozenset().union(*ds)
    return r


def gate(d, g):
    """Denominators only matter where the guard holds."""
    if not d or g.is_one():
        return d
    if g.is_zero():
        return frozenset()
    out = set()
    for gg, den in d:
        x = gg * g
        if not x.is_zero() and (len(x.t) * len(den.t) > 30 or not (x * P.eq0(den)).is_zero()):
            out.add((x, den))
    return frozenset(out)


def s_add(a, b):
    k = "num"
    if "time" in (a.k, b.k):
        k = "time"
    elif "td" in (a.k, b.k):
        k = "td"
    return Sc(a.p + b.p, du(a.d, b.d), k)


def s_sub(a, b):
    k = "num"
    if a.k == "time" and b.k == "time":
        k = "td"
    elif a.k == "time":
        k = "time"
    elif a.k == "td" or b.k == "td":
        k = "td"
    return Sc(a.p - b.p, du(a.d, b.d), k)


def s_mul(a, b):
    k = "td" if "td" in (a.k, b.k) else "num"
    return Sc(a.p * b.p, du(a.d, b.d), k)


def s_div(a, b):
    k = "num"
    if a.k == "td" and b.k != "td":
        k = "td"
    d = du(a.d, b.d)
    if b.p.is_zero() and a.p.is_zero():
        return Sc(P.ZERO, d | {(P.ONE, P.ZERO)}, k)
    if not b.p.is_const():
        ks = P.known_sign(b.p)
        if ks not in (1, -1):
            d = d | {(P.ONE, b.p)}
    return Sc(a.p * P.inv(b.p), d, k)


def s_pow(a, b):
    if b.p.is_const() and b.p.const().denominator == 1 and abs(b.p.const()) <= 8:
        return Sc(a.p ** int(b.p.const()), a.d)
    return Sc(P.fn("pow", a.p, b.p), du(a.d, b.d))


def s_floordiv(a, b):
    return Sc(P.fn("floor", a.p * P.inv(b.p)), du(a.d, b.d))


def s_mod(a, b):
    return Sc(a.p - b.p * P.fn("floor", a.p * P.inv(b.p)), du(a.d, b.d))


def s_bool(p, *xs):
    return Sc(p, du(*[x.d for x in xs]), "bool")


def missing(x: Sc):
    """Is it NaN, whatever the rest?"""
    return any(g.is_one() and den.is_zero() for g, den in x.d)


def s_compare(p, a, b):
    if a.d and missing(a) or b.d and missing(b):
        return Sc(P.ZERO, k="bool")
    return s_bool(p, a, b)


def truth(x: Sc) -> P.Poly:
    if x.k == "bool" or P.is_boolpoly(x.p):
        return x.p
    return P.ONE - P.eq0(x.p)


BIN = {
    "+": s_add,
    "-": s_sub,
    "*": s_mul,
    "/": s_div,
    "**": s_pow,
    "//": s_floordiv,
    "%": s_mod,
    "<": lambda a, b: s_compare(P.lt(a.p, b.p), a, b),
    "<=": lambda a, b: s_compare(P.le(a.p, b.p), a, b),
    ">": lambda a, b: s_compare(P.lt(b.p, a.p), a, b),
    ">=": lambda a, b: s_compare(P.le(b.p, a.p), a, b),
    "==": lambda a, b: s_compare(P.eq(a.p, b.p), a, b),
    "!=": lambda a, b: s_bool(P.ONE - P.eq(a.p, b.p), a, b),
    "&": lambda a, b: s_bool(truth(a) * truth(b), a, b),
    "|": lambda a, b: s_bool(truth(a) + truth(b) - truth(a) * truth(b), a, b),
    "^": lambda a, b: s_bool(
        truth(a) + truth(b) - 2 * truth(a) * truth(b), a, b
    ),
}


def s_neg(a):
    return Sc(-a.p, a.d, a.k)


def s_not(a):
    return Sc(P.ONE - truth(a), a.d, "bool")


def s_where(c: Sc, a: Sc, b: Sc) -> Sc:
    t = truth(c)
    k = a.k if a.k == b.k else ("bool" if False else (a.k if b.p.is_const() else b.k))
    r = Sc(P.where(t, a.p, b.p), du(gate(a.d, t), gate(b.d, P.ONE - t), c.d), k)
    if RANGE is not None:
        RANGE.where(r.p, a.p, b.p)
    return r


class RangeFacts:
    """Order facts about named terms: lower/upper bounds known by construction."""

    def __init__(self):
        self.lo: dict = {}
        self.hi: dict = {}
        self.wh: dict = {}
        self.parts: dict = {}
        self.mx: dict = {}
        self.mn: dict = {}

    def minmax(self, r, a, b, which):
        (self.hi if which == "min" else self.lo).setdefault(r, set()).update((a, b))
        (self.mn if which == "min" else self.mx).setdefault(r, set()).add((a, b))

    def where(self, r, a, b):
        self.wh.setdefault(r, set()).add((a, b))

    def alias(self, a, b):
        """b names a: facts about a hold for b."""
        for m in (self.lo, self.hi, self.wh, self.mx, self.mn):
            if a in m:
                m.setdefault(b, set()).update(m[a])

    def le(self, a, b, depth=10, memo=None) -> bool:
        """a <= b provable from construction facts?"""
        if memo is None:
            memo = {}
        key = (a.ident(), b.ident())
        r = memo.get(key)
        if r is None:
            memo[key] = False
            r = memo[key] = self._le(a, b, depth, memo)
        return r

    def _le(self, a, b, depth, memo) -> bool:
        if P.known_sign(b - a) in (1, 0, ">=0"):
            return True
        if depth <= 0 or len(memo) > 20000:
            return False
        le = lambda x, y: self.le(x, y, depth - 1, memo)
        for x, y in self.wh.get(a, ()):
            if x != a and y != a and le(x, b) and le(y, b):
                return True
        for x, y in self.wh.get(b, ()):
            if x != b and y != b and le(a, x) and le(a, y):
                return True
        for h in self.hi.get(a, ()):
            if h != a and le(h, b):
                return True
        for lo in self.lo.get(b, ()):
            if lo != b and le(a, lo):
                return True
        for x, y in self.mx.get(a, ()):
            if le(x, b) and le(y, b):
                return True
        for x, y in self.mn.get(b, ()):
            if le(a, x) and le(a, y):
                return True
        if a.is_zero() and len(b.t) > 1:
            # a sum of terms, each non-negative
            if all(self.mono_nonneg(m, c, depth - 1, memo) for m, c in b.t.items()):
                return True
        return False

    def mono_nonneg(self, m, c, depth, memo):
        p = P.Poly({m: c})
        if P.known_sign(p) in (1, 0, ">=0") or self.le(P.ZERO, p, depth, memo):
            return True
        # scalar factor
        q = P.Poly({m: 1 if c > 0 else -1})
        return q != p and self.le(P.ZERO, q, depth, memo)


RANGE: Optional[RangeFacts] = RangeFacts()


def s_max(a, b):
    r = Sc(P.pmax(a.p, b.p), du(a.d, b.d), a.k)
    RANGE.minmax(r.p, a.p, b.p, "max")
    return r


def s_min(a, b):
    r = Sc(P.pmin(a.p, b.p), du(a.d, b.d), a.k)
    RANGE.minmax(r.p, a.p, b.p, "min")
    return r


def s_abs(a):
    r = Sc(P.pabs(a.p), a.d, a.k)
    RANGE.lo.setdefault(r.p, set()).add(P.ZERO)
    return r


def s_sign(a):
    return Sc(P.psign(a.p), a.d)


# --- indices ---------------------------------------------------------------
def shift(ix, d):
    b, k = ix
    if d == 0:
        return ix
    if b == "H":
        return (b, k - d)
    if b in ("L", "G"):
        return (b, k + d)
    return (b, k) if d == 0 else ("?", (ix, d))


def from_end(ext: Ext, m: int):
    """Index of element -m (m >= 1)."""
    if ext.sym is None:
        return ("L", ext.c - m)
    return ("H", m - 1 - ext.c)


def below(ix, n: int) -> bool:
    """ix < n for a small constant n?"""
    b, k = ix
    if b == "L":
        return k < n
    return False


def at_or_above_end(ix, ext: Ext, n: int) -> bool:
    """ix >= size - n ?"""
    b, k = ix
    if ext.sym is None:
        if b == "L":
            return k >= ext.c - n
        return False
    if b == "H":
        # value = sym-1-k >= sym + c - n
        return -1 - k >= ext.c - n
    return False


def in_range(ix, ext: Ext) -> bool:
    return not below(ix, 0) and not at_or_above_end(ix, ext, 0)


class Arr:
    def __init__(self, dims, shape, fn: Callable, kind="num", nonuni=frozenset()):
        self.dims = tuple(dims)
        self.shape = tuple(shape)
        assert len(self.dims) == len(self.shape)
        self._fn = fn
        self.kind = kind
        self.memo: dict = {}
        self.nonuni = frozenset(nonuni)
        self._fp = None
        self.sel = None  # (mask, values over all cells) of a boolean selection

    @property
    def ndim(self):
        return len(self.dims)

    def at(self, idx) -> Sc:
        idx = tuple(idx)
        r = self.memo.get(idx)
        if r is None:
            for ix, e in zip(idx, self.shape):
                if not in_range(ix, e):
                    raise DefiniteError(f"index {ix} out of range for extent {e}")
            r = self._fn(idx)
            self.memo[idx] = r
        return r

    def generic(self) -> Sc:
        return self.at(tuple(gen_index(e) for e in self.shape))

    def corner_classes(self):
        return [axis_classes(e) for e in self.shape]

    def fp(self):
        """Fingerprint: value numbers at every cell class."""
        if self._fp is None:
            import itertools

            out = []
            for idx in itertools.product(*[axis_classes(e, brief=True) for e in self.shape]):
                try:
                    out.append(self.at(idx).p.ident())
                except DefiniteError:
                    out.append(-1)
            self._fp = ("arr", self.dims, self.shape, tuple(out))
        return self._fp

    def __repr__(self):
        try:
            g = self.generic()
        except Exception as e:  # pragma: no cover - display only
            g = e
        return f"Arr({self.dims}, {g!r})"


NAMECUT = 14


def named(a: Arr) -> Arr:
    """Same array with large cell terms abbreviated (see poly.let)."""
    if getattr(a, "is_named", False):
        return a

    def fn(idx):
        x = a.at(idx)
        if len(x.p.t) > NAMECUT and x.k != "bool":
            y = Sc(P.let(x.p), x.d, x.k)
            RANGE.alias(x.p, y.p)
            return y
        return x

    r = Arr(a.dims, a.shape, fn, a.kind, a.nonuni)
    r.is_named = True
    r.sel = a.sel if a.sel is None else (a.sel[0], named(a.sel[1]))
    return r


def gen_index(e: Ext):
    if e.sym is None:
        return ("L", 0)
    return ("G", 0)


def axis_classes(e: Ext, brief=False):
    if e.sym is None:
        return [("L", k) for k in range(min(e.c, 8))]
    if brief:
        return [("L", 0), ("L", 1), ("G", 0), ("H", -e.c + 1), ("H", -e.c)]
    return [
        ("L", 0), ("L", 1), ("L", 2), ("G", 0),
        ("H", 2 - e.c), ("H", 1 - e.c), ("H", -e.c),
    ]


def symbol_array(name, dims, shape, kind="num", boolean=False, pos=False, nonneg=False):
    axes = [d if d is not None else f"ax{n}" for n, d in enumerate(dims)]

    def fn(idx):
        key = tuple((ax, b, k) for ax, (b, k) in zip(axes, idx))
        return Sc(
            P.sym(name, *key, boolean=boolean, pos=pos, nonneg=nonneg), k=kind
        )

    return Arr(dims, shape, fn, kind)


def const_array(v, dims, shape):
    s = v if isinstance(v, Sc) else Sc(v)
    return Arr(dims, shape, lambda idx: s, s.k)


def compat(e1: Ext, e2: Ext, where=""):
    if e1 == e2:
        return e1
    if e1.one():
        return e2
    if e2.one():
        return e1
    raise DefiniteError(f"operands could not be broadcast together: {e1} vs {e2} {where}")


def broadcast(arrs, labelled: bool):
    """Common (dims, shape, index selectors) for a list of Arr."""
    if labelled:
        dims: list = []
        shape: dict = {}
        for a in arrs:
            for d, e in zip(a.dims, a.shape):
                if d not in shape:
                    dims.append(d)
                    shape[d] = e
                else:
                    shape[d] = compat(shape[d], e, str(d))
        sel = []
        for a in arrs:
            sel.append([dims.index(d) for d in a.dims])
        sh = tuple(shape[d] for d in dims)
    else:
        n = max(a.ndim for a in arrs)
        dims = [None] * n
        sh = [ONE_EXT] * n
        sel = []
        for a in arrs:
            off = n - a.ndim
            sel.append([off + k for k in range(a.ndim)])
            for k in range(a.ndim):
                sh[off + k] = compat(sh[off + k], a.shape[k])
                if dims[off + k] is None:
                    dims[off + k] = a.dims[k]
        sh = tuple(sh)
    return tuple(dims), sh, sel


def pick(a: Arr, idx, sel):
    out = []
    for s, e in zip(sel, a.shape):
        out.append(("L", 0) if e.one() else idx[s])
    return a.at(out)


def elementwise(f, arrs, labelled=False, kind=None):
    dims, sh, sel = broadcast(arrs, labelled)
    nonuni = set()
    for a, s in zip(arrs, sel):
        for k in a.nonuni:
            nonuni.add(s[k])

    def fn(idx):
        return f(*[pick(a, idx, s) for a, s in zip(arrs, sel)])

    r = Arr(dims, sh, fn, kind or "num", nonuni)
    masks = [a.sel for a in arrs if a.sel is not None]
    if masks and all(m[0].fp() == masks[0][0].fp() for m in masks) and all(a.sel is not None or a.ndim == 0 for a in arrs):
        r.sel = (masks[0][0], elementwise(f, [a.sel[1] if a.sel is not None else a for a in arrs], labelled, kind))
    return r


def masked(a, mask):
    """``a[mask]``: the cells of ``a`` where ``mask`` holds, in order."""
    if a.ndim != mask.ndim:
        raise Unsupported("mask of other rank")
    k = vn(("masked", mask.fp()))
    fpa = vn(a.fp())
    r = Arr((None,), (Ext(f"sel{k}", 0),), lambda ix: Sc(P.fn("take", ("k", fpa), ("m", k), *ix)), a.kind)
    r.sel = (mask, a)
    return r


# --- indexing ----------------------------------------------------------------
def norm_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if isinstance(k, type(Ellipsis))]:
        i = next(n_ for n_, k in enumerate(key) if k is Ellipsis)
        key[i : i + 1] = [slice(None)] * (ndim - n)
    else:
        key += [slice(None)] * (ndim - n)
    return key


def slice_spec(s: slice, ext: Ext):
    """(offset, new extent, flipped) of a unit-step slice with small constants."""
    step = s.step
    if step not in (None, 1, -1):
        raise Unsupported("slice step")
    for b in (s.start, s.stop):
        if b is not None and (not isinstance(b, int) or isinstance(b, bool)):
            raise Unsupported("symbolic slice bound")
    if step == -1:
        if s.start is None and s.stop is None:
            return 0, ext, True
        raise Unsupported("reverse slice")
    start, stop = s.start, s.stop
    if ext.sym is None:
        r = range(ext.c)[slice(start, stop)]
        return (r.start, Ext(None, len(r)), False)
    if start is None:
        start = 0
    if start < 0:
        # from the end: offset = sym + c + start
        if stop is None:
            return ("end", -start), Ext(None, -start), False
        if stop < 0:
            return ("end", -start), Ext(None, max(0, stop - start)), False
        raise Unsupported("slice from end with positive stop")
    if stop is None:
        return start, ext.plus(-start), False
    if stop < 0:
        return start, ext.plus(stop - start), False
    return start, Ext(None, max(0, stop - start)), False


def map_slice(ix, off, ext, flipped):
    if flipped:
        b, k = ix
        if ext.sym is None:
            return ("L", ext.c - 1 - k)
        if b == "L":
            return ("H", k - ext.c)
        if b == "H":
            return ("L", k + ext.c)
        return ("R", (b, k))
    if isinstance(off, tuple):  # counted from the end
        b, k = ix
        m = off[1] - k
        return from_end(ext, m)
    return shift(ix, off)


def getitem(a: Arr, key):
    key = norm_key(key, a.ndim)
    dims, shape, maps = [], [], []
    ax = 0
    for k in key:
        if k is None:
            dims.append(None)
            shape.append(ONE_EXT)
            maps.append(("new",))
            continue
        if ax >= a.ndim:
            raise DefiniteError("too many indices")
        e = a.shape[ax]
        if isinstance(k, bool):
            raise Unsupported("bool index")
        if isinstance(k, int):
            ix = ("L", k) if k >= 0 else from_end(e, -k)
            maps.append(("int", ax, ix))
        elif isinstance(k, slice) and e.sym is None and k.step not in (None, 1, -1) and all(
                x is None or (isinstance(x, int) and not isinstance(x, bool)) for x in (k.start, k.stop, k.step)):
            r = range(e.c)[k]
            dims.append(a.dims[ax])
            shape.append(Ext(None, len(r)))
            maps.append(("pick", ax, r))
        elif isinstance(k, slice):
            off, ne, fl = slice_spec(k, e)
            if ne.sym is None and ne.c < 0:
                ne = Ext(None, 0)
            dims.append(a.dims[ax])
            shape.append(ne)
            maps.append(("slice", ax, off, e, fl))
        else:
            raise Unsupported(f"index {k!r}")
        ax += 1
    nonuni = set()
    n = 0
    for m in maps:
        if m[0] == "slice":
            if m[1] in a.nonuni or m[4]:
                nonuni.add(n)
        if m[0] != "int":
            n += 1

    def fn(idx):
        inner = [None] * a.ndim
        p = 0
        for m in maps:
            if m[0] == "new":
                p += 1
            elif m[0] == "int":
                inner[m[1]] = m[2]
            elif m[0] == "pick":
                inner[m[1]] = ("L", m[2][idx[p][1]])
                p += 1
            else:
                inner[m[1]] = map_slice(idx[p], m[2], m[3], m[4])
                p += 1
        return a.at(inner)

    return Arr(dims, shape, fn, a.kind, nonuni)


def const_axis(e: Ext) -> bool:
    return e.sym is None and 0 < e.c <= 64


def axis_values(a: "Arr", ax, idx):
    """The elements along an axis of known length, at the other indices."""
    return [a.at(idx[:ax] + (("L", k),) + idx[ax:]) for k in range(a.shape[ax].c)]


def select(n: Sc, xs):
    """Element n of a list of scalars."""
    if n.p.is_const():
        c = n.p.const()
        if c.denominator == 1 and -len(xs) <= c < len(xs):
            return xs[int(c)]
        raise DefiniteError("index out of bounds")
    if all(x == xs[0] for x in xs):
        return xs[0]
    d = frozenset()
    for x in xs:
        d = d | x.d
    return Sc(P.fn("pick", n.p, *[x.p for x in xs]), d | n.d, xs[0].k)


def argsort(a: "Arr", ax):
    sub = lambda ix: ix[:ax] + ix[ax + 1:]

    def at(ix):
        xs = axis_values(a, ax, sub(ix))
        return Sc(P.fn("argsort", *[x.p for x in xs], ix[ax][1], nonneg=True))
    return Arr(a.dims, a.shape, memo_at(at), "num", set(a.nonuni) | {ax})


def gather(a: "Arr", idx: "Arr", ax):
    """a[idx] along one axis of known length (idx has the same number of axes)."""
    def at(ix):
        o = tuple(("L", 0) if e.one() else i for i, e in zip(ix, a.shape))
        n = idx.at(tuple(("L", 0) if e.one() else i for i, e in zip(ix, idx.shape)))
        return select(n, axis_values(a, ax, o[:ax] + o[ax + 1:]))
    sh = [idx.shape[k] if k == ax or a.shape[k].one() else a.shape[k] for k in range(a.ndim)]
    return Arr(a.dims, sh, memo_at(at), a.kind, set(a.nonuni) | {ax})


def memo_at(f):
    m = {}

    def at(ix):
        ix = tuple(ix)
        r = m.get(ix)
        if r is None:
            r = m[ix] = f(ix)
        return r
    return at


def reduce_axis(a: "Arr", ax, name):
    """argmin, argmax, min or max along an axis of known length."""
    def at(ix):
        xs = axis_values(a, ax, ix)
        n = Sc(P.fn("argmin" if "min" in name else "argmax", *[x.p for x in xs], nonneg=True))
        return n if name.startswith("arg") else select(n, xs)
    return Arr(a.dims[:ax] + a.dims[ax + 1:], a.shape[:ax] + a.shape[ax + 1:], memo_at(at), "num")


def as_index(p, e: Ext):
    """Abstract index with the given value on an axis, or None."""
    if p.is_const():
        return ("L", int(p.const()))
    if e.sym is None:
        return None
    d = p - P.sym("ix", "G")
    if d.is_const():
        return ("G", int(d.const()))
    d = e.poly() - 1 - p
    if d.is_const():
        return ("H", int(d.const()) - e.c)
    return None


def advanced(a: "Arr", keys):
    """a[k0, k1, ...] with integer arrays (or constants) for every axis."""
    n = max(k.ndim for k in keys if isinstance(k, Arr))
    sh = [ONE_EXT] * n
    for k in keys:
        if isinstance(k, Arr):
            for m, e in enumerate(reversed(k.shape)):
                if not e.one():
                    sh[n - 1 - m] = e

    def at(ix):
        out, pick = [], None
        for ax, k in enumerate(keys):
            v = Sc(k) if isinstance(k, int) else k.at(tuple(
                ("L", 0) if e.one() else i for i, e in zip(ix[n - k.ndim:], k.shape)))
            i = as_index(v.p, a.shape[ax])
            if i is not None and i[0] == "L" and i[1] < 0:
                i = from_end(a.shape[ax], -i[1])
            if i is None:
                if pick is not None or not const_axis(a.shape[ax]):
                    return Sc(P.fn("take", ("k", vn(a.fp())), *[
                        (kk.at(tuple(("L", 0) if e.one() else j for j, e in zip(ix[n - kk.ndim:], kk.shape))).p
                         if isinstance(kk, Arr) else kk) for kk in keys]))
                pick = (ax, v)
            else:
                out.append(i)
        if pick is None:
            return a.at(tuple(out))
        return select(pick[1], axis_values(a, pick[0], tuple(out)))
    return Arr((None,) * n, tuple(sh), memo_at(at), a.kind)


def hits(ix, off, ne: Ext, ext: Ext):
    """Is outer index ix inside the sliced window? returns inner idx or None."""
    if isinstance(off, tuple):
        for k in range(ne.c):
            if from_end(ext, off[1] - k) == ix:
                return ("L", k)
        return None
    inner = shift(ix, -off)
    if below(inner, 0) or at_or_above_end(inner, ne, 0):
        return None
    if ne.sym is None and inner[0] != "L":
        return None
    return inner


def setitem(a: Arr, key, val):
    """Array after ``a[key] = val``; val is Sc or Arr (positional broadcasting)."""
    if isinstance(key, Arr):  # boolean mask
        if isinstance(val, Arr):
            if val.sel is None or val.sel[0].fp() != key.fp():
                raise Unsupported("mask assign array")
            return elementwise(lambda x, m, v: s_where(m, v, x), [a, key, val.sel[1]], kind=a.kind)
        return elementwise(lambda x, m: s_where(m, val, x), [a, key], kind=a.kind)
    key = norm_key(key, a.ndim)
    specs = []
    for ax, k in enumerate(key):
        e = a.shape[ax]
        if isinstance(k, int) and not isinstance(k, bool):
            specs.append(("int", ("L", k) if k >= 0 else from_end(e, -k)))
        elif isinstance(k, slice):
            off, ne, fl = slice_spec(k, e)
            if fl:
                raise Unsupported("assign to reversed slice")
            specs.append(("slice", off, ne, e))
        else:
            raise Unsupported("assignment index")
    win = [s[2] for s in specs if s[0] == "slice"]
    if isinstance(val, Arr):
        for n in range(1, val.ndim + 1):
            if n > len(win):
                if not val.shape[-n].one():
                    raise DefiniteError("assignment shape")
                continue
            if val.shape[-n] != win[-n] and not val.shape[-n].one():
                raise DefiniteError(f"could not assign {val.shape} into {win}")
    nonuni = set(a.nonuni) | {
        n for n, s in enumerate(specs)
        if not (s[0] == "slice" and s[1] == 0 and s[2] == s[3])
    }

    def fn(idx):
        inner = []
        for ix, s in zip(idx, specs):
            if s[0] == "int":
                if ix != s[1]:
                    return a.at(idx)
            else:
                h = hits(ix, s[1], s[2], s[3])
                if h is None:
                    return a.at(idx)
                inner.append(h)
        if isinstance(val, Arr):
            v = val
            sub = inner[len(inner) - v.ndim :] if v.ndim <= len(inner) else (
                [("L", 0)] * (v.ndim - len(inner)) + inner
            )
            return v.at([("L", 0) if e.one() else s for s, e in zip(sub, v.shape)])
        return val

    if isinstance(val, Arr):
        # axes along which the assigned values themselves are not uniform
        nonuni |= {len(specs) - val.ndim + n for n in val.nonuni if len(specs) - val.ndim + n >= 0}
    return Arr(a.dims, a.shape, fn, a.kind, nonuni)


def pad(a: Arr, widths, mode, cval=None):
    shape = [e.plus(lo + hi) for e, (lo, hi) in zip(a.shape, widths)]
    cval = cval if cval is not None else Sc(0)

    def fn(idx):
        inner = []
        for ix, e, (lo, hi) in zip(idx, a.shape, widths):
            j = shift(ix, -lo)
            if below(j, 0):
                if mode == "constant":
                    return cval
                if mode == "wrap":
                    j = from_end(e, -j[1])
                elif mode == "edge":
                    j = ("L", 0)
                elif mode == "reflect":
                    j = ("L", -j[1])
                else:
                    raise Unsupported(mode)
            elif at_or_above_end(j, e, 0):
                if mode == "constant":
                    return cval
                if mode == "wrap":
                    n = j[1] - e.c if e.sym is None else -1 - j[1] - e.c
                    j = ("L", n)
                elif mode == "edge":
                    j = from_end(e, 1)
                else:
                    raise Unsupported(mode)
            inner.append(j)
        return a.at(inner)

    nonuni = set(a.nonuni) | {n for n, (lo, hi) in enumerate(widths) if lo or hi}
    return Arr(a.dims, shape, fn, a.kind, nonuni)


def gradient(a: Arr, axis: int):
    e = a.shape[axis]
    lo, hi = ("L", 0), from_end(e, 1)

    def fn(idx):
        ix = idx[axis]

        def at(j):
            return a.at(idx[:axis] + (j,) + idx[axis + 1 :])

        if ix == lo:
            return s_sub(at(("L", 1)), at(lo))
        if ix == hi:
            return s_sub(at(hi), at(shift(hi, -1)))
        r = s_sub(at(shift(ix, 1)), at(shift(ix, -1)))
        return s_mul(r, Sc(P.P(1) * P.Fraction(1, 2)))

    return Arr(a.dims, a.shape, fn, a.kind, set(a.nonuni) | {axis})


def diff(a: Arr, axis: int):
    e = a.shape[axis]
    sh = list(a.shape)
    sh[axis] = e.plus(-1)

    def fn(idx):
        def at(j):
            return a.at(idx[:axis] + (j,) + idx[axis + 1 :])

        return s_sub(at(shift(idx[axis], 1)), at(idx[axis]))

    return Arr(a.dims, sh, fn, a.kind, a.nonuni)


def transpose(a: Arr, perm):
    def fn(idx):
        inner = [None] * a.ndim
        for n, p in enumerate(perm):
            inner[p] = idx[n]
        return a.at(inner)

    return Arr(
        [a.dims[p] for p in perm], [a.shape[p] for p in perm], fn, a.kind,
        {n for n, p in enumerate(perm) if p in a.nonuni},
    )


def sum_axis(a: Arr, axis: int):
    e = a.shape[axis]
    dims = a.dims[:axis] + a.dims[axis + 1 :]
    shape = a.shape[:axis] + a.shape[axis + 1 :]
    name = a.dims[axis] or f"ax{axis}"

    def fn(idx):
        def at(j):
            return a.at(idx[:axis] + (j,) + idx[axis:])

        if e.sym is None:
            r = Sc(0)
            for k in range(e.c):
                r = s_add(r, at(("L", k)))
            return r
        if axis in a.nonuni:
            return Sc(P.fn("sum_nonuniform", *[at(j).p for j in axis_classes(e, brief=True)]))
        x = at(("G", 0))
        return Sc(P.psum(name, x.p, e.c), x.d)

    return Arr(dims, shape, fn, "num", {n if n < axis else n - 1 for n in a.nonuni if n != axis})


def insert_low(a: Arr, axis: int, val):
    """np.insert(a, 0, val, axis): one new element at the low end."""
    sh = list(a.shape)
    sh[axis] = sh[axis].plus(1)

    def fn(idx):
        if idx[axis] == ("L", 0):
            if isinstance(val, Arr):
                sub = idx[:axis] + idx[axis + 1 :]
                return val.at([("L", 0) if e.one() else s for s, e in zip(sub, val.shape)])
            return val
        return a.at(idx[:axis] + (shift(idx[axis], -1),) + idx[axis + 1 :])

    return Arr(a.dims, sh, fn, a.kind, set(a.nonuni) | {axis})


def permute_by(a: Arr, order_fp, axis: int, tag="perm"):
    """Reorder along axis by an opaque permutation (identified by fingerprint)."""
    afp = a.fp()
    name = a.dims[axis] or f"ax{axis}"

    def fn(idx):
        key = tuple(
            ((d or f"ax{n}"), b, k) for n, (d, (b, k)) in enumerate(zip(a.dims, idx))
        )
        # the generic value: function of the array, the order and the index
        y = P.fn(tag, ("k", vn(afp)), ("k", vn(order_fp)), *key)
        if tag != "sorted":
            return Sc(y)
        x = a.at(idx)
        return Sc(P.where(P.fn("issorted", ("n", vn(order_fp)), boolean=True), x.p, y), x.d, x.k)

    return Arr(a.dims, a.shape, fn, a.kind, set())


_vn: dict = {}


def vn(x):
    """Small integer for a hashable fingerprint."""
    i = _vn.get(x)
    if i is None:
        i = _vn[x] = len(_vn) + 1
    return i
