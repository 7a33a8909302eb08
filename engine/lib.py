"""Models of the Python, numpy, xarray, pandas and pathlib operations used by
the analysed project, acting on abstract values.

Anything not modelled becomes an uninterpreted value whose key starts with
``?``; obligations that depend on such a value are left undecided.
"""

from __future__ import annotations

import ast
import builtins as _b
import re
from dataclasses import dataclass
from fractions import Fraction
from typing import Any

from . import arr as A
from . import names as known_names
from . import poly as P
from .arr import Arr, DefiniteError, Sc, Unsupported, elementwise
from .arr import Ext as Dim
from .interp import Abs, AnalysisError, Dead
from .values import (
    UNBOUND, Bound, Choice, Cls, DaC, DictC, DsC, Ext, Fn, FrameC, ListC, Maybe,
    Module, NdC, ObjC, Opaque, Partial, Ref, State, StrT, TypeForm, VarC, mkstr,
)

NUM = (bool, int, float, Sc)


@dataclass(frozen=True)
class CoordsV:
    owner: Ref


@dataclass(frozen=True)
class VarsV:
    owner: Ref


@dataclass(frozen=True)
class DtV:
    """The .dt accessor."""

    owner: Any


EXT: dict = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f

    return deco


# ------------------------------------------------------------------ helpers
def cont(st, v):
    return st.heap.get(v.id) if isinstance(v, Ref) else None


def is_nd(st, v):
    return isinstance(cont(st, v), NdC)


def is_da(st, v):
    return isinstance(cont(st, v), DaC)


def is_ds(st, v):
    return isinstance(cont(st, v), DsC)


def is_arr(st, v):
    return isinstance(cont(st, v), (NdC, DaC))


def arr_of(I, st, v) -> Arr:
    if isinstance(v, NUM):
        return A.const_array(I.sc(v), (), ())
    c = cont(st, v)
    if isinstance(c, NdC):
        return c.arr
    if isinstance(c, DaC):
        return st.heap[st.heap[c.var].nd].arr
    if isinstance(c, ListC) and c.tail is None:
        return list_arr(I, st, c)
    raise Unsupported(f"not an array: {type(v).__name__} {type(c).__name__ if c else v}")


def list_arr(I, st, c):
    items = [x for x in c.items]
    if all(isinstance(x, NUM) for x in items):
        vals = [I.sc(x) for x in items]
        return Arr((None,), (Dim(None, len(vals)),), lambda ix: vals[ix[0][1]], "num", {0})
    subs = [arr_of(I, st, x) for x in items]
    if not subs:
        raise Unsupported("empty array")
    d = subs[0]
    return Arr((None,) + d.dims, (Dim(None, len(subs)),) + d.shape,
               lambda ix: subs[ix[0][1]].at(ix[1:]), d.kind, {0})


def mk_nd(I, st, arr, base=None, labels=frozenset()):
    return I.alloc(st, NdC(arr, base, labels))


def mk_var(I, st, nd_id, attrs=None, labels=frozenset()):
    at = attrs if attrs is not None else I.alloc(st, DictC({})).id
    return I.alloc(st, VarC(nd_id, at, labels)).id


def mk_da(I, st, arr, coords, name=None, attrs=None):
    nd = mk_nd(I, st, arr)
    return I.alloc(st, DaC(mk_var(I, st, nd.id, attrs), keep_coords(I, st, coords, arr.dims), name))


def keep_coords(I, st, coords, dims):
    out = {}
    for k, v in coords.items():
        vid = v.v if isinstance(v, Maybe) else v
        d = st.heap[st.heap[vid].nd].arr.dims
        if all(x in dims for x in d):
            out[k] = v
    return out


def mk_ds(I, st, vars, coords, attrs=None, rest=None):
    at = attrs if attrs is not None else I.alloc(st, DictC({})).id
    return I.alloc(st, DsC(vars, coords, at, rest))


def da_of_ds(I, st, ref, name):
    """DataArray view of a variable (shares the variable)."""
    c = st.heap[ref.id]
    v = c.vars.get(name)
    if v is None:
        v = c.coords.get(name)
    if isinstance(v, Maybe):
        v = v.v
    dims = st.heap[st.heap[v].nd].arr.dims
    return I.alloc(st, DaC(v, keep_coords(I, st, c.coords, dims), name))


def to_plain(x: Sc):
    if x.d:
        return x
    if x.k == "bool":
        if x.p.is_one():
            return True
        if x.p.is_zero():
            return False
        return x
    if x.k == "num" and x.p.is_const():
        c = x.p.const()
        if c.denominator == 1:
            return int(c)
        return x
    return x


def constify(v):
    if isinstance(v, Sc) and v.p.is_const() and not v.d:
        c = v.p.const()
        if c.denominator == 1 and v.k in ("num", "bool"):
            return int(c)
    return v


def is_float_like(v):
    return isinstance(v, float)


def dims_from(arr, dims):
    if arr.dims == tuple(dims):
        return arr
    return Arr(dims, arr.shape, lambda ix: arr.at(ix), arr.kind, arr.nonuni)


def index_labels(st, v):
    """The labels of an index coordinate: a list if known, else a key of what they are, or None."""
    v = v.v if isinstance(v, Maybe) else v
    a = st.heap[st.heap[v].nd].arr
    if a.ndim != 1 or a.shape[0].sym is not None or a.shape[0].c > 64:
        return None
    out = [a.at((("L", k),)).p for k in range(a.shape[0].c)]
    return [p.const() for p in out] if all(p.is_const() for p in out) else None


def aligned(I, st, args):
    """Arrays of different labels meet where both have the label (inner join)."""
    args = list(args)
    ids = [n for n, a in enumerate(args) if isinstance(cont(st, a), DaC)]
    for d in dict.fromkeys(d for n in ids for d in arr_of(I, st, args[n]).dims):
        have = [n for n in ids if d in arr_of(I, st, args[n]).dims and d in cont(st, args[n]).coords]
        vs = {(v.v if isinstance(v, Maybe) else v) for v in (cont(st, args[n]).coords[d] for n in have)}
        if len(vs) < 2 or len({st.heap[v].nd for v in vs}) < 2:
            continue
        labels = [index_labels(st, cont(st, args[n]).coords[d]) for n in have]
        if any(x is None or len(set(x)) != len(x) for x in labels) or all(x == labels[0] for x in labels):
            continue
        if any(arr_of(I, st, args[n]).shape[arr_of(I, st, args[n]).dims.index(d)] != (None, len(x)) for n, x in zip(have, labels)):
            continue
        both = [x for x in labels[0] if all(x in y for y in labels[1:])]
        from .lib2 import take_at
        for n, x in zip(have, labels):
            args[n] = take_at(I, st, args[n], d, [x.index(y) for y in both])
    return args


def conformed(I, st, c, v):
    """An array as it is stored in a dataset of other labels: missing where it has no value."""
    for d in arr_of(I, st, v).dims:
        cv = cont(st, v)
        if d not in c.coords or d not in cv.coords:
            continue
        x, y = (q.v if isinstance(q, Maybe) else q for q in (c.coords[d], cv.coords[d]))
        if x == y or st.heap[x].nd == st.heap[y].nd:
            continue
        want, have = index_labels(st, x), index_labels(st, y)
        if want is None or have is None or want == have or len(set(want)) != len(want) or len(set(have)) != len(have):
            continue
        a = arr_of(I, st, v)
        ax = a.dims.index(d)
        if a.shape[ax] != (None, len(have)):
            continue
        from .lib2 import NAN
        where = [have.index(w) if w in have else None for w in want]

        def at(ix, a=a, ax=ax, where=where, n=len(want)):
            b, k = ix[ax]
            p = where[k if b == "L" else n - 1 - k] if b in ("L", "H") else None
            return NAN if p is None else a.at(ix[:ax] + (("L", p),) + ix[ax + 1:])
        shape = a.shape[:ax] + (Dim(None, len(want)),) + a.shape[ax + 1:]
        v = mk_da(I, st, Arr(a.dims, shape, at), {**cv.coords, d: x}, cv.name)
    return v


def lift(I, st, f, args, kind="num"):
    cs = [cont(st, a) for a in args]
    if any(isinstance(c, DsC) for c in cs):
        dss = [(a, c) for a, c in zip(args, cs) if isinstance(c, DsC)]
        names = [n for n in dss[0][1].vars if all(n in c.vars for _, c in dss)]
        if any(c.rest is not None for _, c in dss):
            raise Unsupported("arithmetic on unknown dataset")
        vars = {}
        coords = {}
        for a, c in zip(args, cs):
            if isinstance(c, (DsC, DaC)):
                for k, v in c.coords.items():
                    coords.setdefault(k, v)
        for n in names:
            sub = [da_of_ds(I, st, a, n) if isinstance(c, DsC) else a for a, c in zip(args, cs)]
            g = None
            for _, c in dss:
                if isinstance(c.vars[n], Maybe):
                    g = c.vars[n].g
            r = lift(I, st, f, sub, kind)
            rc = st.heap[r.id]
            vid = rc.var
            vars[n] = Maybe(g, vid) if g is not None else vid
        return mk_ds(I, st, vars, coords)
    if any(isinstance(c, DaC) for c in cs):
        if sum(isinstance(c, DaC) for c in cs) > 1:
            args = aligned(I, st, args)
            cs = [cont(st, a) for a in args]
        das = [(a, c) for a, c in zip(args, cs) if isinstance(c, DaC)]
        alld = []
        for a, c in das:
            for d in arr_of(I, st, a).dims:
                if d not in alld:
                    alld.append(d)
        arrs = []
        coords = {}
        for a, c in zip(args, cs):
            x = arr_of(I, st, a)
            if isinstance(c, DaC):
                for k, v in c.coords.items():
                    coords.setdefault(k, v)
            elif x.ndim:
                base = list(arr_of(I, st, das[0][0]).dims)
                if x.ndim > len(base):
                    raise DefiniteError("operands have incompatible dimensions")
                x = dims_from(x, base[len(base) - x.ndim:])
            arrs.append(x)
        r = elementwise(f, arrs, labelled=True, kind=kind)
        names = {c.name for _, c in das}
        return mk_da(I, st, r, coords, names.pop() if len(names) == 1 else None)
    if any(isinstance(c, (NdC, ListC)) for c in cs):
        return mk_nd(I, st, elementwise(f, [arr_of(I, st, a) for a in args], kind=kind))
    return to_plain(f(*[I.sc(a) for a in args]))


def numeric(I, st, v):
    return isinstance(v, NUM) or isinstance(cont(st, v), (NdC, DaC, DsC))


def kindof(op):
    return "bool" if op in ("<", "<=", ">", ">=", "==", "!=") else "num"


def guarded(f):
    """Turn definite library errors into raise events, unknowns into notes."""

    def g(I, st, *a, **k):
        node = a[-1] if a and isinstance(a[-1], (ast.AST, type(None))) else k.get("node")
        try:
            return f(I, st, *a, **k)
        except DefiniteError as e:
            I.do_raise(st, Opaque(("exc", "ValueError", str(e))), node, str(e))
            st.alive = False
            raise Dead()
        except Unsupported as e:
            I.note(f"unsupported: {e}", node)
            return I.unknown(f.__name__, *[x for x in a if not isinstance(x, ast.AST)][:6], st=st)
        except P.TooBig as e:
            I.note(f"term too large: {e}", node)
            return I.unknown(f.__name__ + ":big", *[x for x in a if not isinstance(x, ast.AST)][:6], st=st)

    g.__name__ = f.__name__
    return g


# ------------------------------------------------------------------ operators
def is_str(v):
    return isinstance(v, (str, StrT))


def sparts(v):
    return v.parts if isinstance(v, StrT) else (v,)


def delit(v):
    if isinstance(v, StrT) and not v.path:
        l = v.lit()
        if l is not None:
            return l
    return v


@guarded
def binop(I, st, op, a, b, node):
    if op in ("+", "-") and isinstance(a, (Ref, Sc)) and isinstance(b, (Ref, Sc)):
        each = index_op(I, st, a, b, lambda x, y: binop(I, st, op, x, y, node))
        if each is not None:
            return I.alloc(st, ListC(tuple(each), "cfindex"))
    if isinstance(a, NUM) and isinstance(b, NUM):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and op in ("+", "-", "*", "//", "%", "**", "&", "|", "^"):
            try:
                if op == "**" and (abs(b) > 64 or b < 0):
                    raise ValueError
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b,
                        "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            except (ZeroDivisionError, ValueError):
                pass
        f = A.BIN.get(op)
        if f is None:
            return I.unknown("op" + op, a, b, st=st)
        r = f(I.sc(a), I.sc(b))
        if op in ("/",) or isinstance(a, float) or isinstance(b, float):
            return r if not (r.k == "bool") else to_plain(r)
        return to_plain(r)
    if op == "/" and isinstance(a, StrT) and a.path:
        return path_join(a, b, I, st)
    if op == "/" and isinstance(a, Opaque) and a.hint == "path":
        return path_join(mkstr((("sym", a.key),), True), b, I, st)
    if op == "+" and is_str(a) and is_str(b):
        return delit(mkstr(sparts(a) + sparts(b), False))
    if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == "*" and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if op == "*" and isinstance(b, tuple) and isinstance(a, int):
        return b * a
    ca, cb = cont(st, a), cont(st, b)
    if op == "/" and isinstance(b, StrT) and b.path and is_str(a):
        return path_join(mkstr(sparts(a), True), b, I, st)
    if is_str(a) and is_str(b) and op not in ("+", "%") and (op != "/" or isinstance(a, str) and isinstance(b, str)):
        I.do_raise(st, Opaque(("exc", "TypeError", op)), node, f"unsupported operands for {op}")
        st.alive = False
        raise Dead()
    if op == "%" and is_str(a):
        return I.unknown("strfmt", a, b, st=st)
    if isinstance(ca, ListC) and isinstance(cb, ListC):
        if op == "+":
            return I.alloc(st, ListC(ca.items + cb.items, ca.kind, ca.tail or cb.tail))
        if ca.kind == cb.kind == "set" and op in ("&", "|", "-", "^", "<=", ">=", "<", ">") and ca.tail is None and cb.tail is None \
                and all(isinstance(x, (str, int)) for x in ca.items + cb.items):
            x, y = set(ca.items), set(cb.items)
            r = {"&": x & y, "|": x | y, "-": x - y, "^": x ^ y, "<=": x <= y, ">=": x >= y, "<": x < y, ">": x > y}[op]
            return r if isinstance(r, bool) else I.alloc(st, ListC(tuple(sorted(r, key=lambda z: (ca.items + cb.items).index(z))), "set"))
        if op == "&":
            return I.alloc(st, ListC((), "set", Abs(Opaque(("setand", I.fp(a, st), I.fp(b, st))), ("and",))))
    if isinstance(ca, ListC) and isinstance(b, int) and op == "*" and ca.tail is None:
        return I.alloc(st, ListC(ca.items * b, ca.kind))
    if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "|":
        return I.alloc(st, DictC({**ca.d, **cb.d}, ca.rest or cb.rest))
    if numeric(I, st, a) and numeric(I, st, b):
        f = A.BIN.get(op)
        if f is None:
            raise Unsupported("operator " + op)
        return lift(I, st, f, [a, b], kindof(op))
    if isinstance(ca, (NdC, DaC)) and isinstance(cb, ListC) or isinstance(cb, (NdC, DaC)) and isinstance(ca, ListC):
        return lift(I, st, A.BIN[op], [a, b], kindof(op))
    if isinstance(ca, ObjC) and isinstance(ca.cls, Cls):
        m = ca.cls.lookup({"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op, ""))
        if isinstance(m, Fn):
            return I.call_fn(m, [a, b], {}, st, node)
    return opq("op" + op, I, st, a, b)


def opq(tag, I, st, *a, hint=""):
    return Opaque((tag,) + tuple(I.fp(x, st) for x in a), hint)


def path_join(a, b, I, st):
    if is_str(b):
        bp = sparts(b)
        if bp and isinstance(bp[0], str) and bp[0].startswith("/"):
            return mkstr(bp, True)
        return mkstr(a.parts + ("/",) + bp, True)
    return mkstr(a.parts + ("/", ("sym", I.fp(b, st))), True)


@guarded
def unop(I, st, op, v, node):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if op == "neg":
            return -v
        if op == "pos":
            return v
        return ~v
    if op == "pos":
        return v
    if numeric(I, st, v):
        return lift(I, st, A.s_neg if op == "neg" else A.s_not, [v], "num" if op == "neg" else "bool")
    return opq("un" + op, I, st, v)


def boolsym(tag, *keys):
    return Sc(P.fn(tag, *keys, boolean=True), k="bool")


def pybool(p):
    if isinstance(p, bool):
        return p
    p = P.P(p)
    if p.is_one():
        return True
    if p.is_zero():
        return False
    return Sc(p, k="bool")


def isnone(I, st, v):
    if v is None:
        return True
    if isinstance(v, Maybe):
        return pybool(P.ONE - v.g)
    if isinstance(v, Opaque):
        if v.hint in ("match", "optional") and v.key[0] != "matchobj" or v.key[0] in ("optional",):
            return boolsym("isnone", v.key)
        if v.hint:
            return False
        return boolsym("isnone", v.key)
    return False


BUILTIN_TYPES = {"int", "float", "str", "bool", "list", "tuple", "set", "dict", "bytes", "frozenset"}


def value_eq(I, st, a, b):
    """Equality of non-array values: True/False/poly."""
    a, b = delit(a), delit(b)
    if isinstance(a, NUM) and isinstance(b, NUM):
        o = known_order(I, a, b)
        return P.P(o[0] == o[1]) if o else A.BIN["=="](I.sc(a), I.sc(b)).p
    if isinstance(a, str) and isinstance(b, str):
        return P.P(a == b)
    if isinstance(a, Ext) and isinstance(b, Ext):
        na, nb = (x.name.rsplit(".", 1)[-1] if x.name.startswith("builtins.") or "." not in x.name else None for x in (a, b))
        if na in BUILTIN_TYPES and nb in BUILTIN_TYPES:
            return P.P(na == nb)
    if a is None or b is None:
        if a is None and b is None:
            return P.ONE
        r = isnone(I, st, b if a is None else a)
        return P.P(r) if isinstance(r, bool) else r.p
    if is_str(a) and is_str(b):
        if sparts(a) == sparts(b):
            return P.ONE
        if strs_differ(a, b):
            return P.ZERO
        ta, tb = (x if isinstance(x, str) else known_text(I, x) for x in (a, b))
        if ta is not None and tb is not None:
            return P.P(ta == tb)
        ka, kb = sorted([I.fp(a, st), I.fp(b, st)], key=repr)
        return P.fn("streq", ka, kb, boolean=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return P.ZERO
        r = P.ONE
        for x, y in zip(a, b):
            r = r * value_eq(I, st, x, y)
        return r
    ca, cb = cont(st, a), cont(st, b)
    if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.tail is None and cb.tail is None:
        if (ca.kind == "set") != (cb.kind == "set"):
            return P.ZERO
        if ca.kind == "set":
            if all(isinstance(x, (str, int)) for x in ca.items + cb.items):
                return P.P(set(ca.items) == set(cb.items))
        elif len(ca.items) == len(cb.items):
            r = P.ONE
            for x, y in zip(ca.items, cb.items):
                r = r * value_eq(I, st, x, y)
            return r
        else:
            return P.ZERO
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
        return P.ONE
    simple = (str, int, float, bool, tuple)
    if isinstance(ca, (ListC, DictC, ObjC)) and isinstance(b, simple) and not isinstance(b, tuple):
        return P.ZERO
    if isinstance(cb, (ListC, DictC, ObjC)) and isinstance(a, simple) and not isinstance(a, tuple):
        return P.ZERO
    if is_str(a) and isinstance(b, NUM) or is_str(b) and isinstance(a, NUM):
        return P.ZERO
    fa, fb = I.fp(a, st), I.fp(b, st)
    if fa == fb:
        return P.ONE
    if isinstance(a, tuple) != isinstance(b, tuple) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
        return P.ZERO
    ka, kb = sorted([fa, fb], key=repr)
    return P.fn("eqv", ka, kb, boolean=True)


def strs_differ(a, b):
    """Provably different strings (literal prefixes/suffixes clash)."""
    pa, pb = sparts(a), sparts(b)
    if not pa or not pb:
        return False
    if isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return True
    if isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][-n:] != pb[-1][-n:]:
            return True
    return False


@guarded
def index_items(st, v):
    """The times of an index, if they are listed."""
    c = cont(st, v) if isinstance(v, Ref) else None
    return c.items if isinstance(c, ListC) and c.kind == "cfindex" and c.tail is None and all(isinstance(x, Sc) for x in c.items) else None


def index_op(I, st, a, b, f):
    """An operation with an index of times, time by time; None if there is none."""
    xa, xb = index_items(st, a), index_items(st, b)
    if xa is None and xb is None:
        return None
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            raise DefiniteError("lengths of indices differ")
        return [f(x, y) for x, y in zip(xa, xb)]
    if not numeric(I, st, b if xa is not None else a) or is_arr(st, b if xa is not None else a):
        return None
    return [f(x, b) for x in xa] if xa is not None else [f(a, y) for y in xb]


def index_mask(I, st, its):
    """Truth values, one for each of a list."""
    its = [Sc(P.ONE if x else P.ZERO, k="bool") if isinstance(x, bool) else x for x in its]
    if not all(isinstance(x, Sc) for x in its):
        return None
    return mk_nd(I, st, A.Arr(("index",), (A.Ext(None, len(its)),), lambda ix: its[ix[0][1]] if ix[0][0] == "L" else its[len(its) - 1 - ix[0][1]] if ix[0][0] == "H" else A.select(ix[0], its)))


def compare(I, st, op, a, b, node):
    if isinstance(op, (ast.Is, ast.IsNot)):
        neg = isinstance(op, ast.IsNot)
        if b is None or a is None:
            r = isnone(I, st, a if b is None else b)
        elif isinstance(a, bool) and isinstance(b, bool):
            r = a is b
        elif isinstance(a, Sc) and isinstance(b, bool) or isinstance(b, Sc) and isinstance(a, bool):
            x, y = (a, b) if isinstance(a, Sc) else (b, a)
            r = pybool(A.truth(x) if y else P.ONE - A.truth(x)) if x.k == "bool" else boolsym("is", I.fp(a, st), I.fp(b, st))
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a == b
        else:
            r = pybool(value_eq(I, st, a, b))
        return negate(r) if neg else r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, st, a, b)
        return negate(r) if isinstance(op, ast.NotIn) else r
    from .interp import CMPOPS

    s = CMPOPS[type(op)]
    each = index_op(I, st, a, b, lambda x, y: compare(I, st, op, x, y, node))
    if each is not None:
        r = index_mask(I, st, each)
        if r is not None:
            return r
    o = known_order(I, a, b)
    if o:
        return {"<": o[0] < o[1], "<=": o[0] <= o[1], ">": o[0] > o[1], ">=": o[0] >= o[1], "==": o[0] == o[1], "!=": o[0] != o[1]}[s]
    if numeric(I, st, a) and numeric(I, st, b):
        return lift(I, st, A.BIN[s], [a, b], "bool")
    ca, cb = cont(st, a), cont(st, b)
    if isinstance(ca, (NdC, DaC)) and isinstance(b, Opaque) or isinstance(cb, (NdC, DaC)) and isinstance(a, Opaque):
        return opq("cmp" + s, I, st, a, b, hint="array")
    if s in ("==", "!="):
        r = pybool(value_eq(I, st, a, b))
        return negate(r) if s == "!=" else r
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[s]
    if isinstance(a, (Opaque, Sc, int, float)) and isinstance(b, (Opaque, Sc, int, float)):
        x, y = opnum(I, st, a), opnum(I, st, b)
        return to_plain(A.BIN[s](x, y))
    return boolsym("cmp" + s, I.fp(a, st), I.fp(b, st))


def opnum(I, st, v) -> Sc:
    """Numeric view of an opaque value."""
    if isinstance(v, Opaque):
        return Sc(P.fn("num", v.key))
    return I.sc(v)


def negate(r):
    if isinstance(r, bool):
        return not r
    return Sc(P.ONE - r.p, k="bool")


def contains(I, st, a, b):
    a, b = delit(a), delit(b)
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    if isinstance(b, (tuple,)):
        return anyeq(I, st, a, b)
    c = cont(st, b)
    if isinstance(c, ListC):
        r = anyeq(I, st, a, [x for x in c.items if not isinstance(x, Maybe)])
        ms = [x for x in c.items if isinstance(x, Maybe)]
        p = P.P(r) if isinstance(r, bool) else r.p
        for m in ms:
            e = m.g * value_eq(I, st, a, m.v)
            p = p + e - p * e
        if c.tail is not None and not p.is_one():
            return boolsym("in", I.fp(a, st), I.fp(b, st))
        return pybool(p)
    if isinstance(c, DictC):
        k = hashable(I, a, st)
        if k in c.d:
            x = c.d[k]
            return pybool(x.g) if isinstance(x, Maybe) else True
        if c.rest is None and (isinstance(a, str)):
            return False
        return boolsym("in", I.fp(a, st), ("keys", b.id))
    if isinstance(c, DsC) or isinstance(b, (CoordsV, VarsV)):
        return in_ds(I, st, a, b)
    if isinstance(c, DaC):
        return boolsym("in", I.fp(a, st), I.fp(b, st))
    return boolsym("in", I.fp(a, st), I.fp(b, st))


def in_ds(I, st, a, b):
    ref = b.owner if isinstance(b, (CoordsV, VarsV)) else b
    c = cont(st, ref)
    m = {}
    rest = getattr(c, "rest", None)
    if isinstance(b, CoordsV):
        m = c.coords
    elif isinstance(b, VarsV):
        m = c.vars
    else:
        m = {**c.coords, **c.vars}
    if isinstance(a, str):
        if a in m:
            x = m[a]
            return pybool(x.g) if isinstance(x, Maybe) else True
        if rest is None:
            return False
    return boolsym("in", I.fp(a, st), ("ds", rest.key if rest else 0))


def anyeq(I, st, a, items):
    p = P.ZERO
    for x in items:
        e = value_eq(I, st, a, x)
        p = p + e - p * e
        if p.is_one():
            return True
    return pybool(p)


@guarded
def inplace(I, st, op, a, b, node):
    c = cont(st, a)
    if isinstance(c, NdC):
        r = arr_of(I, st, binop(I, st, op, a, b, node)) if not isinstance(b, Opaque) else None
        if r is None:
            r = unknown_like(I, st, c.arr, ("inplace", op, I.fp(a, st), I.fp(b, st)))
        if r.shape != c.arr.shape:
            raise DefiniteError("non-broadcastable output operand")
        write_buf(I, st, a.id, dims_from(r, c.arr.dims), node)
        return a
    if isinstance(c, DaC):
        nd = st.heap[c.var].nd
        old = st.heap[nd].arr
        x = binop(I, st, op, a, b, node)
        if isinstance(x, Opaque):
            r = unknown_like(I, st, old, x.key)
        else:
            r = arr_of(I, st, x)
        if r.dims != old.dims or r.shape != old.shape:
            raise DefiniteError("dimensions cannot change for in-place operations")
        write_buf(I, st, nd, r, node)
        return a
    if isinstance(c, DsC):
        r = binop(I, st, op, a, b, node)
        if isinstance(r, Opaque):
            return r
        rc = st.heap[r.id]
        if c.labels:
            I.event("mutate", "dataset", st, [a], node=node, extra=c.labels)
        st.heap[a.id] = DsC({**c.vars, **rc.vars}, c.coords, c.attrs, c.rest, c.labels)
        return a
    if isinstance(c, ListC) and op == "+":
        d = cont(st, b)
        items = I.concrete_items(b, st)
        if items is not None:
            st.heap[a.id] = ListC(c.items + tuple(items), c.kind, c.tail)
        else:
            st.heap[a.id] = ListC(c.items, c.kind, Abs(Opaque(("ext", I.fp(b, st))), ("ext",)))
        return a
    return binop(I, st, op, a, b, node)


def unknown_like(I, st, arr, key):
    k = A.vn(key)
    return Arr(arr.dims, arr.shape, lambda ix: Sc(P.sym("?arr", k, *ix)), arr.kind)


def write_buf(I, st, nid, arr, node=None, key=None):
    c = st.heap[nid]
    if c.labels:
        I.event("mutate", "buffer", st, [Ref(nid)], node=node, extra=c.labels)
    st.heap[nid] = NdC(arr, c.base, c.labels)
    if c.base is not None:
        bid, bk = c.base
        b = st.heap.get(bid)
        if isinstance(b, NdC):
            write_buf(I, st, bid, A.setitem(b.arr, bk, arr), node)
            return
    refresh(I, st, nid)


def refresh(I, st, nid):
    arr = st.heap[nid].arr
    for i, c in list(st.heap.items()):
        if isinstance(c, NdC) and c.base is not None and c.base[0] == nid:
            try:
                st.heap[i] = NdC(view(arr, c.base[1]), c.base, c.labels)
            except (Unsupported, DefiniteError):
                continue
            refresh(I, st, i)


def view(arr, key):
    if isinstance(key, tuple) and len(key) == 2 and key[0] == "perm":
        return A.transpose(arr, list(key[1]))
    return A.getitem(arr, key)


# ------------------------------------------------------------------ strings
TOK = re.compile(r"%[A-Za-z%]")


def strftime(p, fmt):
    parts = []
    fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
    i = 0
    for m in TOK.finditer(fmt):
        parts.append(fmt[i:m.start()])
        parts.append("%" if m.group() == "%%" else ("time", p.ident(), m.group()))
        i = m.end()
    parts.append(fmt[i:])
    return delit(mkstr(parts))


def strptime(I, st, s, fmt):
    if isinstance(s, StrT):
        ids = {p[1] for p in s.parts if not isinstance(p, str) and p[0] == "time"}
        if len(ids) == 1 and all(isinstance(p, str) or p[0] == "time" for p in s.parts):
            i = ids.pop()
            t = P.POLY_BY_ID(i)
            if isinstance(fmt, str) and strftime(t, fmt) == s:
                toks = set(TOK.findall(fmt))
                if {"%Y", "%m", "%d", "%H", "%M", "%S"} <= toks:
                    return Sc(t, k="time")
                if {"%Y", "%m", "%d", "%H", "%M"} <= toks:
                    return Sc(P.fn("trunc_min", t), k="time")
            return Sc(P.fn("strptime", I.fp(s, st), I.fp(fmt, st)), k="time")
    return Sc(P.fn("strptime", I.fp(s, st), I.fp(fmt, st)), k="time")


DIGITS = {("year", ""): "%Y", ("year", "d"): "%Y", ("year", "4d"): "%Y"}
for _n, _t in dict(month="%m", day="%d", hour="%H", minute="%M", second="%S").items():
    DIGITS[_n, "2d"] = _t


def digits(v, spec):
    """A part of a date printed as strftime would print it."""
    for n in ("year", "month", "day", "hour", "minute", "second"):
        t = DIGITS.get((n, spec[1:] if spec[:1] == "0" else spec if n == "year" else "?"))
        if t is None:
            continue
        for a in P.all_atoms(v.p):
            k = P.ATOMS[a]
            if k[0] == "fn" and k[1] == n and len(k) == 3 and k[2][0] == "p":
                q = P.POLY_BY_ID(k[2][1])
                if P.fn(n, q, nonneg=True).ident() == v.p.ident():
                    return ("time", q.ident(), t)
    return None


def format_value(I, st, v, spec="", conv=""):
    v = delit(v)
    if isinstance(v, str):
        if not spec:
            return repr(v) if conv == "r" else v
    if isinstance(v, StrT) and not spec:
        return StrT(v.parts, False)
    if isinstance(v, (bool, int)) and not isinstance(v, Sc):
        try:
            return format(v, spec)
        except Exception:
            pass
    if isinstance(v, Sc) and v.k == "time":
        if "%" in spec:
            return strftime(v.p, spec)
        return StrT((("time", v.p.ident(), "str"),))
    if isinstance(v, Sc):
        t = digits(v, spec)
        if t is not None:
            return StrT((t,))
    if isinstance(v, Opaque) and v.key and v.key[0] == "now" and "%" in spec:
        return StrT((("fmt", v.key, spec),))
    if isinstance(v, Choice):
        return StrT((("fmt", I.fp(v, st), spec),))
    c = cont(st, v)
    if isinstance(c, ObjC) and isinstance(c.cls, Cls) and not spec:
        m = c.cls.lookup("__str__")
        if isinstance(m, Fn):
            r = I.call_fn(m, [v], {}, st, None)
            return r if is_str(r) else StrT((("fmt", I.fp(r, st), spec),))
    return StrT((("fmt", I.fp(v, st), spec),))


def to_str(I, st, v):
    v = delit(v)
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    return delit(mkstr((format_value(I, st, v),)))


DATE_TOKENS = {"%Y": ("year", "04"), "%m": ("month", "02"), "%d": ("day", "02"), "%H": ("hour", "02"), "%M": ("minute", "02"),
               "%S": ("second", "02")}


def known_text(I, s):
    """The text of a string in which the parts of dates are known."""
    known = I.cfg.get("time_parts")
    if known is None or not isinstance(s, StrT):
        return None
    out = []
    for x in s.parts:
        if isinstance(x, str):
            out.append(x)
            continue
        n = DATE_TOKENS.get(x[2]) if x[0] == "time" else None
        v = known(Sc(P.POLY_BY_ID(x[1]), k="time"), n[0]) if n else None
        if not isinstance(v, int):
            return None
        out.append(format(v, n[1]))
    return "".join(out)


def known_order(I, *vs):
    """Distinct known dates, as tuples that order as they do."""
    known = I.cfg.get("time_parts") if I.cfg.get("time_order") else None
    if known is None or not all(isinstance(v, Sc) and v.k == "time" for v in vs):
        return None
    out = [tuple(known(v, n) for n in TIME_PARTS[:7]) for v in vs]
    return out if all(isinstance(x, int) for t in out for x in t) else None


def hashable(I, k, st):
    k = delit(k)
    if isinstance(k, StrT):
        t = known_text(I, k)
        k = t if t is not None else k
    if isinstance(k, tuple) and all(isinstance(x, (int, str, StrT)) or isinstance(x, Sc) for x in k):
        t = tuple(hashable(I, x, st) for x in k)
        if all(isinstance(x, (int, str)) for x in t):
            return t
    if isinstance(k, (str, int, bool, type(None))):
        return k
    if isinstance(k, (Sc,)):
        x = constify(k)
        return x if isinstance(x, int) else ("#", I.fp(k, st))
    return ("#", I.fp(k, st))


# ------------------------------------------------------------------ attributes
ND_ATTR = {"shape", "ndim", "size", "T", "dtype", "flat", "mask", "real", "nbytes"}
DA_ATTR = {"values", "data", "dims", "coords", "attrs", "name", "encoding", "indexes", "dt", "sizes", "loc", "plot", "variable", "units", "str"}
DS_ATTR = {"data_vars", "coords", "dims", "attrs", "encoding", "indexes", "sizes", "variables", "nbytes"}


def getattr_(I, st, o, name, node=None):
    o = delit(o) if not isinstance(o, StrT) else o
    if isinstance(o, Module):
        fr = I.base.heap[o.frame].v
        if name in fr:
            return fr[name]
        sub = f"{o.name}.{name}"
        if sub in I.project.sources:
            return I.module(sub)
        I.event("undefined", sub, st, node=node)
        return Opaque(("?attr", sub))
    if isinstance(o, Ext):
        if isinstance(o, TypeForm) and name == "__args__":
            return o.args
        full = f"{o.name}.{name}"
        if full in CONST:
            return CONST[full]
        if full in I.project.sources:
            return I.module(full)
        return Ext(full)
    if isinstance(o, Cls):
        v = o.lookup(name)
        if isinstance(v, Fn):
            if v.kind == "classmethod":
                return Bound(o, v)
            return v
        if v is not None:
            return v
        if name in ("__name__",):
            return o.name
        if name == "__args__":
            return Opaque(("args", o.qual))
        return Opaque(("?clsattr", o.qual, name))
    if isinstance(o, (Sc, int, float)) and not isinstance(o, bool):
        return num_attr(I, st, o, name, node)
    if isinstance(o, (str, StrT)):
        if isinstance(o, StrT) and o.path:
            return path_attr(I, st, o, name)
        return Bound(o, name)
    if isinstance(o, Ref):
        c = st.heap.get(o.id)
        if isinstance(c, ObjC):
            if name in c.f:
                v = c.f[name]
                if v is UNBOUND:
                    I.event("undefined", f"attribute {name}", st, node=node)
                if isinstance(v, Maybe):
                    return v.v
                return v
            if isinstance(c.cls, Cls):
                v = c.cls.lookup(name)
                if isinstance(v, Fn):
                    if v.kind == "property":
                        return I.call_fn(v, [o], {}, st, node)
                    if v.kind == "staticmethod":
                        return v
                    if v.kind == "classmethod":
                        return Bound(c.cls, v)
                    return Bound(o, v)
                if v is not None:
                    return v
                if name == "__class__":
                    return c.cls
                if c.cls.isa("typing.NamedTuple") and absent(None, name, known_names.TUPLE):
                    no_attribute(I, st, name, node)
                if c.cls.isa("typing.NamedTuple") or c.cls.isa("pydantic.BaseModel") or c.cls.bases:
                    return Bound(o, name)
            I.event("noattr", f"{getattr(c.cls, 'qual', c.cls)}.{name}", st, node=node)
            return Opaque(("?attr", I.fp(o, st), name))
        if isinstance(c, DaC):
            return da_attr(I, st, o, c, name, node)
        if isinstance(c, DsC):
            return ds_attr(I, st, o, c, name, node)
        if isinstance(c, NdC):
            return nd_attr(I, st, o, c, name, node)
        if isinstance(c, ListC) and c.kind == "cfindex" and name in TIME_PARTS and c.tail is None:
            return I.alloc(st, ListC(tuple(num_attr(I, st, x, name, node) for x in c.items), "index"))
        return Bound(o, name)
    if isinstance(o, (CoordsV, VarsV)):
        if name == "dims":
            return ds_dims(I, st, o.owner)
        return Bound(o, name)
    if isinstance(o, DtV):
        return dt_attr(I, st, o, name)
    if isinstance(o, Fn):
        if name == "__args__":
            return ()
        return Bound(o, name)
    if isinstance(o, Bound):
        return Bound(o, name)
    if isinstance(o, tuple) or isinstance(o, (Choice, Partial)):
        return Bound(o, name)
    if isinstance(o, Opaque) and o.key[0] == "td_components" and name in TD_PARTS:
        return Sc(P.fn("td_c_" + name if name != "days" else "td_days", o.key[1]))
    if isinstance(o, Opaque):
        return opaque_attr(I, st, o, name, node)
    if o is None:
        I.do_raise(st, Opaque(("exc", "AttributeError", name)), node, f"None has no attribute {name}")
        st.alive = False
        raise Dead()
    return Opaque(("?attr", I.fp(o, st), name))


import math as _math

CONST = {
    "numpy.pi": Sc(P.P(_math.pi)),
    "math.pi": Sc(P.P(_math.pi)),
    "numpy.nan": Sc(P.ZERO, frozenset({(P.ONE, P.ZERO)})),
    "math.nan": Sc(P.ZERO, frozenset({(P.ONE, P.ZERO)})),
    "numpy.inf": Sc(P.infinity()),
    "math.inf": Sc(P.infinity()),
    "numpy.newaxis": None,
    "logging.INFO": 20, "logging.DEBUG": 10, "logging.WARNING": 30, "logging.ERROR": 40,
    "typing.TYPE_CHECKING": False, "re.IGNORECASE": 2, "re.I": 2, "re.MULTILINE": 8, "re.M": 8, "re.DOTALL": 16, "re.S": 16,
}

TD_PARTS = ("days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds")
TIME_PARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond", "dayofyr", "dayofwk")


def num_attr(I, st, o, name, node):
    if isinstance(o, Sc) and o.k == "time":
        if name in TIME_PARTS:
            known = I.cfg.get("time_parts")
            r = known(o, name) if known is not None else None
            if r is not None:
                return r
            return Sc(P.fn(name, o.p, nonneg=True))
        if name == "calendar":
            return I.cfg.get("calendar", Opaque(("calendar",), "str"))
        if name == "has_year_zero":
            return Opaque(("has_year_zero",))
    if isinstance(o, Sc) and o.k == "td" and name in ("days", "seconds"):
        return Sc(P.fn("td_" + name, o.p))
    if isinstance(o, Sc) and o.k == "td" and name == "components":
        return Opaque(("td_components", o.p))
    if isinstance(o, Sc) and o.k == "td" and name in ("microseconds", "nanoseconds"):
        return Sc(P.fn("td_" + name, o.p))
    if name in ("ndim",):
        return 0
    if name in ("values", "data", "real", "T"):
        return o
    return Bound(o, name)


def path_attr(I, st, o, name):
    l = o.lit()
    if name in ("name", "stem", "suffix", "parent"):
        parts = o.parts
        # split on the last slash found in a literal part
        for n in range(len(parts) - 1, -1, -1):
            if isinstance(parts[n], str) and "/" in parts[n]:
                k = parts[n].rindex("/")
                head = parts[:n] + ((parts[n][:k],) if k else ())
                tail = ((parts[n][k + 1:],) if parts[n][k + 1:] else ()) + parts[n + 1:]
                break
        else:
            head, tail = None, parts
        if name == "parent":
            if head is None:
                if l is not None:
                    return mkstr((".",), True)
                return mkstr((("fn", "parent", parts),), True)
            return mkstr(head, True)
        if head is None and len(parts) == 1 and not isinstance(parts[0], str):
            return StrT((("fn", name, parts),))
        if name == "name":
            return delit(mkstr(tail))
        last = tail[-1] if tail else ""
        if isinstance(last, str) and "." in last:
            k = last.rindex(".")
            if name == "suffix":
                return last[k:]
            return delit(mkstr(tail[:-1] + (last[:k],)))
        return StrT((("fn", name, tail),))
    if name == "parents":
        return Opaque(("parents", o.parts))
    return Bound(o, name)


def nd_attr(I, st, o, c, name, node):
    a = c.arr
    if name == "shape":
        return tuple(dim_val(e) for e in a.shape)
    if name == "ndim":
        return a.ndim
    if name == "size":
        return size_of(a)
    if name == "T":
        perm = tuple(range(a.ndim))[::-1]
        return mk_nd(I, st, A.transpose(a, list(perm)), (o.id, ("perm", perm)))
    if name == "dtype":
        return Opaque(("dtype", a.kind), "dtype")
    if absent(None, name, known_names.NDARRAY):
        no_attribute(I, st, name, node)
    return Bound(o, name)


def dim_val(e):
    return e.c if e.sym is None else Sc(e.poly())


def size_of(a):
    p = P.ONE
    for e in a.shape:
        p = p * e.poly()
    return to_plain(Sc(p))


def da_attr(I, st, o, c, name, node):
    v = st.heap[c.var]
    arr = st.heap[v.nd].arr
    if name in ("values", "data"):
        return Ref(v.nd)
    if name == "dims":
        return arr.dims
    if name == "sizes":
        return sizes(I, st, o)
    if name in ("shape", "ndim", "size", "dtype"):
        return nd_attr(I, st, Ref(v.nd), st.heap[v.nd], name, node)
    if name == "T":
        perm = list(range(arr.ndim))[::-1]
        return mk_da(I, st, A.transpose(arr, perm), c.coords, c.name)
    if name == "coords":
        return CoordsV(o)
    if name == "attrs":
        return Ref(v.attrs)
    if name == "name":
        return c.name
    if name == "dt":
        return DtV(o)
    if name == "indexes":
        return index_dict(I, st, o)
    if name in ("variable",):
        return o
    if name in c.coords:
        cv = c.coords[name]
        cv = cv.v if isinstance(cv, Maybe) else cv
        dims = st.heap[st.heap[cv].nd].arr.dims
        return I.alloc(st, DaC(cv, keep_coords(I, st, c.coords, dims), name))
    at = st.heap.get(v.attrs)
    if isinstance(at, DictC) and name in at.d:
        x = at.d[name]
        return x.v if isinstance(x, Maybe) else x
    if absent(at, name, known_names.DATAARRAY) and name not in arr.dims:
        no_attribute(I, st, name, node)
    return Bound(o, name)


def index_dict(I, st, o):
    """The indexes of data: by coordinate, in what order they are, when known."""
    from .lib2 import known_coord
    d = {}
    for n in st.heap[o.id].coords:
        xs = known_coord(I, st, o, n)
        if xs is not None:
            v = st.heap[o.id].coords[n]
            a = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr
            its = [a.at((("L", k),)) for k in range(len(xs))]
            if its and all(x.k == "time" for x in its):
                d[n] = I.alloc(st, ListC(tuple(its), "cfindex"))
                continue
            inc, dec = all(a <= b for a, b in zip(xs, xs[1:])), all(a >= b for a, b in zip(xs, xs[1:]))
            d[n] = Opaque(("indexof", A.vn(tuple(xs)), inc, dec, len(set(xs)) == len(xs)))
    if not d:
        return Opaque(("indexes", I.fp(o, st)))
    return I.alloc(st, DictC(d, Opaque(("indexes", I.fp(o, st)))))


def ds_dims(I, st, o):
    c = st.heap[o.id]
    if isinstance(c, DaC):
        return arr_of(I, st, o).dims
    dims = []
    for m in (c.vars, c.coords):
        for v in m.values():
            v = v.v if isinstance(v, Maybe) else v
            for d in st.heap[st.heap[v].nd].arr.dims:
                if d not in dims:
                    dims.append(d)
    if c.rest is not None:
        return Opaque(("dims", c.rest.key))
    return tuple(dims)


def sizes(I, st, o):
    """Length per dimension."""
    c = st.heap[o.id]
    if isinstance(c, DaC):
        a = arr_of(I, st, o)
        return I.alloc(st, DictC({d: dim_val(e) for d, e in zip(a.dims, a.shape)}))
    out = {}
    for m in (c.vars, c.coords):
        for v in m.values():
            a = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr
            for d, e in zip(a.dims, a.shape):
                out.setdefault(d, dim_val(e))
    return I.alloc(st, DictC(out, Opaque(("sizes", c.rest.key)) if c.rest is not None else None))


def ds_attr(I, st, o, c, name, node):
    if name == "sizes":
        return sizes(I, st, o)
    if name == "coords":
        return CoordsV(o)
    if name == "data_vars":
        return VarsV(o)
    if name in ("variables",):
        return VarsV(o)
    if name == "dims":
        return ds_dims(I, st, o)
    if name == "attrs":
        return Ref(c.attrs)
    if name == "indexes":
        return index_dict(I, st, o)
    if name in c.vars or name in c.coords:
        return ds_get(I, st, o, c, name, node)
    if c.rest is not None and ("ds", name) not in METHODS and name not in DS_OPAQUE:
        return ds_get(I, st, o, c, name, node)
    if ("ds", name) in METHODS or name in DS_OPAQUE or name in ("to_netcdf",):
        return Bound(o, name)
    at = st.heap.get(c.attrs)
    if isinstance(at, DictC) and name in at.d:
        x = at.d[name]
        return x.v if isinstance(x, Maybe) else x
    if c.rest is None and absent(at, name, known_names.DATASET):
        dims = {d for v in list(c.vars.values()) + list(c.coords.values()) for d in st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr.dims}
        if name not in dims:
            no_attribute(I, st, name, node)
    return Bound(o, name)


ATTRS = set("units long_name standard_name description history source title calendar comment institution references Conventions axis positive".split())


def absent(at, name, known):
    """Is the name neither one of the type nor an attribute of the data?"""
    return name not in known and name not in ATTRS and not name.startswith("_") and (not isinstance(at, DictC) or at.rest is None)


def no_attribute(I, st, name, node):
    I.do_raise(st, Opaque(("exc", "AttributeError", name)), node, f"no attribute {name}")
    st.alive = False
    raise Dead()


DS_OPAQUE = {"plot", "close", "to_array", "groupby", "resample", "chunk", "unify_chunks", "set_coords", "reset_coords", "to_dataarray"}


def ds_get(I, st, o, c, name, node):
    x = c.vars.get(name, c.coords.get(name))
    if isinstance(x, Maybe):
        miss = P.ONE - x.g
        if not (I.guard(st) * miss).is_zero():
            f = st.fork()
            f.g = st.g * miss
            I.do_raise(f, Opaque(("exc", "KeyError", name)), node, f"no variable {name}")
            st.g = st.g * x.g
        return da_of_ds(I, st, o, name)
    if x is not None:
        return da_of_ds(I, st, o, name)
    if c.rest is not None:
        mk = I.cfg.get("rest_var")
        if mk is not None:
            r = mk(I, st, o, c, name)
            if r is not None:
                return r
        return Opaque(("var", c.rest.key, name), "array")
    I.do_raise(st, Opaque(("exc", "KeyError", name)), node, f"no variable {name}")
    st.alive = False
    raise Dead()


def dt_attr(I, st, o, name):
    own = o.owner
    if is_arr(st, own):
        a = arr_of(I, st, own)
        r = elementwise(lambda x: Sc(P.fn(name, x.p, nonneg=True)), [a])
        if a.ndim == 0:
            return mk_da(I, st, r, {})
        return mk_da(I, st, r, cont(st, own).coords if is_da(st, own) else {})
    return Opaque(("dt", I.fp(own, st), name))


def opaque_attr(I, st, o, name, node):
    if o.hint == "array" and name in ("values", "data"):
        return Opaque(("values",) + o.key, "array")
    if o.hint == "array" and name == "coords":
        return Opaque(("coords",) + o.key)
    if o.key[0] == "indexof" and len(o.key) == 5:
        x = {"is_monotonic_increasing": o.key[2], "is_monotonic_decreasing": o.key[3], "is_unique": o.key[4], "has_duplicates": not o.key[4]}
        if name in x:
            return x[name]
    h = I.cfg.get("opaque_attr")
    if h is not None:
        r = h(I, st, o, name)
        if r is not None:
            return r
    return Bound(o, name)


def setattr_(I, st, o, attr, v, node=None):
    if isinstance(o, Ref):
        c = st.heap.get(o.id)
        if isinstance(c, ObjC):
            st.heap[o.id] = ObjC(c.cls, {**c.f, attr: v})
            I.event("setattr", attr, st, [o, v], node=node)
            return
        if isinstance(c, DaC):
            var = st.heap[c.var]
            if attr in ("values", "data"):
                return set_values(I, st, o, c, var, v, node)
            if attr == "name":
                st.heap[o.id] = DaC(c.var, c.coords, v)
                return
            if attr == "attrs":
                if isinstance(v, Ref):
                    st.heap[c.var] = VarC(var.nd, copy_dict(I, st, v), var.labels)
                return
            if attr in ("encoding",):
                I.event("encoding", "encoding", st, [o, v], node=node, extra=st.heap.get(v.id) if isinstance(v, Ref) else None)
                return
        if isinstance(c, DsC):
            if attr == "attrs":
                if c.labels:
                    I.event("mutate", "attrs", st, [o], node=node, extra=c.labels)
                st.heap[o.id] = DsC(c.vars, c.coords, copy_dict(I, st, v), c.rest, c.labels)
                return
            if attr == "encoding":
                return
        if isinstance(c, NdC) and attr in ("shape",):
            I.note("shape assignment", node)
            return
    I.event("setattr", attr, st, [o, v], node=node)
    if isinstance(o, Cls):
        o.attrs[attr] = v


def copy_dict(I, st, v):
    c = cont(st, v)
    if isinstance(c, DictC):
        return I.alloc(st, DictC(dict(c.d), c.rest)).id
    return I.alloc(st, DictC({}, Opaque(("dict", I.fp(v, st))))).id


@guarded
def set_values(I, st, o, c, var, v, node):
    old = st.heap[var.nd].arr
    if var.labels:
        I.event("mutate", "values", st, [o], node=node, extra=var.labels)
    if isinstance(v, Opaque):
        nd = mk_nd(I, st, unknown_like(I, st, old, v.key))
        st.heap[c.var] = VarC(nd.id, var.attrs, var.labels)
        return
    if isinstance(v, NUM):
        raise DefiniteError("replacement data must match the Variable's shape")
    cv = cont(st, v)
    new = arr_of(I, st, v)
    if new.ndim != old.ndim or any(a != b for a, b in zip(new.shape, old.shape)):
        raise DefiniteError(
            f"replacement data must match the Variable's shape: {shp(new)} vs {shp(old)}")
    nid = st.heap[cv.var].nd if isinstance(cv, DaC) else v.id
    if new.dims != old.dims:
        base = st.heap[nid]
        nid = mk_nd(I, st, dims_from(new, old.dims), None, base.labels).id
    st.heap[c.var] = VarC(nid, var.attrs, var.labels)


def shp(a):
    return "(" + ", ".join(f"{e.sym or ''}{e.c if (e.c or not e.sym) else ''}" for e in a.shape) + ")"


# ------------------------------------------------------------------ items
def np_key(I, st, k):
    """Normalise an index expression for Arr indexing; None if not basic."""
    def one(x):
        x = constify(x)
        if x is None or x is Ellipsis or isinstance(x, (int, slice)) and not isinstance(x, bool):
            if isinstance(x, slice):
                return slice(constify(x.start), constify(x.stop), constify(x.step))
            return x
        if isinstance(x, Opaque) and x.key == ("ext", "Ellipsis"):
            return Ellipsis
        raise Unsupported("index")

    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


@guarded
def getitem(I, st, o, k, node=None):
    o = delit(o)
    k = delit(k)
    if isinstance(o, Ext):
        if o.name == "numpy.s_" or o.name == "numpy.index_exp":
            return k
        if o.name.split(".")[0] in ("typing", "typing_extensions", "collections"):
            return TypeForm(o.name, k if isinstance(k, tuple) else (k,))
        return o  # other subscripted types
    if isinstance(o, Cls):
        return o
    if isinstance(o, Opaque) and o.key[0] == "matchobj" and isinstance(constify(k), (str, int)):
        return I.call(getattr_(I, st, o, "group", node), [k], {}, st, node)
    if isinstance(o, (tuple, str)):
        kk = constify(k)
        if isinstance(kk, slice):
            kk = slice(constify(kk.start), constify(kk.stop), constify(kk.step))
        if isinstance(kk, (int, slice)):
            try:
                return o[kk]
            except IndexError:
                raise DefiniteError("index out of range")
            except TypeError:
                pass
        return opq("item", I, st, o, k)
    if isinstance(o, (CoordsV, VarsV)):
        if isinstance(k, str):
            c = st.heap[o.owner.id]
            if isinstance(c, DaC):
                if k in c.coords:
                    return da_attr(I, st, o.owner, c, k, node)
            else:
                return ds_get(I, st, o.owner, c, k, node)
        return opq("item", I, st, o.owner, k)
    if isinstance(o, Ref):
        c = st.heap.get(o.id)
        if isinstance(c, DictC):
            return dict_get(I, st, o, c, k, node)
        if isinstance(c, ListC):
            return list_get(I, st, o, c, k, node)
        if isinstance(c, DsC):
            if isinstance(k, str):
                return ds_get(I, st, o, c, k, node)
            items = I.concrete_items(k, st)
            if items is not None:
                vars = {}
                for n in items:
                    n = n.v if isinstance(n, Maybe) else n
                    n = delit(n)
                    x = c.vars.get(n, c.coords.get(n))
                    if x is None:
                        if c.rest is not None:
                            d = ds_get(I, st, o, c, n, node)
                            dc = cont(st, d)
                            if isinstance(dc, DaC):
                                vars[n] = dc.var
                                continue
                            return Opaque(("vars", I.fp(o, st), I.fp(k, st)), "ds")
                        I.do_raise(st, Opaque(("exc", "KeyError", str(n))), node, f"no variable {n}")
                        st.alive = False
                        raise Dead()
                    vars[n] = x
                coords = dict(c.coords)
                if not coords and vars and c.rest is not None:
                    vid = next(iter(vars.values()))
                    coords = I.cfg.get("rest_coords", lambda *a: {})(I, st, c, vid)
                return mk_ds(I, st, vars, coords, c.attrs)
            return opq("dsitem", I, st, o, k, hint="ds")
        if isinstance(c, DaC):
            if isinstance(k, str):
                return da_attr_coord(I, st, o, c, k, node)
            if isinstance(k, Ref) and isinstance(cont(st, k), DictC):
                d = cont(st, k).d
                return da_isel(I, st, o, {kk: vv for kk, vv in d.items()}, node)
            arr = arr_of(I, st, o)
            kk = np_key(I, st, k)
            r = A.getitem(arr, kk)
            idx = kk if isinstance(kk, tuple) else (kk,)
            kx = A.norm_key(idx, arr.ndim)
            coords = slice_coords(I, st, c.coords, {d: s for d, s in zip(arr.dims, kx)})
            nd = mk_nd(I, st, r, (st.heap[c.var].nd, kk), st.heap[st.heap[c.var].nd].labels)
            return I.alloc(st, DaC(mk_var(I, st, nd.id, st.heap[c.var].attrs), keep_coords(I, st, coords, r.dims), c.name))
        if isinstance(c, NdC):
            if isinstance(k, Ref):
                ck = cont(st, k)
                if isinstance(ck, (NdC, DaC)):
                    ka = arr_of(I, st, k)
                    if ka.kind == "bool" and ka.ndim == c.arr.ndim:
                        return mk_nd(I, st, A.masked(c.arr, ka))
                    its = I.concrete_items(k, st) if ka.ndim == 1 else None
                    if its is not None and all(isinstance(constify(x), int) for x in its):
                        return fancy_list(I, st, c.arr, ListC(tuple(its)), o, k)
                    return Opaque(("take", c.arr.fp(), ka.fp()), "array")
                if isinstance(ck, ListC):
                    return fancy_list(I, st, c.arr, ck, o, k)
            if isinstance(k, tuple) and len(k) == c.arr.ndim and any(isinstance(x, Ref) for x in k):
                ks = [arr_of(I, st, x) if isinstance(x, Ref) and isinstance(cont(st, x), (NdC, DaC)) else constify(x) for x in k]
                if all(isinstance(x, (Arr, int)) and not isinstance(x, bool) for x in ks):
                    return mk_nd(I, st, A.advanced(c.arr, ks))
            if isinstance(k, Opaque) or isinstance(k, tuple) and any(isinstance(x, (Opaque, Ref)) for x in k):
                return Opaque(("take", c.arr.fp(), I.fp(k, st)), "array")
            if isinstance(k, Sc) and not isinstance(constify(k), int):
                return Sc(P.fn("take", c.arr.fp(), k.p))
            kk = np_key(I, st, k)
            r = A.getitem(c.arr, kk)
            if r.ndim == 0:
                return to_plain(r.at(()))
            return mk_nd(I, st, r, (o.id, kk), c.labels)
        if isinstance(c, ObjC) and isinstance(c.cls, Cls):
            if c.cls.isa("typing.NamedTuple"):
                kk = constify(k)
                if isinstance(kk, int):
                    return c.f[c.cls.all_fields()[kk]]
            m = c.cls.lookup("__getitem__")
            if isinstance(m, Fn):
                return I.call_fn(m, [o, k], {}, st, node)
    if isinstance(o, Opaque):
        if o.key[0] == "items" and isinstance(constify(k), int):
            return o.key[1][constify(k)]
        h = I.cfg.get("opaque_item")
        if h is not None:
            r = h(I, st, o, k)
            if r is not None:
                return r
        return Opaque(("item", o.key, I.fp(k, st)), "array" if o.hint == "array" else "")
    return opq("?item", I, st, o, k)


def fancy_list(I, st, arr, ck, o, k):
    if ck.tail is None and all(isinstance(constify(x), int) for x in ck.items):
        ks = [constify(x) for x in ck.items]
        e = arr.shape[0]
        pos = [("L", x) if x >= 0 else A.from_end(e, -x) for x in ks]
        r = Arr(arr.dims, (Dim(None, len(ks)),) + arr.shape[1:], lambda ix: arr.at((pos[ix[0][1]],) + ix[1:]), arr.kind, {0})
        return mk_nd(I, st, r)
    if ck.tail is not None:
        # gather by a symbolic list of positions: one generic element
        el = ck.tail.elem
        if isinstance(el, Sc) and arr.ndim == 1:
            # position as a function of the list index n
            name = A.vn(("gather", arr.fp(), el.p.ident()))
            fpa = arr.fp()
            probe = probe_fn(arr)

            def fn(ix):
                return probe(A_index_of(el.p, ix[0]))

            return mk_nd(I, st, Arr((None,), (Dim("nlist", 0),), fn, arr.kind, set()))
    return Opaque(("take", arr.fp(), I.fp(k, st)), "array")


def probe_fn(arr):
    """Value of a 1-d array at a symbolic integer position."""
    g = arr.at((("G", 0),))

    def at(pos: P.Poly):
        # generic element terms are symbols indexed by (axis,'G',d); rebuild
        m = {}
        for a in P.all_atoms(g.p):
            k = P.ATOMS[a]
            if k[0] == "sym":
                new = []
                ch = False
                for x in k[2:]:
                    if isinstance(x, tuple) and len(x) == 3 and x[1] == "G":
                        new.append(("pos", (pos + x[2]).ident()))
                        ch = True
                    else:
                        new.append(x)
                if ch:
                    m[a] = P.sym(k[1], *new)
        return Sc(P.subst(g.p, m), g.d)

    return at


def A_index_of(p, ix):
    """Substitute the generic list index by ix in an element term."""
    m = {}
    for a in P.all_atoms(p):
        k = P.ATOMS[a]
        if k[0] == "sym" and len(k) > 2 and any(isinstance(x, tuple) and x and x[0] == "listix" for x in k[2:]):
            m[a] = P.sym(k[1], *[("listix",) + tuple(ix) if isinstance(x, tuple) and x and x[0] == "listix" else x for x in k[2:]])
    return P.subst(p, m)


def da_attr_coord(I, st, o, c, k, node):
    if k in c.coords:
        return da_attr(I, st, o, c, k, node)
    arr = arr_of(I, st, o)
    if k in arr.dims:
        e = arr.shape[arr.dims.index(k)]
        a = Arr((k,), (e,), lambda ix: Sc(P.fn("pos", (k,) + ix[0])))
        return mk_da(I, st, a, {}, k)
    I.do_raise(st, Opaque(("exc", "KeyError", str(k))), node, f"no coordinate {k}")
    st.alive = False
    raise Dead()


def slice_coords(I, st, coords, sel):
    """Index coordinate variables along with their dimension."""
    out = {}
    for n, v in coords.items():
        vid = v.v if isinstance(v, Maybe) else v
        var = st.heap[vid]
        a = st.heap[var.nd].arr
        ks = [sel.get(d, slice(None)) for d in a.dims]
        if all(x == slice(None) for x in ks):
            out[n] = v
            continue
        try:
            r = A.getitem(a, tuple(ks))
        except Unsupported:
            continue
        nd = mk_nd(I, st, r)
        out[n] = mk_var(I, st, nd.id, var.attrs)
    return out


def dict_get(I, st, o, c, k, node, default=Ellipsis):
    kk = hashable(I, k, st)
    if kk in c.d:
        x = c.d[kk]
        if isinstance(x, Maybe):
            if default is not Ellipsis:
                return I.merge_val(x.g, x.v, default, st, st, st)
            miss = P.ONE - x.g
            if not (I.guard(st) * miss).is_zero():
                f = st.fork()
                f.g = st.g * miss
                I.do_raise(f, Opaque(("exc", "KeyError", str(kk))), node, str(kk))
                st.g = st.g * x.g
            return x.v
        return x
    if c.rest is not None:
        el = I.memo_consts.get(("absdict", getattr(c.rest, "key", None)))
        v = Opaque(("dictitem", c.rest.key, I.fp(k, st)))
        h = I.cfg.get("rest_item")
        if h is not None:
            r = h(I, st, o, c, k)
            if r is not None:
                return r
        return v
    if default is not Ellipsis:
        if not isinstance(kk, tuple):
            return default
    if isinstance(kk, tuple) and c.d:
        # symbolic key: choose among entries
        items = list(c.d.items())
        if all(not isinstance(x, Maybe) for _, x in items):
            v = items[-1][1] if default is Ellipsis else default
            its = items[:-1] if default is Ellipsis else items
            for kx, x in reversed(its):
                e = value_eq(I, st, k, kx)
                v = I.merge_val(e, x, v, st, st, st)
            return v
    if default is not Ellipsis:
        return default
    I.do_raise(st, Opaque(("exc", "KeyError", str(kk))), node, str(kk))
    st.alive = False
    raise Dead()


def list_get(I, st, o, c, k, node):
    kk = constify(k)
    if isinstance(kk, slice):
        kk = slice(constify(kk.start), constify(kk.stop), constify(kk.step))
        if c.tail is None and all(x is None or isinstance(x, int) for x in (kk.start, kk.stop, kk.step)):
            return I.alloc(st, ListC(c.items[kk], c.kind))
        if c.tail is not None:
            return I.alloc(st, ListC((), c.kind, Abs(c.tail.elem, ("slice", c.tail.key, kk.start, kk.stop, kk.step))))
    if isinstance(kk, int):
        if c.tail is None:
            try:
                x = c.items[kk]
            except IndexError:
                I.do_raise(st, Opaque(("exc", "IndexError")), node, "list index out of range")
                st.alive = False
                raise Dead()
            return x.v if isinstance(x, Maybe) else x
        if 0 <= kk < len(c.items):
            return c.items[kk]
        h = I.cfg.get("tail_item")
        if h:
            r = h(I, st, c, kk)
            if r is not None:
                return r
        if isinstance(c.tail.elem, Sc):
            return Sc(P.fn("elem", ("list", c.tail.key), kk), k=c.tail.elem.k)
        return Opaque(("elem", c.tail.key, kk))
    if c.kind == "cfindex" and is_arr(st, k):
        from .lib2 import known_mask, known_values
        if c.tail is None and not c.items and arr_of(I, st, k).ndim == 1:
            return I.alloc(st, ListC((), c.kind))
        ks = known_mask(I, st, k, len(c.items)) if c.tail is None else None
        if ks is None and c.tail is None and cont(st, k).__class__ is NdC and cont(st, k).arr.ndim == 1 and len(c.items):
            v = known_values(cont(st, k).arr)
            ks = [int(x) for x in v] if v is not None and cont(st, k).arr.at((("L", 0),)).k != "bool" and all(-len(c.items) <= x < len(c.items) for x in v) else None
        if ks is not None:
            return I.alloc(st, ListC(tuple(c.items[x] for x in ks), c.kind))
        return Opaque(("elems", I.fp(o, st), I.fp(k, st)), "array")
    if isinstance(k, Sc) and c.tail is None and c.items and all(isinstance(x, NUM) for x in c.items):
        v = I.sc(c.items[-1])
        for n in range(len(c.items) - 2, -1, -1):
            v = A.s_where(Sc(P.eq(k.p, P.P(n)), k="bool"), I.sc(c.items[n]), v)
        return v
    return Opaque(("elem", I.fp(o, st), I.fp(k, st)))


@guarded
def setitem(I, st, o, k, v, node=None, aug=False):
    k = delit(k)
    if isinstance(v, Choice) and isinstance(cont(st, o), (DsC, DaC, NdC)):
        I.fork_on(st, v.g, lambda s: setitem(I, s, o, k, v.a, node, aug), lambda s: setitem(I, s, o, k, v.b, node, aug))
        return
    if isinstance(o, CoordsV):
        return set_coord(I, st, o.owner, k, v, node)
    if isinstance(o, Ref):
        c = st.heap.get(o.id)
        if isinstance(c, DictC):
            st.heap[o.id] = DictC({**c.d, hashable(I, k, st): v}, c.rest)
            return
        if isinstance(c, ListC):
            kk = constify(k)
            if isinstance(kk, int) and c.tail is None and -len(c.items) <= kk < len(c.items):
                it = list(c.items)
                it[kk] = v
                st.heap[o.id] = ListC(tuple(it), c.kind)
            else:
                st.heap[o.id] = ListC((), c.kind, Abs(Opaque(("?set", I.fp(o, st), I.fp(k, st), I.fp(v, st))), ("?set",)))
            return
        if isinstance(c, DsC):
            return ds_set(I, st, o, c, k, v, node)
        if isinstance(c, DaC):
            if isinstance(k, str):
                return set_coord(I, st, o, k, v, node)
            nid = st.heap[c.var].nd
            return nd_set(I, st, nid, k, v, node)
        if isinstance(c, NdC):
            if aug and isinstance(v, Ref) and cont(st, v) is not None and getattr(cont(st, v), "base", None) is not None and cont(st, v).base[0] == o.id:
                return  # in-place operation on the view already wrote through
            return nd_set(I, st, o.id, k, v, node)
        if isinstance(c, ObjC) and isinstance(c.cls, Cls):
            m = c.cls.lookup("__setitem__")
            if isinstance(m, Fn):
                return I.call_fn(m, [o, k, v], {}, st, node)
    I.event("setitem", "setitem", st, [o, k, v], node=node, extra=st.fork() if isinstance(o, Opaque) else None)


def int_lists(I, st, k):
    """Keys with single integers for a key that holds lists of integers."""
    parts = k if isinstance(k, tuple) else (k,)
    lists = {}
    for n, x in enumerate(parts):
        if isinstance(x, Ref) and isinstance(cont(st, x), ListC):
            items = I.concrete_items(x, st)
            items = None if items is None else [constify(i) for i in items]
            if not items or not all(isinstance(i, int) and not isinstance(i, bool) for i in items):
                return None
            lists[n] = items
    if not lists or len({len(x) for x in lists.values()}) != 1:
        return None
    size = len(next(iter(lists.values())))
    return [tuple(lists[n][i] if n in lists else x for n, x in enumerate(parts)) for i in range(size)]


def nd_set(I, st, nid, k, v, node):
    c = st.heap[nid]
    val = v
    if isinstance(v, Opaque):
        val = Sc(P.sym("?val", v.key))
    elif isinstance(v, NUM):
        val = I.sc(v)
        if c.arr.kind == "bool":
            val = Sc(A.truth(val), val.d, "bool")
    else:
        val = arr_of(I, st, v)
    if isinstance(k, Ref) and isinstance(cont(st, k), (NdC, DaC)):
        ka = arr_of(I, st, k)
        if isinstance(val, Arr) and not (val.sel is not None and val.sel[0].fp() == ka.fp()):
            r = unknown_like(I, st, c.arr, ("maskset", c.arr.fp(), ka.fp(), val.fp()))
        else:
            r = A.setitem(c.arr, ka, val)
        write_buf(I, st, nid, dims_from(r, c.arr.dims), node)
        return
    many = int_lists(I, st, k)
    if many is not None and isinstance(val, Sc):
        arr = c.arr
        for one in many:
            arr = A.setitem(arr, np_key(I, st, one), val)
        write_buf(I, st, nid, arr, node)
        return
    if isinstance(k, Opaque) or isinstance(k, (Ref, tuple)) and any(isinstance(x, (Opaque, Ref)) for x in (k if isinstance(k, tuple) else (k,))):
        write_buf(I, st, nid, unknown_like(I, st, c.arr, ("fancyset", c.arr.fp(), I.fp(k, st), I.fp(v, st))), node)
        return
    write_buf(I, st, nid, A.setitem(c.arr, np_key(I, st, k), val), node)


def sizes_of(st, c, but=None):
    """Extents of the dimensions of a dataset (without those of one variable)."""
    out = {}
    for m in (c.vars if isinstance(c, DsC) else {}, c.coords):
        for n, x in m.items():
            if n != but:
                a = st.heap[st.heap[x.v if isinstance(x, Maybe) else x].nd].arr
                out.update(zip(a.dims, a.shape))
    return out


def var_from(I, st, v, node=None, sizes=None):
    """(var id, coords) from DataArray / (dims, data[, attrs]) / array."""
    c = cont(st, v)
    if isinstance(c, DaC):
        var = st.heap[c.var]
        nv = I.alloc(st, VarC(var.nd, copy_dict(I, st, Ref(var.attrs)), frozenset())).id
        return nv, c.coords
    if isinstance(v, tuple) and len(v) in (2, 3, 4):
        dims, data = v[0], v[1]
        dl = [dims] if isinstance(dims, str) else I.concrete_items(dims, st)
        if isinstance(data, Opaque):
            names = tuple(dl) if dl else (None,)
            k = A.vn(data.key)
            arr = Arr(names, tuple(Dim(d, 0) for d in names), lambda ix: Sc(P.sym("?arr" if has_unknown(data.key) else "arr", k, *ix)))
            nd = mk_nd(I, st, arr)
        else:
            a = arr_of(I, st, data)
            if a.ndim != len(dl):
                raise DefiniteError("dimensions do not match data")
            for d, e in zip(dl, a.shape):
                was = (sizes or {}).get(d)
                if was is not None and was.sym is None and e.sym is None and was.c != e.c:
                    raise DefiniteError(f"conflicting sizes for dimension {d}: {was.c} and {e.c}")
            nd0 = data if is_nd(st, data) else (Ref(st.heap[cont(st, data).var].nd) if is_da(st, data) else None)
            if nd0 is not None and a.dims == tuple(dl):
                nd = nd0
            else:
                nd = mk_nd(I, st, dims_from(a, dl), None, st.heap[nd0.id].labels if nd0 else frozenset())
        at = copy_dict(I, st, v[2]) if len(v) > 2 else None
        return mk_var(I, st, nd.id, at), {}
    if isinstance(v, NUM):
        nd = mk_nd(I, st, A.const_array(I.sc(v), (), ()))
        return mk_var(I, st, nd.id), {}
    if isinstance(c, NdC):
        return mk_var(I, st, v.id), {}
    return None, {}


def has_unknown(key):
    if isinstance(key, tuple):
        return any(has_unknown(x) for x in key)
    return isinstance(key, str) and key.startswith("?")


def ds_set(I, st, o, c, k, v, node):
    if c.labels:
        I.event("mutate", "dataset", st, [o], node=node, extra=c.labels)
    if isinstance(k, str):
        if k in c.coords and k not in c.vars:
            return set_coord(I, st, o, k, v, node)
        cv = cont(st, v)
        if isinstance(cv, DaC):
            if cv.var == c.vars.get(k):
                return
            if c.vars:
                v = conformed(I, st, c, v)
                cv = cont(st, v)
        if isinstance(cv, NdC):
            # positional array: only allowed for an existing variable's dims
            old = c.vars.get(k)
            if old is not None:
                raise Unsupported("bare array assignment to dataset")
            if cv.arr.ndim:
                raise DefiniteError("Could not convert tuple/array without dimension names")
        vid, coords = var_from(I, st, v, node, sizes_of(st, c, k))
        if vid is None:
            key = I.fp(v, st)
            old = c.vars.get(k)
            ref = None
            if old is not None:
                ov = old.v if isinstance(old, Maybe) else old
                ref = st.heap[st.heap[ov].nd].arr
            mk = I.cfg.get("opaque_var")
            arr = mk(I, st, k, v) if mk else None
            if arr is None:
                arr = unknown_like(I, st, ref, key) if ref is not None else Arr((), (), lambda ix: Sc(P.sym("?arr", A.vn(key))))
            vid = mk_var(I, st, mk_nd(I, st, arr).id)
        arr = st.heap[st.heap[vid].nd].arr
        nc = dict(c.coords)
        for n, x in coords.items():
            nc.setdefault(n, x)
        st.heap[o.id] = DsC({**c.vars, k: vid}, nc, c.attrs, c.rest, c.labels)
        return
    items = I.concrete_items(k, st)
    if items is not None:
        src = cont(st, v)
        vars = dict(c.vars)
        for n in items:
            n = n.v if isinstance(n, Maybe) else n
            if isinstance(src, DsC):
                if n not in src.vars:
                    raise DefiniteError(f"no variable {n}")
                x = src.vars[n]
                vx = x.v if isinstance(x, Maybe) else x
                if vx == (vars.get(n).v if isinstance(vars.get(n), Maybe) else vars.get(n)):
                    continue
                sv = st.heap[vx]
                nv = I.alloc(st, VarC(sv.nd, sv.attrs, frozenset())).id
                vars[n] = Maybe(x.g, nv) if isinstance(x, Maybe) else nv
            else:
                raise Unsupported("multi assignment")
        st.heap[o.id] = DsC(vars, c.coords, c.attrs, c.rest, c.labels)
        return
    raise Unsupported("dataset assignment")


def set_coord(I, st, ref, k, v, node):
    c = st.heap[ref.id]
    if getattr(c, "labels", None):
        I.event("mutate", "coords", st, [ref], node=node, extra=c.labels)
    cv = cont(st, v)
    vid = None
    if isinstance(cv, NdC):
        old = c.coords.get(k)
        ov = old.v if isinstance(old, Maybe) else old
        dims = st.heap[st.heap[ov].nd].arr.dims if ov is not None else (k,)
        if cv.arr.ndim == 1:
            vid = mk_var(I, st, mk_nd(I, st, dims_from(cv.arr, (k,))).id)
    else:
        vid, _ = var_from(I, st, v, node, sizes_of(st, c, k))
    if vid is None:
        key = I.fp(v, st)
        kn = A.vn(key)
        e = Dim(k, 0)
        for m in ([c.vars] if isinstance(c, DsC) else []) + [c.coords]:
            for x in m.values():
                a = st.heap[st.heap[x.v if isinstance(x, Maybe) else x].nd].arr
                if k in a.dims:
                    e = a.shape[a.dims.index(k)]
        arr = Arr((k,), (e,), lambda ix: Sc(P.sym("?coord" if has_unknown(key) else "coord", kn, *[(k,) + x for x in ix])))
        vid = mk_var(I, st, mk_nd(I, st, arr).id)
    nc = {**c.coords, k: vid}
    if isinstance(c, DsC):
        st.heap[ref.id] = DsC(c.vars, nc, c.attrs, c.rest, c.labels)
    else:
        st.heap[ref.id] = DaC(c.var, nc, c.name)


def delitem(I, st, o, k, node=None):
    c = cont(st, o)
    k = delit(k)
    if isinstance(c, DictC):
        d = dict(c.d)
        d.pop(hashable(I, k, st), None)
        st.heap[o.id] = DictC(d, c.rest)
    elif isinstance(c, DsC):
        d = dict(c.vars)
        d.pop(k, None)
        st.heap[o.id] = DsC(d, c.coords, c.attrs, c.rest, c.labels)
    else:
        I.note("del item", node)


# ------------------------------------------------------------------ context managers, iteration
def enter(I, st, cm, node):
    I.event("enter", name_of(I, st, cm), st, [cm], node=node.context_expr)
    return cm


def exit_(I, st, cm, node):
    I.event("exit", name_of(I, st, cm), st, [cm], node=node)


def name_of(I, st, v):
    if isinstance(v, Opaque):
        return str(v.key[0])
    return type(v).__name__


def iter_elem(I, st, it, lid):
    """A generic element of an unknown collection."""
    c = cont(st, it)
    if isinstance(c, ListC):
        if c.tail is not None:
            return c.tail.elem
        items = [x.v if isinstance(x, Maybe) else x for x in c.items]
        if items:
            return items[0]
    if isinstance(c, DictC):
        return Opaque(("key", I.fp(it, st), lid))
    if isinstance(c, (NdC, DaC)):
        a = arr_of(I, st, it)
        if a.ndim == 1:
            g = a.at((A.gen_index(a.shape[0]),)) if a.shape[0].sym else None
            if g is not None:
                if isinstance(c, DaC):
                    return mk_da(I, st, Arr((), (), lambda ix: g), {})
                return g
    if isinstance(it, Opaque):
        if it.key[0] == "enumerate":
            return (Sc(P.sym("n", lid, nonneg=True)), it.key[2])
        if it.key[0] == "zip":
            return it.key[1]
        if it.key[0] == "range":
            return Sc(P.sym("n", lid, nonneg=True))
    h = I.cfg.get("iter_elem")
    if h is not None:
        r = h(I, st, it, lid)
        if r is not None:
            return r
    return Opaque(("elem", I.fp(it, st)))


def label_cached(I, st, v, qual):
    """Mark everything reachable from a cached function's result."""
    seen = set()
    lab = frozenset({qual})

    def go(i):
        if i in seen:
            return
        seen.add(i)
        c = st.heap.get(i)
        if isinstance(c, NdC):
            st.heap[i] = NdC(c.arr, c.base, c.labels | lab)
        elif isinstance(c, VarC):
            st.heap[i] = VarC(c.nd, c.attrs, c.labels | lab)
            go(c.nd)
        elif isinstance(c, DaC):
            go(c.var)
            for x in c.coords.values():
                go(x.v if isinstance(x, Maybe) else x)
        elif isinstance(c, DsC):
            st.heap[i] = DsC(c.vars, c.coords, c.attrs, c.rest, c.labels | lab)
            for x in list(c.vars.values()) + list(c.coords.values()):
                go(x.v if isinstance(x, Maybe) else x)
        elif isinstance(c, ListC):
            for x in c.items:
                if isinstance(x, Ref):
                    go(x.id)
        elif isinstance(c, DictC):
            for x in c.d.values():
                if isinstance(x, Ref):
                    go(x.id)
        elif isinstance(c, ObjC):
            for x in c.f.values():
                if isinstance(x, Ref):
                    go(x.id)

    if isinstance(v, Ref):
        go(v.id)
    elif isinstance(v, Choice):
        for x in (v.a, v.b):
            if isinstance(x, Ref):
                go(x.id)


METHODS: dict = {}

from . import lib2  # noqa: E402  (registers constructors, functions, methods)

construct = lib2.construct
method = lib2.method
call_ext = lib2.call_ext
call_opaque = lib2.call_opaque
