"""Functions and methods of the modelled libraries."""

from __future__ import annotations

import ast
import math
import builtins as _b
from fractions import Fraction

from . import arr as A
from . import lib as L
from . import poly as P
from .arr import Arr, DefiniteError, Sc, Unsupported, elementwise
from .arr import Ext as Dim
import builtins as _bi

from .interp import Abs, Dead
from .lib import (
    CoordsV, DtV, EXT, METHODS, NUM, VarsV, arr_of, binop, boolsym, cont, constify,
    delit, ext, guarded, hashable, has_unknown, is_arr, is_da, is_ds, is_nd, is_str, keep_coords,
    lift, mk_da, mk_ds, mk_nd, mk_var, opq, pybool, sparts, to_plain, to_str, unknown_like,
)
from .values import (
    UNBOUND, Bound, Choice, Cls, DaC, DictC, DsC, Ext, Fn, FrameC, ListC, Maybe,
    Module, NdC, ObjC, Opaque, Partial, Ref, State, StrT, TypeForm, VarC, mkstr,
)

Abs_ = Abs


def meth(kinds, *names):
    def deco(f):
        for k in kinds.split():
            for n in names:
                METHODS[(k, n)] = f
        return f

    return deco


# ------------------------------------------------------------------ NaN model
NAN_GIVEN = []  # non-empty: values are missing where they are said to be, and nowhere else


def nan_cond(x: Sc) -> P.Poly:
    """Indicator of NaN: some denominator is zero where its guard holds."""
    if any(g.is_one() and den.is_zero() for g, den in x.d):
        return P.ONE
    if NAN_GIVEN:
        return P.ZERO
    if len(x.d) <= 2 and all(len(g.t) + len(den.t) <= 12 for g, den in x.d):
        c = P.ZERO
        for g, den in x.d:
            e = g * P.eq0(den)
            c = c + e - c * e
        return c
    ps = []
    for g, den in sorted(x.d, key=lambda z: (z[0].ident(), z[1].ident())):
        ps += [g, den]
    return P.fn("anyzero", *ps, boolean=True)


def s_fillna(x: Sc, v: Sc) -> Sc:
    c = nan_cond(x)
    if c.is_zero():
        return Sc(x.p, frozenset(), x.k)
    return Sc(P.where(c, v.p, x.p), v.d, x.k)


def s_isnan(x):
    return Sc(nan_cond(x), frozenset(), "bool")


NAN = Sc(P.ZERO, frozenset({(P.ONE, P.ZERO)}))

# ------------------------------------------------------------------ numpy ufuncs
UF1 = {
    "abs": A.s_abs, "absolute": A.s_abs, "fabs": A.s_abs, "sign": A.s_sign,
    "negative": A.s_neg,
    "cos": lambda a: Sc(P.fn("cos", a.p), a.d), "sin": lambda a: Sc(P.fn("sin", a.p), a.d),
    "tan": lambda a: Sc(P.fn("tan", a.p), a.d),
    "exp": lambda a: Sc(P.fn("exp", a.p, pos=True), a.d),
    "log": lambda a: Sc(P.fn("log", a.p), a.d),
    "sqrt": lambda a: Sc(P.fn("sqrt", a.p, nonneg=True), a.d),
    "square": lambda a: A.s_mul(a, a),
    "deg2rad": lambda a: A.s_mul(a, Sc(L.CONST["numpy.pi"].p * P.P(Fraction(1, 180)))),
    "radians": lambda a: A.s_mul(a, Sc(L.CONST["numpy.pi"].p * P.P(Fraction(1, 180)))),
    "rad2deg": lambda a: A.s_mul(a, Sc(P.inv(L.CONST["numpy.pi"].p) * 180)),
    "floor": lambda a: Sc(P.fn("floor", a.p), a.d),
    "ceil": lambda a: Sc(-P.fn("floor", -a.p), a.d),
    "logical_not": A.s_not, "invert": A.s_not,
    "isnan": s_isnan,
    "isfinite": lambda a: A.s_not(s_isnan(a)),
    "isnull": s_isnan,
    "positive": lambda a: a,
    "nan_to_num": lambda a: s_fillna(a, Sc(0)),
    "round": lambda a: Sc(P.fn("round", a.p), a.d),
}
UF2 = {
    "maximum": A.s_max, "minimum": A.s_min, "fmax": A.s_max, "fmin": A.s_min,
    "add": A.s_add, "subtract": A.s_sub, "multiply": A.s_mul, "divide": A.s_div,
    "true_divide": A.s_div, "power": A.s_pow, "float_power": A.s_pow, "floor_divide": A.s_floordiv, "mod": A.s_mod,
    "remainder": A.s_mod,
    "greater": A.BIN[">"], "less": A.BIN["<"], "greater_equal": A.BIN[">="],
    "less_equal": A.BIN["<="], "equal": A.BIN["=="], "not_equal": A.BIN["!="],
    "logical_and": A.BIN["&"], "logical_or": A.BIN["|"], "logical_xor": A.BIN["^"],
    "bitwise_and": A.BIN["&"], "bitwise_or": A.BIN["|"],
    # (the sign of negative zero is not modelled: values are real numbers)
    "copysign": lambda a, b: A.s_where(A.BIN["<"](b, Sc(0)), A.s_neg(A.s_abs(a)), A.s_abs(a)),
}
BOOLUF = {"logical_not", "isnan", "isfinite", "isnull", "invert", "greater", "less", "greater_equal",
          "less_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or"}
NOT_UFUNC = {"nan_to_num", "round"}


def as_np(I, st, v):
    """numpy.asarray semantics: drop labels."""
    c = cont(st, v)
    if isinstance(c, DaC):
        return Ref(st.heap[c.var].nd)
    if isinstance(c, (NdC,)):
        return v
    if isinstance(c, ListC) or isinstance(v, tuple):
        return mk_nd(I, st, seq_arr(I, st, v))
    return v


def seq_arr(I, st, v):
    if isinstance(v, tuple):
        return L.list_arr(I, st, ListC(v)) if not any(isinstance(x, tuple) for x in v) else stack_arrs([seq_arr(I, st, x) for x in v])
    c = cont(st, v)
    if isinstance(c, ListC):
        if c.tail is not None and isinstance(c.tail.elem, NUM):
            el = I.sc(c.tail.elem)
            return Arr((None,), (Dim("nlist", 0),), lambda ix: Sc(L.A_index_of(el.p, ix[0])))
        if any(isinstance(x, tuple) or isinstance(cont(st, x), ListC) for x in c.items):
            return stack_arrs([seq_arr(I, st, x) for x in c.items])
        return L.list_arr(I, st, c)
    return arr_of(I, st, v)


def stack_arrs(subs):
    d = subs[0]
    for s in subs:
        if s.shape != d.shape:
            raise Unsupported("ragged array")
    return Arr((None,) + d.dims, (Dim(None, len(subs)),) + d.shape,
               lambda ix: subs[ix[0][1]].at(ix[1:]), d.kind, {0})


def any_opaque(I, st, args):
    return any(isinstance(a, (Opaque, StrT)) for a in args)


def ufunc(name, f, n):
    kind = "bool" if name in BOOLUF else "num"

    def h(I, st, args, kw, node):
        out = kw.get("out")
        if isinstance(out, tuple):
            out = out[0]
        wh = kw.get("where")
        args = list(args)
        if len(args) > n:
            out = args[n]
            args = args[:n]
        if len(args) < n:
            raise Unsupported(f"numpy.{name} arity")
        if any_opaque(I, st, args):
            return opq("numpy." + name, I, st, *args, hint="array")
        args = [mk_nd(I, st, seq_arr(I, st, a)) if isinstance(cont(st, a), ListC) or isinstance(a, tuple) else a for a in args]
        if name in NOT_UFUNC and not any(is_ds(st, a) for a in args):
            args = [as_np(I, st, a) for a in args]
        if wh is not None:
            if out is None:
                raise Unsupported("ufunc where without out")
            r = lift(I, st, lambda c, o, *xs: A.s_where(c, f(*xs), o), [wh, out] + args, kind)
        else:
            r = lift(I, st, f, args, kind)
        if out is not None:
            oc = cont(st, out)
            oid = st.heap[oc.var].nd if isinstance(oc, DaC) else out.id
            ra = arr_of(I, st, r)
            old = st.heap[oid].arr
            if ra.shape != old.shape:
                ra = elementwise(lambda x, y: y, [old, ra])
            L.write_buf(I, st, oid, L.dims_from(ra, old.dims), node)
            return out
        return r

    h.__name__ = "np_" + name
    return h


for _n, _f in UF1.items():
    EXT["numpy." + _n] = ufunc(_n, _f, 1)
for _n, _f in UF2.items():
    EXT["numpy." + _n] = ufunc(_n, _f, 2)
EXT["builtins.abs"] = EXT["numpy.abs"]


@ext("numpy.round", "numpy.around", "numpy.round_")
def np_round(I, st, args, kw, node):
    n = constify(arg(args, kw, 1, "decimals", 0))
    if kw.get("out") is not None or len(args) > 2:
        raise Unsupported("round with out")
    if any_opaque(I, st, args[:1]):
        return opq("numpy.round", I, st, *args, hint="array")
    a = args[0]
    if isinstance(cont(st, a), ListC) or isinstance(a, tuple):
        a = mk_nd(I, st, seq_arr(I, st, a))
    if not is_ds(st, a):
        a = as_np(I, st, a)
    return lift(I, st, lambda x: rounded(x, n), [a], "num")


def ufunc_reduce(n):
    to = {"logical_or": "any", "logical_and": "all", "bitwise_or": "any", "bitwise_and": "all", "add": "sum",
          "maximum": "max", "minimum": "min", "multiply": "prod"}[n]

    def h(I, st, args, kw, node):
        ax = kw.get("axis", args[1] if len(args) > 1 else 0)
        if n.startswith("bitwise") and not truthlike(I, st, args[0]):
            return opq(f"numpy.{n}.reduce", I, st, args[0], ax, hint="array")
        return EXT["numpy." + to](I, st, [args[0]], {} if ax is None else {"axis": ax}, node)
    return h


def truthlike(I, st, v):
    try:
        return seq_arr(I, st, as_np(I, st, v)).kind == "bool"
    except Exception:
        return False


def ufunc_outer(name):
    def h(I, st, args, kw, node):
        if any_opaque(I, st, args):
            return opq(f"numpy.{name}.outer", I, st, *args, hint="array")
        a, b = (seq_arr(I, st, as_np(I, st, x)) for x in args[:2])
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            raise Unsupported("outer")
        n, m = a.ndim, b.ndim
        sh = tuple(a.shape) + tuple(b.shape)
        x = mk_nd(I, st, Arr((None,) * (n + m), tuple(a.shape) + (A.ONE_EXT,) * m, lambda ix: a.at(tuple(ix[:n])), a.kind))
        y = mk_nd(I, st, Arr((None,) * m, tuple(b.shape), lambda ix: b.at(tuple(ix)), b.kind))
        return EXT["numpy." + name](I, st, [x, y], {}, node)
    return h


for _n in ("logical_or", "logical_and", "bitwise_or", "bitwise_and", "add", "maximum", "minimum", "multiply"):
    EXT[f"numpy.{_n}.reduce"] = ufunc_reduce(_n)
for _n in UF2:
    EXT[f"numpy.{_n}.outer"] = ufunc_outer(_n)


@ext("numpy.outer")
def np_outer(I, st, args, kw, node):
    if any_opaque(I, st, args):
        return opq("numpy.outer", I, st, *args, hint="array")
    if any(seq_arr(I, st, as_np(I, st, x)).ndim != 1 for x in args[:2]):
        raise Unsupported("outer of more than one dimension")
    return EXT["numpy.multiply.outer"](I, st, args, kw, node)


def np_fn(f):
    return f


def norm_axis(axis, nd):
    axis = constify(axis)
    if axis is None:
        return None
    if isinstance(axis, bool) or not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise DefiniteError("axis out of bounds")
    return axis


def arg(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


@ext("numpy.pad")
def np_pad(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    pw = arg(args, kw, 1, "pad_width")
    mode = arg(args, kw, 2, "mode", "constant")
    cv = kw.get("constant_values", 0)

    def flat(x):
        if isinstance(x, NUM):
            return int(constify(x))
        its = I.concrete_items(x, st)
        return tuple(flat(y) for y in its)

    w = flat(pw)
    if isinstance(w, int):
        w = ((w, w),) * a.ndim
    elif w and isinstance(w[0], int):
        w = (tuple(w) if len(w) == 2 else (w[0], w[0]),) * a.ndim
    elif len(w) == 1:
        w = (w[0],) * a.ndim
    if len(w) != a.ndim:
        raise DefiniteError("pad width does not match dimensions")
    if mode not in ("constant", "wrap", "edge", "reflect"):
        raise Unsupported(f"pad mode {mode}")
    if not isinstance(cv, NUM):
        its = I.concrete_items(cv, st)
        cv = its[0] if its and all(isinstance(x, NUM) for x in its) and len(set(map(repr, its))) == 1 else None
        if cv is None:
            raise Unsupported("pad constants")
    return mk_nd(I, st, A.pad(unlabel(a), w, mode, I.sc(cv)))


def unlabel(a):
    return a


def positions(I, st, ks):
    xs = [Sc(P.P(k)) for k in ks]
    return mk_nd(I, st, A.Arr(("index",), (A.Ext(None, len(xs)),), lambda ix: xs[ix[0][1]] if ix[0][0] == "L" else xs[len(xs) - 1 - ix[0][1]] if ix[0][0] == "H" else A.select(ix[0], xs)))


@ext("numpy.flatnonzero")
def np_flatnonzero(I, st, args, kw, node):
    r = np_where(I, st, args, kw, node)
    return r[0] if isinstance(r, tuple) else opq("numpy.flatnonzero", I, st, *args, hint="array")


@ext("numpy.where")
def np_where(I, st, args, kw, node):
    if len(args) == 1:
        c = cont(st, args[0])
        a = c.arr if isinstance(c, NdC) else None
        ks = known_mask(I, st, args[0], a.shape[0].c) if a is not None and a.ndim == 1 else None
        if ks:
            return (positions(I, st, ks),)
        return opq("numpy.where", I, st, *args, hint="array")
    if any_opaque(I, st, args):
        return opq("numpy.where", I, st, *args, hint="array")
    args = [as_np(I, st, a) for a in args]
    r = lift(I, st, A.s_where, args)
    if isinstance(r, NUM):
        return mk_nd(I, st, A.const_array(I.sc(r), (), ()))
    return r


@ext("xarray.where")
def xr_where(I, st, args, kw, node):
    c, x, y = arg(args, kw, 0, "cond"), arg(args, kw, 1, "x"), arg(args, kw, 2, "y")
    if any_opaque(I, st, [c, x, y]):
        return opq("xarray.where", I, st, c, x, y, hint="array")
    return lift(I, st, A.s_where, [c, x, y])


@ext("numpy.clip")
def np_clip(I, st, args, kw, node):
    x = args[0]
    lo = arg(args, kw, 1, "a_min", kw.get("min"))
    hi = arg(args, kw, 2, "a_max", kw.get("max"))
    if any_opaque(I, st, [x, lo, hi]):
        return opq("numpy.clip", I, st, x, lo, hi, hint="array")
    if lo is not None:
        x = lift(I, st, A.s_max, [x, lo])
    if hi is not None:
        x = lift(I, st, A.s_min, [x, hi])
    return x


METHODS[("nd", "clip")] = METHODS[("da", "clip")] = METHODS[("ds", "clip")] = \
    lambda I, st, s, args, kw, node: np_clip(I, st, [s] + list(args), kw, node)


@ext("numpy.gradient")
def np_gradient(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    if len(args) > 1:
        if not (len(args) == 2 and isinstance(args[1], NUM) and kw.get("axis") is not None):
            raise Unsupported("gradient spacing")
    ax = kw.get("axis")
    if ax is None:
        r = [mk_nd(I, st, A.gradient(a, k)) for k in range(a.ndim)]
        return I.alloc(st, ListC(tuple(r))) if len(r) > 1 else r[0]
    if kw.get("edge_order", 1) != 1:
        raise Unsupported("edge_order")
    its = I.concrete_items(ax, st)
    if its is not None:
        return I.alloc(st, ListC(tuple(mk_nd(I, st, A.gradient(a, norm_axis(k, a.ndim))) for k in its)))
    r = A.gradient(a, norm_axis(ax, a.ndim))
    if len(args) == 2:
        d = I.sc(args[1])
        r = elementwise(lambda x: A.s_div(x, d), [r])
    return mk_nd(I, st, r)


@ext("numpy.diff")
def np_diff(I, st, args, kw, node):
    if isinstance(args[0], Opaque):
        return opq("numpy.diff", I, st, args[0], kw.get("axis"), hint="array")
    a = arr_of(I, st, args[0])
    if arg(args, kw, 1, "n", 1) != 1:
        raise Unsupported("diff n")
    ax = norm_axis(arg(args, kw, 2, "axis", -1), a.ndim)
    return mk_nd(I, st, A.diff(a, ax))


def shape_of(I, st, v):
    if isinstance(v, NUM):
        v = (v,)
    its = I.concrete_items(v, st)
    if its is None:
        raise Unsupported("shape")
    out = []
    for x in its:
        x = constify(x)
        if isinstance(x, int):
            out.append(Dim(None, x))
            continue
        if isinstance(x, Sc):
            out.append(dim_of(x.p))
            continue
        raise Unsupported("shape")
    return tuple(out)


def dim_of(p):
    sym, c = None, 0
    for m, k in p.t.items():
        if m == ():
            if k.denominator != 1:
                raise Unsupported("shape")
            c = int(k)
        elif len(m) == 1 and m[0][1] == 1 and k == 1 and P.ATOMS[m[0][0]][:2] == ("sym", "size") and sym is None:
            sym = P.ATOMS[m[0][0]][2]
        else:
            raise Unsupported("shape")
    return Dim(sym, c)


def filled(v):
    def h(I, st, args, kw, node):
        sh = shape_of(I, st, arg(args, kw, 0, "shape"))
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        s = Sc(v)
        if isinstance(dt, Ext) and dt.name in ("bool", "numpy.bool_", "numpy.bool"):
            s = Sc(v, k="bool")
        return mk_nd(I, st, A.const_array(s, (None,) * len(sh), sh))

    return h


EXT["numpy.zeros"] = EXT["numpy.empty"] = filled(0)
EXT["numpy.ones"] = filled(1)


@ext("numpy.full")
def np_full(I, st, args, kw, node):
    sh = shape_of(I, st, arg(args, kw, 0, "shape"))
    v = arg(args, kw, 1, "fill_value")
    if not isinstance(v, NUM):
        raise Unsupported("full")
    s = I.sc(v)
    return mk_nd(I, st, A.const_array(s, (None,) * len(sh), sh))


def like(v, labelled=False):
    def h(I, st, args, kw, node):
        x = args[0]
        val = v if v is not None else arg(args, kw, 1, "fill_value")
        if isinstance(x, Opaque) or isinstance(val, Opaque):
            return opq("like", I, st, x, val, hint="array")
        dt = kw.get("dtype")
        s = I.sc(val)
        if isinstance(dt, Ext) and dt.name in ("bool", "numpy.bool_", "numpy.bool"):
            s = Sc(A.truth(s), k="bool")
        if is_ds(st, x):
            return lift(I, st, lambda a: s, [x])
        a = arr_of(I, st, x)
        r = A.const_array(s, a.dims, a.shape)
        if (labelled or True) and is_da(st, x):
            if labelled:
                return mk_da(I, st, r, cont(st, x).coords, cont(st, x).name)
        return mk_nd(I, st, r)

    return h


for _nm, _v in (("zeros_like", 0), ("ones_like", 1), ("full_like", None), ("empty_like", 0)):
    EXT["numpy." + _nm] = like(_v)
    EXT["xarray." + _nm] = like(_v, True)


@ext("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.atleast_1d")
def np_array(I, st, args, kw, node):
    x = args[0]
    name = I_cur(I)
    if isinstance(x, Opaque):
        return x if x.hint == "array" else Opaque(("values", x.key), "array")
    c = cont(st, x)
    if isinstance(c, DaC):
        nid = st.heap[c.var].nd
        if name in ("numpy.asarray", "numpy.asanyarray"):
            return Ref(nid)
        return mk_nd(I, st, st.heap[nid].arr)
    if isinstance(c, NdC):
        if name in ("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.atleast_1d"):
            return x
        return mk_nd(I, st, c.arr)
    if isinstance(x, tuple) or isinstance(c, ListC):
        if isinstance(c, ListC) and c.tail is not None and not isinstance(c.tail.elem, NUM):
            return Opaque(("array", I.fp(x, st)), "array")
        return mk_nd(I, st, seq_arr(I, st, x))
    if isinstance(x, NUM):
        return mk_nd(I, st, A.const_array(I.sc(x), (), ()))
    return opq("array", I, st, x, hint="array")


_cur = [""]


def I_cur(I):
    return _cur[-1]


@ext("numpy.insert")
def np_insert(I, st, args, kw, node):
    x, pos, val = args[0], constify(args[1]), args[2]
    if isinstance(x, Opaque) or isinstance(val, Opaque):
        return opq("numpy.insert", I, st, *args, kw.get("axis"), hint="array")
    c = cont(st, x)
    if isinstance(c, ListC) and c.tail is None and kw.get("axis") is None and isinstance(pos, int):
        it = list(c.items)
        it.insert(pos, val)
        return mk_nd(I, st, L.list_arr(I, st, ListC(tuple(it))))
    if isinstance(c, ListC):
        a = seq_arr(I, st, x)
    else:
        a = arr_of(I, st, x)
    ax = kw.get("axis", args[3] if len(args) > 3 else None)
    if ax is None:
        if a.ndim != 1:
            raise Unsupported("insert flatten")
        ax = 0
    ax = norm_axis(ax, a.ndim)
    v = I.sc(val) if isinstance(val, NUM) else arr_of(I, st, val)
    if isinstance(v, Arr):
        sub = [e for k, e in enumerate(a.shape) if k != ax]
        if v.ndim == a.ndim and v.shape[ax].one():
            v = A.getitem(v, tuple(0 if k == ax else slice(None) for k in range(v.ndim)))
        for e, f in zip(reversed(v.shape), reversed(sub)):
            if e != f and not e.one():
                raise DefiniteError("insert shape mismatch")
    if isinstance(pos, int) and pos != 0:
        e = a.shape[ax]
        if e.sym is None and 0 <= pos <= e.c:
            sh = list(a.shape)
            sh[ax] = e.plus(1)

            def fn(idx):
                k = idx[ax][1]
                if k == pos:
                    if isinstance(v, Arr):
                        return v.at(idx[:ax] + idx[ax + 1:])
                    return v
                return a.at(idx[:ax] + (("L", k if k < pos else k - 1),) + idx[ax + 1:])

            return mk_nd(I, st, Arr(a.dims, sh, fn, a.kind, set(a.nonuni) | {ax}))
    if pos != 0:
        if isinstance(pos, Sc) and pos.p == P.sym("size", a.shape[ax].sym, pos=True) + a.shape[ax].c:
            return mk_nd(I, st, insert_high(a, ax, v))
        raise Unsupported("insert position")
    return mk_nd(I, st, A.insert_low(a, ax, v))


def insert_high(a, axis, val):
    e = a.shape[axis]
    sh = list(a.shape)
    sh[axis] = e.plus(1)
    last = A.from_end(sh[axis], 1)

    def fn(idx):
        if idx[axis] == last:
            if isinstance(val, Arr):
                sub = idx[:axis] + idx[axis + 1:]
                return val.at([("L", 0) if x.one() else s for s, x in zip(sub, val.shape)])
            return val
        return a.at(idx)

    return Arr(a.dims, sh, fn, a.kind, set(a.nonuni) | {axis})


@ext("numpy.append")
def np_append(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    v = args[1]
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if isinstance(v, NUM) and (ax is None and a.ndim == 1):
        return mk_nd(I, st, insert_high(a, 0, I.sc(v)))
    return np_concat(I, st, [(args[0], v)], {"axis": ax if ax is not None else 0}, node)


@ext("numpy.concatenate", "numpy.hstack", "numpy.block", "numpy.r_", "numpy.vstack")
def np_concat(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    if its is None:
        return opq("numpy.concatenate", I, st, *args, hint="array")
    name = I_cur(I)
    subs = []
    for x in its:
        if isinstance(x, Opaque):
            return opq("numpy.concatenate", I, st, *its, hint="array")
        a = arr_of(I, st, x) if not isinstance(x, NUM) else None
        if a is None or a.ndim == 0:
            s = I.sc(x) if isinstance(x, NUM) else a.at(())
            subs.append(Arr((None,), (Dim(None, 1),), lambda ix, s=s: s))
        else:
            subs.append(a)
    ax = kw.get("axis", args[1] if len(args) > 1 else 0)
    nd = subs[0].ndim
    if name == "numpy.hstack":
        ax = 0 if nd == 1 else 1
    if name == "numpy.block":
        ax = nd - 1
    if name == "numpy.vstack" and nd == 1:
        raise Unsupported("vstack 1d")
    ax = norm_axis(ax, nd)
    return mk_nd(I, st, concat(subs, ax))


def concat(subs, ax):
    """Concatenate; at most one operand has symbolic length."""
    n = sum(1 for s in subs if s.shape[ax].sym is not None)
    if n > 1:
        raise Unsupported("concatenate symbolic lengths")
    sh = list(subs[0].shape)
    k = next((i for i, s in enumerate(subs) if s.shape[ax].sym is not None), None)
    pre = sum(s.shape[ax].c for s in (subs[:k] if k is not None else subs))
    if k is None:
        sh[ax] = Dim(None, pre)
        offs = []
        o = 0
        for s in subs:
            offs.append(o)
            o += s.shape[ax].c

        def fn(idx):
            p = idx[ax][1]
            for s, of in zip(reversed(subs), reversed(offs)):
                if p >= of:
                    return s.at(idx[:ax] + (("L", p - of),) + idx[ax + 1:])
            raise DefiniteError("index")

        return Arr(subs[0].dims, sh, fn, subs[0].kind, {ax})
    mid = subs[k]
    post = sum(s.shape[ax].c for s in subs[k + 1:])
    e = mid.shape[ax]
    sh[ax] = Dim(e.sym, e.c + pre + post)

    def fn(idx):
        ix = idx[ax]

        def put(s, j):
            return s.at(idx[:ax] + (j,) + idx[ax + 1:])

        if ix[0] == "L" and ix[1] < pre:
            p = ix[1]
            for s in subs[:k]:
                if p < s.shape[ax].c:
                    return put(s, ("L", p))
                p -= s.shape[ax].c
        if ix[0] == "H":
            # distance from the end of the result
            m = ix[1] + sh[ax].c  # 0 = last element
            if m < post:
                p = m
                for s in reversed(subs[k + 1:]):
                    if p < s.shape[ax].c:
                        return put(s, ("L", s.shape[ax].c - 1 - p))
                    p -= s.shape[ax].c
        return put(mid, A.shift(ix, -pre))

    return Arr(mid.dims, sh, fn, mid.kind, set(mid.nonuni) | {ax})


@ext("numpy.argsort")
def np_argsort(I, st, args, kw, node):
    x = args[0]
    if isinstance(x, Opaque):
        return opq("numpy.argsort", I, st, x, kw.get("axis", -1), hint="array")
    a = arr_of(I, st, x)
    ax = norm_axis(kw.get("axis", args[1] if len(args) > 1 else -1), a.ndim)
    if A.const_axis(a.shape[ax]):
        return mk_nd(I, st, A.argsort(a, ax))
    return Opaque(("argsort", a.fp(), ax), "array")


@ext("numpy.sort")
def np_sort(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    ax = norm_axis(kw.get("axis", args[1] if len(args) > 1 else -1), a.ndim)
    if A.const_axis(a.shape[ax]):
        return mk_nd(I, st, A.gather(a, A.argsort(a, ax), ax))
    return mk_nd(I, st, A.permute_by(a, ("argsort", a.fp(), ax), ax, "sorted"))


@ext("numpy.take_along_axis")
def np_taa(I, st, args, kw, node):
    x, idx = args[0], args[1]
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if isinstance(x, Opaque):
        return opq("numpy.take_along_axis", I, st, x, idx, ax, hint="array")
    a = arr_of(I, st, x)
    ax = norm_axis(ax, a.ndim)
    I.event("permute", "take_along_axis", st, [x, idx, ax], node=node)
    if not isinstance(idx, Opaque) and A.const_axis(a.shape[ax]):
        ia = arr_of(I, st, idx)
        if ia.ndim == a.ndim:
            return mk_nd(I, st, A.gather(a, ia, ax))
    if isinstance(idx, Opaque) and idx.key[0] == "argsort":
        return mk_nd(I, st, A.permute_by(a, idx.key, ax, "sorted"))
    return mk_nd(I, st, A.permute_by(a, I.fp(idx, st), ax, "permuted"))


@ext("numpy.take")
def np_take(I, st, args, kw, node):
    x, idx = args[0], constify(args[1])
    ax = kw.get("axis", args[2] if len(args) > 2 else None)
    if isinstance(x, Opaque):
        return opq("numpy.take", I, st, x, idx, ax, hint="array")
    a = arr_of(I, st, x)
    ax = norm_axis(ax, a.ndim)
    if isinstance(idx, int):
        key = tuple(idx if k == ax else slice(None) for k in range(a.ndim))
        return mk_nd(I, st, A.getitem(a, key))
    if isinstance(idx, Sc) and A.const_axis(a.shape[ax]):
        sub = lambda ix: A.select(idx, A.axis_values(a, ax, tuple(ix)))
        return mk_nd(I, st, Arr(a.dims[:ax] + a.dims[ax + 1:], a.shape[:ax] + a.shape[ax + 1:], sub, a.kind))
    g = I.fp(idx, st)
    rest = [k for k in range(a.ndim) if k != ax]
    dims = [a.dims[k] for k in rest]
    fpa = a.fp()
    return mk_nd(I, st, Arr(dims, [a.shape[k] for k in rest], lambda ix: Sc(P.fn("take", ("k", A.vn(fpa)), ("i", A.vn(g)), *[((d or "ax"),) + i for d, i in zip(dims, ix)]))))


def index_axis(I, st, v):
    """1-d array of the indices of a range or array."""
    if isinstance(v, range):
        r = v
        return Arr((None,), (Dim(None, len(r)),), lambda ix: Sc(r[ix[0][1]]))
    if isinstance(v, Opaque) and v.key[0] == "range" and len(v.key) == 2:
        f = v.key[1]
        if isinstance(f, tuple) and f and f[0] == "p":
            return arr_of(I, st, np_arange(I, st, [Sc(P.POLY_BY_ID(f[1]))], {}, None))
        return None
    if isinstance(v, Opaque) or isinstance(v, NUM):
        return None
    a = seq_arr(I, st, v) if isinstance(v, tuple) or isinstance(cont(st, v), ListC) else arr_of(I, st, v)
    return a if a.ndim == 1 else None


@ext("numpy.ix_")
def np_ix(I, st, args, kw, node):
    return np_meshgrid(I, st, args, {"indexing": "ij", "sparse": True}, node)


@ext("numpy.meshgrid")
def np_meshgrid(I, st, args, kw, node):
    its = []
    for a in args:
        x = index_axis(I, st, a)
        if x is None:
            return opq("numpy.meshgrid", I, st, *args, kw.get("indexing"), hint="array")
        its.append(x)
    n = len(its)
    order = list(range(n))
    if kw.get("indexing", "xy") == "xy" and n >= 2:
        order[0], order[1] = 1, 0  # first argument varies along the second axis
    full = not kw.get("sparse")
    shape = [None] * n
    for k, x in enumerate(its):
        shape[order[k]] = x.shape[0]
    out = []
    for k, x in enumerate(its):
        ax = order[k]
        sh = tuple(shape) if full else tuple(shape[m] if m == ax else A.ONE_EXT for m in range(n))
        out.append(mk_nd(I, st, Arr((None,) * n, sh, (lambda x, ax: lambda ix: x.at((ix[ax],)))(x, ax))))
    return tuple(out)


@ext("numpy.repeat")
def np_repeat(I, st, args, kw, node):
    n = constify(kw.get("repeats", args[1] if len(args) > 1 else None))
    ax = constify(kw.get("axis", args[2] if len(args) > 2 else None))
    if not isinstance(args[0], Opaque) and isinstance(n, int) and n > 0:
        a = arr_of(I, st, args[0])
        if ax is None and a.ndim == 1:
            ax = 0
        if isinstance(ax, int) and a.shape[ax].sym is None:
            ax = norm_axis(ax, a.ndim)
            sh = [A.Ext(None, e.c * n) if k == ax else e for k, e in enumerate(a.shape)]

            def at(ix):
                return a.at(tuple(("L", i[1] // n) if k == ax else i for k, i in enumerate(ix)))
            return mk_nd(I, st, Arr((None,) * a.ndim, sh, at, a.kind))
    return opq("numpy.repeat", I, st, *args, hint="array")


@ext("numpy.median", "numpy.nanmedian")
def np_median(I, st, args, kw, node):
    if isinstance(args[0], Opaque):
        return opq("median", I, st, args[0])
    a = arr_of(I, st, args[0])
    return reduce_fn(I, st, a, "median", args[0])


def uniform_value(a):
    """Value if the array is the same scalar everywhere, else None."""
    import itertools

    v = None
    for idx in itertools.product(*[A.axis_classes(e, brief=True) for e in a.shape]):
        x = a.at(idx)
        if v is None:
            v = x
        elif v.p != x.p:
            return None
    if v is None:
        return None
    if any(P.depends_axis(at, d) for d in a.dims if d for at in P.all_atoms(v.p)):
        return None
    return v


def whole(p):
    """The term is a position, a floor or a sum of such."""
    return all(c.denominator == 1 for c in p.t.values()) and all(
        P.ATOMS[a][0] == "fn" and P.ATOMS[a][1] in ("red_argmin", "red_argmax", "floor", "trunc", "year", "month", "day", "hour", "minute", "second")
        for a in P.atoms_of(p))


def known_values(a, skipna=False):
    """The values of a small array in order, if all are known numbers (or missing, to skip)."""
    import itertools

    n = 1
    for e in a.shape:
        if e.sym is not None:
            return None
        n *= e.c
    if not 0 < n <= 400:
        return None
    out = []
    for idx in itertools.product(*[[("L", k) for k in range(e.c)] for e in a.shape]):
        x = a.at(idx)
        if skipna and x.d and A.missing(x):
            continue
        if not x.p.is_const() or x.d:
            return None
        out.append(x.p.const())
    return out or None


def some_known(a, which):
    """any/all of a small array as far as single known elements decide it."""
    import itertools

    if any(e.sym is not None for e in a.shape) or math.prod(e.c for e in a.shape) > 400:
        return None
    for idx in itertools.product(*[[("L", k) for k in range(e.c)] for e in a.shape]):
        x = a.at(idx)
        if not x.d and x.p.is_const() and (x.p.const() != 0) == (which == "any"):
            return which == "any"
    return None


def known_reduce(vals, name):
    n = len(vals)
    s = sorted(vals)
    if name in ("min", "max"):
        return Sc(P.P(min(vals) if name == "min" else max(vals)))
    if name in ("argmin", "argmax"):
        return vals.index(min(vals) if name == "argmin" else max(vals))
    if name == "median":
        return Sc(P.P(s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2))
    return None


def known_indices(a):
    import itertools
    return itertools.product(*[[("L", k) for k in range(e.c)] for e in a.shape])


def small(a):
    """A few numbers, none of them missing?"""
    n = 1
    for e in a.shape:
        n *= e.c if A.const_axis(e) else 99
    return a.ndim and 0 < n <= 16 and not any(a.at(ix).d for ix in known_indices(a))


def reduce_fn(I, st, a, name, src, nonneg=False):
    if name in ("min", "max", "median", "argmin", "argmax"):
        vals = known_values(a)
        if vals is not None:
            return known_reduce(vals, name)
    if name in ("min", "max") and small(a):
        r = a
        while r.ndim:
            r = A.reduce_axis(r, r.ndim - 1, name)
        return to_plain(r.at(()))
    u = uniform_value(a)
    if u is not None and name not in ("argmin", "argmax", "std", "var"):
        return to_plain(u)
    return Sc(P.fn("red_" + name, ("k", A.vn(a.fp())), nonneg=nonneg))


@ext("numpy.size")
def np_size(I, st, args, kw, node):
    if isinstance(args[0], Opaque):
        return Opaque(("size", args[0].key))
    a = arr_of(I, st, args[0])
    ax = kw.get("axis", args[1] if len(args) > 1 else None)
    if ax is None:
        return L.size_of(a)
    return L.dim_val(a.shape[norm_axis(ax, a.ndim)])


@ext("numpy.ndim")
def np_ndim(I, st, args, kw, node):
    return arr_of(I, st, args[0]).ndim


@ext("numpy.shape")
def np_shape(I, st, args, kw, node):
    return tuple(L.dim_val(e) for e in arr_of(I, st, args[0]).shape)


@ext("numpy.arange")
def np_arange(I, st, args, kw, node):
    if len(args) == 1 and isinstance(args[0], NUM):
        n = constify(args[0])
        e = Dim(None, n) if isinstance(n, int) else dim_of(I.sc(n).p)

        def fn(ix):
            b, k = ix[0]
            if b == "L":
                return Sc(k)
            if b == "H":
                return Sc(e.poly() - e.c - 1 - k)
            return Sc(P.sym("ix", "G") + k)

        return mk_nd(I, st, Arr((None,), (e,), fn))
    cs = [constify(x) if isinstance(x, NUM) else None for x in args]
    if len(cs) in (2, 3) and all(isinstance(x, int) for x in cs) and not kw.get("step"):
        r = range(*cs)
        return mk_nd(I, st, Arr((None,), (Dim(None, len(r)),), lambda ix: Sc(
            r[ix[0][1]] if ix[0][0] == "L" else r[len(r) - 1 - ix[0][1]])))
    if len(args) == 2 and not kw and all(isinstance(x, NUM) for x in args):
        lo, hi = I.sc(args[0]), I.sc(args[1])
        try:
            e = dim_of(hi.p - lo.p)
        except Unsupported:
            return opq("arange", I, st, *args, hint="array")

        def fn2(ix):
            b, k = ix[0]
            return Sc(lo.p + k) if b == "L" else (Sc(hi.p - 1 - k) if b == "H" else Sc(lo.p + P.sym("ix", "G") + k))
        return mk_nd(I, st, Arr((None,), (e,), fn2))
    return opq("arange", I, st, *args, hint="array")


def allany(which):
    def h(I, st, args, kw, node):
        x = args[0]
        if isinstance(x, bool):
            return x
        if isinstance(x, NUM):
            return pybool(A.truth(I.sc(x)))
        if isinstance(x, Opaque):
            return boolsym(which, x.key)
        c = cont(st, x)
        if is_ds(st, x):
            return Opaque((which, I.fp(x, st)))
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if ax is not None:
            if isinstance(c, ListC) or isinstance(x, tuple):
                x = mk_nd(I, st, seq_arr(I, st, x))
            if not isinstance(ax, int):
                its = I.concrete_items(ax, st)
                ax = tuple(int(constify(k)) for k in its) if its is not None else constify(ax)
            return METHODS[("nd", which)](I, st, as_np(I, st, x), [], {"axis": ax}, node)
        if isinstance(c, ListC) or isinstance(x, tuple):
            its = I.concrete_items(x, st)
            if its is not None:
                p = P.ONE if which == "all" else P.ZERO
                for i in its:
                    g = P.ONE
                    if isinstance(i, Maybe):
                        g, i = i.g, i.v
                    t = I.truth(i, st)
                    if which == "all":
                        p = p * (P.ONE - g + g * t)
                    else:
                        p = p + g * t - p * g * t
                return pybool(p)
            if isinstance(c, ListC) and c.tail is not None:
                t = I.truth(c.tail.elem, st)
                if t.is_one() or t.is_zero():
                    if which == "all" and t.is_one():
                        return True
                    if which == "any" and t.is_zero():
                        return False
                return Sc(P.fn(which, t, ("over", c.tail.key), boolean=True), k="bool")
            return boolsym(which, I.fp(x, st))
        a = arr_of(I, st, x)
        u = uniform_value(a)
        if u is not None:
            return pybool(A.truth(u))
        vals = known_values(a)
        if vals is not None:
            return (any if which == "any" else all)(v != 0 for v in vals)
        one = some_known(a, which)
        if one is not None:
            return one
        if small(a) and not (args[1:] or kw.get("axis") is not None or kw.get("dim") is not None):
            xs = [A.truth(a.at(ix)) for ix in known_indices(a)]
            if len(xs) <= 3:
                p = P.ONE
                for y in xs:
                    p = p * (P.ONE - y if which == "any" else y)
                return pybool(P.ONE - p if which == "any" else p)
            n = P.fn("argmax" if which == "any" else "argmin", *xs, nonneg=True)
            return A.BIN[">"](A.select(Sc(n), [Sc(y) for y in xs]), Sc(0))
        I.event("reduce", which, st, [x], node=node)
        return Sc(P.fn(which, ("k", A.vn(a.fp())), boolean=True), k="bool")

    return h


EXT["numpy.any"] = EXT["builtins.any"] = allany("any")
EXT["numpy.all"] = EXT["builtins.all"] = allany("all")


def sum_arr(I, a, axes, skipna):
    b = a
    if skipna:
        b = elementwise(lambda x: s_fillna(x, Sc(0)) if x.d else x, [a])
        b = Arr(a.dims, a.shape, lambda ix: b0_at(a, ix), "num", a.nonuni)
    for ax in sorted(axes, reverse=True):
        b = A.sum_axis(b, ax)
    return b


def b0_at(a, ix):
    x = a.at(ix)
    x = Sc(x.p, x.d)
    return s_fillna(x, Sc(0)) if x.d else x


def np_reduce(which, skipna):
    def h(I, st, args, kw, node):
        x = args[0]
        ax = kw.get("axis", args[1] if len(args) > 1 else None)
        if isinstance(x, Opaque):
            return opq("numpy." + which, I, st, x, ax, hint="array" if ax is not None else "")
        c = cont(st, x)
        if isinstance(c, DaC) and ax is None:
            return METHODS[("da", which)](I, st, x, [], {}, node)
        a = seq_arr(I, st, x) if isinstance(c, ListC) or isinstance(x, tuple) else arr_of(I, st, x)
        its = I.concrete_items(ax, st) if ax is not None and not isinstance(ax, NUM) else None
        axes = list(range(a.ndim)) if ax is None else [norm_axis(k, a.ndim) for k in (its or [ax])]
        vals = known_values(a, skipna) if which in ("sum", "mean") + (("min", "max") if skipna else ()) and len(axes) == a.ndim else None
        if vals is not None and which in ("min", "max"):
            return to_plain(I.sc(known_reduce(vals, which)))
        if vals is not None:
            return to_plain(Sc(P.P(sum(vals) if which == "sum" else P.Fraction(sum(vals)) / len(vals))))
        if a.sel is not None and which == "sum":
            a = elementwise(lambda v, m: A.s_where(m, v, Sc(0)), [a.sel[1], a.sel[0]])
            axes = list(range(a.ndim))
        if which in ("sum", "mean"):
            r = sum_arr(I, a, axes, skipna)
            if which == "mean":
                n = P.ONE
                for k in axes:
                    n = n * a.shape[k].poly()
                r = elementwise(lambda s: A.s_div(s, Sc(n)), [r])
            if r.ndim == 0:
                return to_plain(r.at(()))
            return mk_nd(I, st, r)
        if len(axes) == a.ndim and not (a.ndim == 1 and A.const_axis(a.shape[0])):
            return reduce_fn(I, st, a, which, x)
        if len(axes) == 1 and A.const_axis(a.shape[axes[0]]) and which in ("argmin", "argmax", "min", "max") and not skipna:
            r = A.reduce_axis(a, axes[0], which)
            return to_plain(r.at(())) if r.ndim == 0 else mk_nd(I, st, r)
        if len(axes) == a.ndim:
            return reduce_fn(I, st, a, which, x)
        return opq("numpy." + which, I, st, x, ax, hint="array")

    return h


for _w in ("sum", "mean", "min", "max", "std", "prod", "argmin", "argmax"):
    EXT["numpy." + _w] = np_reduce(_w, False)
    METHODS[("nd", _w)] = (lambda w: lambda I, st, s, args, kw, node: np_reduce(w, False)(I, st, [s] + list(args), kw, node))(_w)
    if _w in ("sum", "mean", "min", "max"):
        EXT["numpy.nan" + _w] = np_reduce(_w, True)
EXT["numpy.amin"], EXT["numpy.amax"] = EXT["numpy.min"], EXT["numpy.max"]


@ext("numpy.roll")
def np_roll(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    sh = constify(arg(args, kw, 1, "shift"))
    ax = arg(args, kw, 2, "axis")
    if not isinstance(sh, int) or ax is None:
        raise Unsupported("roll")
    ax = norm_axis(ax, a.ndim)
    return mk_nd(I, st, roll(a, sh, ax))


def roll(a, sh, ax):
    e = a.shape[ax]

    def fn(idx):
        j = A.shift(idx[ax], -sh)
        if A.below(j, 0):
            j = A.from_end(e, -j[1])
        elif A.at_or_above_end(j, e, 0):
            n = j[1] - e.c if e.sym is None else -1 - j[1] - e.c
            j = ("L", n)
        return a.at(idx[:ax] + (j,) + idx[ax + 1:])

    return Arr(a.dims, a.shape, fn, a.kind, set(a.nonuni) | {ax})


@ext("numpy.flip")
def np_flip(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    ax = norm_axis(arg(args, kw, 1, "axis"), a.ndim)
    key = tuple(slice(None, None, -1) if k == ax else slice(None) for k in range(a.ndim))
    return mk_nd(I, st, A.getitem(a, key))


@ext("numpy.moveaxis")
def np_moveaxis(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    s, d = norm_axis(args[1], a.ndim), norm_axis(args[2], a.ndim)
    perm = [k for k in range(a.ndim) if k != s]
    perm.insert(d, s)
    return mk_nd(I, st, A.transpose(a, perm))


@ext("numpy.transpose")
def np_transpose(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    ax = arg(args, kw, 1, "axes")
    perm = tuple(constify(x) for x in I.concrete_items(ax, st)) if ax is not None else tuple(range(a.ndim))[::-1]
    return mk_nd(I, st, A.transpose(a, list(perm)))


@ext("numpy.squeeze")
def np_squeeze(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    key = tuple(0 if e.one() else slice(None) for e in a.shape)
    return mk_nd(I, st, A.getitem(a, key))


@ext("numpy.expand_dims")
def np_expand(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    ax = norm_axis(arg(args, kw, 1, "axis"), a.ndim + 1)
    key = [slice(None)] * a.ndim
    key.insert(ax, None)
    return mk_nd(I, st, A.getitem(a, tuple(key)))


@ext("numpy.broadcast_to")
def np_bto(I, st, args, kw, node):
    a = arr_of(I, st, args[0])
    sh = shape_of(I, st, args[1])
    z = A.const_array(0, (None,) * len(sh), sh)
    return mk_nd(I, st, elementwise(lambda x, y: x, [a, z]))


@ext("numpy.stack")
def np_stack(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    ax = constify(arg(args, kw, 1, "axis", 0))
    if its is None or not isinstance(ax, int):
        return opq("numpy.stack", I, st, *args, hint="array")
    r = stack_arrs([arr_of(I, st, x) for x in its])
    ax = norm_axis(ax, r.ndim)
    return mk_nd(I, st, A.transpose(r, list(range(1, ax + 1)) + [0] + list(range(ax + 1, r.ndim))) if ax else r)


@ext("numpy.allclose", "numpy.isclose", "numpy.array_equal")
def np_close(I, st, args, kw, node):
    name = I_cur(I)
    if name != "numpy.array_equal" and all(isinstance(x, NUM) or is_arr(st, x) for x in args[:2]) \
            and any(is_arr(st, x) and small(arr_of(I, st, x)) for x in args[:2]) and "equal_nan" not in kw:
        rtol, atol = (I.sc(arg(args, kw, 2 + n, k, Sc(P.P(P.Fraction(d))))) for n, (k, d) in enumerate((("rtol", "1e-5"), ("atol", "1e-8"))))
        a, b = (arr_of(I, st, x) if is_arr(st, x) else A.const_array(I.sc(x), (), ()) for x in args[:2])
        r = elementwise(lambda x, y: A.BIN["<="](A.s_abs(A.s_sub(x, y)), A.s_add(atol, A.s_mul(rtol, A.s_abs(y)))), [a, b])
        r = mk_nd(I, st, Arr(r.dims, r.shape, r.at, "bool", r.nonuni))
        return r if name == "numpy.isclose" else EXT["numpy.all"](I, st, [r], {}, node)
    return boolsym(I_cur(I), *[I.fp(a, st) for a in args])


@ext("numpy.float32", "numpy.float64", "builtins.float")
def to_float(I, st, args, kw, node):
    x = args[0] if args else 0.0
    x = delit(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            pass
    if isinstance(x, NUM):
        return x if not isinstance(x, bool) else int(x)
    if is_str(x) and isinstance(x, StrT) and len(x.parts) == 1 and x.parts[0][0] == "fmt":
        k = x.parts[0][1]
        if isinstance(k, tuple) and k[0] == "p" and not x.parts[0][2]:
            return Sc(P.POLY_BY_ID(k[1]))
    if is_arr(st, x):
        a = arr_of(I, st, x)
        if a.ndim == 0:
            return to_plain(a.at(()))
    return Sc(P.fn("num", I.fp(x, st)))


@ext("builtins.int", "numpy.int64", "numpy.int32")
def to_int(I, st, args, kw, node):
    x = delit(args[0]) if args else 0
    x = L.known_text(I, x) or x
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            pass
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, NUM):
        c = constify(x)
        if isinstance(c, int):
            return c
        s = I.sc(x)
        if s.k == "bool":
            return Sc(s.p)
        if whole(s.p):
            return s
        return Sc(P.fn("trunc", s.p))
    if is_arr(st, x) and arr_of(I, st, x).ndim == 0:
        return to_int(I, st, [to_plain(arr_of(I, st, x).at(()))], {}, node)
    return Sc(P.fn("int", I.fp(x, st)))


@ext("builtins.round")
def b_round(I, st, args, kw, node):
    if isinstance(args[0], Opaque):
        return Opaque(("round", args[0].key))
    return rounded(I.sc(args[0]), constify(arg(args, kw, 1, "ndigits", kw.get("decimals", 0))))


def rounded(x, n):
    """To n decimals, halves to the even side."""
    if n is None:
        n = 0
    if isinstance(n, int) and 0 <= n <= 6:
        return Sc(P.fn("round", x.p * 10 ** n) * P.P(P.Fraction(1, 10 ** n)), x.d, x.k)
    return Sc(P.fn("round_to", x.p, ("n", n if isinstance(n, int) else "?")), x.d, x.k)


@ext("builtins.min", "builtins.max")
def b_minmax(I, st, args, kw, node):
    f = A.s_min if I_cur(I).endswith("min") else A.s_max
    its = list(args)
    if len(its) == 1:
        its = I.concrete_items(its[0], st)
        if its is None:
            return opq(I_cur(I), I, st, args[0])
    if its and not kw and any(is_arr(st, x) for x in its) and all(isinstance(x, NUM) or is_arr(st, x) and arr_of(I, st, x).ndim == 0 for x in its):
        xs = [I.sc(x) if isinstance(x, NUM) else arr_of(I, st, x).at(()) for x in its]
        if all(x.p.is_const() and not x.d for x in xs):
            v = [x.p.const() for x in xs]
            return its[v.index(min(v) if I_cur(I).endswith("min") else max(v))]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        a = A.const_array(r, (), ())
        return mk_da(I, st, a, {}) if any(is_da(st, x) for x in its) else mk_nd(I, st, a)
    if kw or not all(isinstance(x, NUM) for x in its) or not its:
        return opq(I_cur(I), I, st, *its)
    if all(isinstance(x, int) for x in its):
        return (min if I_cur(I).endswith("min") else max)(its)
    r = I.sc(its[0])
    for x in its[1:]:
        r = f(r, I.sc(x))
    return to_plain(r)


@ext("builtins.sum")
def b_sum(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    if its is None or any(isinstance(x, Maybe) for x in its):
        return opq("sum", I, st, *args)
    r = args[1] if len(args) > 1 else 0
    for x in its:
        r = binop(I, st, "+", r, x, node)
    return r


@ext("builtins.len")
def b_len(I, st, args, kw, node):
    x = args[0]
    its = I.concrete_items(x, st)
    if its is not None and not any(isinstance(i, Maybe) for i in its):
        return len(its)
    if is_arr(st, x):
        return L.dim_val(arr_of(I, st, x).shape[0])
    c = cont(st, x)
    if isinstance(c, ListC) and c.tail is not None:
        return Sc(P.fn("len", ("over", c.tail.key), nonneg=True) + len(c.items))
    h = I.cfg.get("opaque_len")
    r = h(I, st, x) if h is not None and isinstance(x, Opaque) else None
    return r if r is not None else Sc(P.fn("len", I.fp(x, st), nonneg=True))


@ext("builtins.slice")
def b_slice(I, st, args, kw, node):
    a = list(args)
    return slice(*a) if 1 <= len(a) <= 3 else opq("slice", I, st, *a)


@ext("builtins.range")
def b_range(I, st, args, kw, node):
    a = [constify(x) for x in args]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    return Opaque(("range",) + tuple(I.fp(x, st) for x in a), "iter")


@ext("builtins.enumerate")
def b_enum(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    start = constify(arg(args, kw, 1, "start", 0))
    if its is not None:
        return tuple((n + start, x) for n, x in enumerate(its))
    el = L.iter_elem(I, st, args[0], "enum")
    return Opaque(("enumerate", I.fp(args[0], st), el), "iter")


@ext("builtins.zip")
def b_zip(I, st, args, kw, node):
    ls = [I.concrete_items(a, st) for a in args]
    if all(x is not None for x in ls):
        return tuple(zip(*ls))
    return Opaque(("zip", tuple(L.iter_elem(I, st, a, "zip") for a in args)), "iter")


@ext("builtins.map")
def b_map(I, st, args, kw, node):
    its = I.concrete_items(args[1], st) if len(args) == 2 else None
    if its is None:
        return opq("map", I, st, *args)
    return tuple(I.call(args[0], [x], {}, st, node) for x in its)


@ext("builtins.reversed")
def b_rev(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    if its is None:
        return opq("reversed", I, st, *args)
    return tuple(reversed(its))


def sort_keys(vs):
    """Comparable values in place of known strings, paths and numbers."""
    if not vs:
        return []
    if all(isinstance(x, tuple) for x in vs) and len({len(x) for x in vs}) == 1:
        cols = [sort_keys([x[k] for x in vs]) for k in range(len(vs[0]))]
        return None if None in cols else [tuple(c[n] for c in cols) for n in range(len(vs))]
    vs = [delit(StrT(x.parts)) if isinstance(x, StrT) else x for x in vs]
    if all(isinstance(x, Sc) and x.p.is_const() for x in vs):
        return [x.p.const() for x in vs]
    if all(isinstance(x, (int, float)) for x in vs) or all(isinstance(x, str) for x in vs):
        return vs
    if all(isinstance(x, StrT) for x in vs) and len({x.parts[:-1] for x in vs}) == 1 and all(isinstance(x.parts[-1], str) for x in vs):
        return [x.parts[-1] for x in vs]
    return None


@ext("builtins.sorted")
def b_sorted(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    rev = kw.get("reverse", False)
    if its is not None and isinstance(rev, bool):
        vs = [I.call(kw["key"], [x], {}, st, node) for x in its] if kw.get("key") is not None else list(its)
        ks = sort_keys(vs)
        if ks is not None:
            return I.alloc(st, ListC(tuple(its[n] for n in sorted(range(len(its)), key=lambda n: ks[n], reverse=rev))))
    c = cont(st, args[0])
    if isinstance(c, ListC) and c.tail is not None and not c.items:
        return I.alloc(st, ListC((), "list", Abs(c.tail.elem, ("sorted", c.tail.key, I.fp(kw.get("key"), st), bool(rev)))))
    return I.alloc(st, ListC((), "list", Abs(Opaque(("elem", I.fp(args[0], st))), ("sorted", I.fp(args[0], st), I.fp(kw.get("key"), st), bool(rev)))))


@ext("builtins.list", "builtins.tuple", "builtins.set", "builtins.iter", "builtins.frozenset", "collections.deque")
def b_list(I, st, args, kw, node):
    k = I_cur(I).split(".")[-1]
    kind = {"set": "set", "frozenset": "set"}.get(k, "list")
    if not args:
        return () if k == "tuple" else I.alloc(st, ListC((), kind))
    x = args[0]
    its = I.concrete_items(x, st)
    if its is not None:
        if kind == "set":
            seen, out = [], []
            for i in its:
                f = I.fp(i.v if isinstance(i, Maybe) else i, st)
                if f not in seen or isinstance(i, Maybe):
                    seen.append(f)
                    out.append(i)
            its = out
        if k == "tuple" and not any(isinstance(i, Maybe) for i in its):
            return tuple(its)
        return I.alloc(st, ListC(tuple(its), kind))
    c = cont(st, x)
    if isinstance(c, ListC):
        return I.alloc(st, ListC(c.items, kind, c.tail))
    if isinstance(x, (VarsV,)):
        o = st.heap[x.owner.id]
        if o.rest is None:
            return I.alloc(st, ListC(tuple(Maybe(v.g, n) if isinstance(v, Maybe) else n for n, v in o.vars.items()), kind))
    el = L.iter_elem(I, st, x, "list")
    return I.alloc(st, ListC((), kind, Abs(el, ("of", I.fp(x, st)))))


@ext("builtins.next")
def b_next(I, st, args, kw, node):
    x = args[0]
    c = cont(st, x)
    if isinstance(c, ListC) and c.items:
        i = c.items[0]
        st.heap[x.id] = ListC(c.items[1:], c.kind, c.tail)
        return i
    if isinstance(c, ListC) and c.tail is not None:
        return c.tail.elem
    if isinstance(x, tuple) and x:
        return x[0]
    if len(args) > 1:
        return Opaque(("next", I.fp(x, st), I.fp(args[1], st)), "optional")
    return Opaque(("next", I.fp(x, st)), getattr(x, "hint", "") if getattr(x, "key", ("",))[0] == "glob" else "")


@ext("builtins.dict")
def b_dict(I, st, args, kw, node):
    d = {}
    rest = None
    if args:
        c = cont(st, args[0])
        if isinstance(c, DictC):
            d.update(c.d)
            rest = c.rest
        elif isinstance(args[0], CoordsV):
            o = st.heap[args[0].owner.id]
            for n in o.coords:
                d[n] = L.da_attr(I, st, args[0].owner, o, n, node) if isinstance(o, DaC) else L.da_of_ds(I, st, args[0].owner, n)
        else:
            its = I.concrete_items(args[0], st)
            if its is not None and all(isinstance(x, tuple) and len(x) == 2 for x in its):
                for a, b in its:
                    d[hashable(I, a, st)] = b
            else:
                rest = Opaque(("dict", I.fp(args[0], st)))
    for k, v in kw.items():
        d[k] = v
    return I.alloc(st, DictC(d, rest))


@ext("builtins.str", "builtins.repr")
def b_str(I, st, args, kw, node):
    if not args:
        return ""
    x = args[0]
    if isinstance(x, StrT):
        return StrT(x.parts, False) if x.lit() is None else x.lit()
    if isinstance(x, Ext) and not isinstance(x, TypeForm):
        return f"<class '{x.name}'>"
    return to_str(I, st, x)


@ext("builtins.bool", "numpy.bool_")
def b_bool(I, st, args, kw, node):
    return pybool(I.truth(args[0], st)) if args else False


@ext("builtins.format")
def b_format(I, st, args, kw, node):
    return delit(mkstr((L.format_value(I, st, args[0], args[1] if len(args) > 1 else ""),)))


@ext("builtins.print")
def b_print(I, st, args, kw, node):
    I.event("log", "print", st, args, kw, node)
    return None


@ext("builtins.type")
def b_type(I, st, args, kw, node):
    c = cont(st, args[0])
    if isinstance(c, ObjC):
        return c.cls
    v = args[0]
    if isinstance(v, Sc) and v.k == "time":
        cal = I.cfg.get("calendar", "standard")
        if I.cfg.get("numpy_times"):
            return Ext("numpy.datetime64")
        if isinstance(cal, str):
            return Ext("cftime._cftime." + CF_CLASS.get(cal, "datetime"))
    v = delit(v)
    name = None
    if isinstance(c, ListC):
        name = c.kind if c.kind in ("list", "set") else None
    elif isinstance(c, DictC):
        name = "dict"
    elif isinstance(v, (bool, int, float, str, tuple)):
        name = type(v).__name__
    elif isinstance(v, StrT) and not v.path:
        name = "str"
    if name:
        return Ext("builtins." + name)
    return Opaque(("type", I.fp(args[0], st)))


CF_CLASS = {"standard": "DatetimeGregorian", "gregorian": "DatetimeGregorian", "proleptic_gregorian": "DatetimeProlepticGregorian",
            "noleap": "DatetimeNoLeap", "365_day": "DatetimeNoLeap", "360_day": "Datetime360Day", "julian": "DatetimeJulian",
            "all_leap": "DatetimeAllLeap", "366_day": "DatetimeAllLeap"}


@ext("builtins.hasattr")
def b_hasattr(I, st, args, kw, node):
    c = cont(st, args[0])
    n = args[1]
    if isinstance(c, ObjC) and isinstance(n, str):
        if n in c.f:
            return True
        if isinstance(c.cls, Cls):
            return c.cls.lookup(n) is not None
    h = I.cfg.get("opaque_attr")
    if h is not None and isinstance(args[0], Opaque) and isinstance(n, str):
        r = h(I, st, args[0], n)
        if r is not None:
            return r is not MISSING
    return boolsym("hasattr", I.fp(args[0], st), I.fp(n, st))


MISSING = Opaque(("?missing",))


@ext("builtins.getattr")
def b_getattr(I, st, args, kw, node):
    n = delit(args[1])
    if isinstance(n, str):
        if len(args) > 2:
            c = cont(st, args[0])
            if isinstance(c, ObjC) and n not in c.f and isinstance(c.cls, Cls) and c.cls.lookup(n) is None:
                return args[2]
            if isinstance(c, (DsC, DaC, NdC)):
                known = L.known_names.DATASET if isinstance(c, DsC) else L.known_names.DATAARRAY if isinstance(c, DaC) else L.known_names.NDARRAY
                has = isinstance(c, DsC) and (n in c.vars or c.rest is not None) or not isinstance(c, NdC) and n in c.coords
                if n not in known and n not in L.ATTRS and not has:
                    return args[2]
        return I.getattr(args[0], n, st, node)
    return opq("?getattr", I, st, *args)


@ext("builtins.setattr")
def b_setattr(I, st, args, kw, node):
    n = delit(args[1])
    if isinstance(n, str):
        L.setattr_(I, st, args[0], n, args[2], node)
    else:
        I.note("dynamic setattr", node)


@ext("builtins.isinstance")
def b_isinstance(I, st, args, kw, node):
    v, t = args[0], args[1]
    ts = I.concrete_items(t, st) if isinstance(t, tuple) or isinstance(cont(st, t), ListC) else [t]
    if isinstance(t, Opaque) and t.key[0] in ("args", "item", "method", "attr"):
        ts = [t]
    res = P.ZERO
    for x in ts or [t]:
        r = isinst(I, st, v, x)
        p = P.P(r) if isinstance(r, bool) else r.p
        res = res + p - res * p
    return pybool(res)


def isinst(I, st, v, t):
    c = cont(st, v)
    name = t.name if isinstance(t, Ext) else (t.qual if isinstance(t, Cls) else None)
    if isinstance(t, TypeForm) and name.split(".")[-1] in ("Union", "Optional"):
        res = P.ZERO
        for x in t.args + ((None,) if name.endswith("Optional") else ()):
            r = v is None if x is None else isinst(I, st, v, x)
            q = P.P(r) if isinstance(r, bool) else r.p
            res = res + q - res * q
        return pybool(res)
    if isinstance(t, Cls):
        if isinstance(c, ObjC) and isinstance(c.cls, Cls):
            return c.cls.isa(t.qual)
        if isinstance(v, Opaque):
            return boolsym("isinst", v.key, t.qual)
        return False
    if name is None:
        if isinstance(t, Opaque):
            if isinstance(v, Sc) and v.k == "time" and "cftime" in str(t.key).lower():
                return True
            if is_str(v) and "cftime" in str(t.key).lower():
                return False
        return boolsym("isinst", I.fp(v, st), I.fp(t, st))
    last = name.split(".")[-1]
    if isinstance(v, Opaque) and v.key[0] == "exc" and len(v.key) > 1 and isinstance(v.key[1], str):
        a, b = getattr(_bi, v.key[1].split(".")[-1], None), getattr(_bi, last, None)
        if isinstance(a, type) and isinstance(b, type):
            if issubclass(a, b):
                return True
            if len(v.key) > 2 or not issubclass(b, a):
                return False
    if isinstance(v, Opaque):
        known = {"path": {"Path", "PurePath", "PosixPath"}, "url": {"HttpUrl", "AnyUrl", "Url"}, "str": {"str"}, "array": {"DataArray", "ndarray"}, "ds": {"Dataset"}}
        if v.hint in known and last in {"Path", "PurePath", "PosixPath", "HttpUrl", "AnyUrl", "str", "Dataset", "dict", "list", "int", "tuple"}:
            return last in known[v.hint]
        return boolsym("isinst", v.key, name)
    if last in ("Path", "PurePath"):
        return isinstance(v, StrT) and v.path
    if last == "str":
        return isinstance(v, str) or isinstance(v, StrT) and not v.path
    if last == "list":
        return isinstance(c, ListC) and c.kind == "list"
    if last == "set":
        return isinstance(c, ListC) and c.kind == "set"
    if last == "tuple":
        return isinstance(v, tuple) or isinstance(c, ObjC) and isinstance(c.cls, Cls) and c.cls.isa("typing.NamedTuple")
    if last == "dict":
        return isinstance(c, DictC)
    if last == "bool":
        return isinstance(v, bool) or isinstance(v, Sc) and v.k == "bool"
    if last == "int":
        return isinstance(v, int) or boolsym("isint", I.fp(v, st)) if isinstance(v, Sc) and v.k == "num" else isinstance(v, int)
    if last == "float":
        return isinstance(v, float) or isinstance(v, Sc) and v.k == "num"
    if last == "DataArray":
        return isinstance(c, DaC)
    if last == "Dataset":
        return isinstance(c, DsC)
    if last == "ndarray":
        return isinstance(c, NdC)
    if last.lower().startswith("datetime") or name == "cftime.datetime":
        return isinstance(v, Sc) and v.k == "time"
    if last == "Timedelta" or last == "timedelta":
        return isinstance(v, Sc) and v.k == "td"
    if isinstance(c, ObjC) and isinstance(c.cls, Cls):
        return c.cls.isa(name)
    return False if v is None else boolsym("isinst", I.fp(v, st), name)


# ------------------------------------------------------------------ pandas / time
def td_of_freq(I, st, f):
    f = delit(f)
    if isinstance(f, str):
        import re

        m = re.fullmatch(r"\s*(\d*\.?\d*)\s*(us|ms|s|S|sec|second|seconds|min|T|minute|minutes|m|h|H|hr|hour|hours|d|D|day|days)\s*", f)
        if m and m.group(2) != "m":
            u = {"us": Fraction(1, 10**6), "ms": Fraction(1, 1000), "s": 1, "S": 1, "sec": 1, "second": 1, "seconds": 1, "min": 60, "T": 60, "minute": 60, "minutes": 60,
                 "h": 3600, "H": 3600, "hr": 3600, "hour": 3600, "hours": 3600, "d": 86400, "D": 86400, "day": 86400, "days": 86400}[m.group(2)]
            n = Fraction(m.group(1) or 1)
            return P.P(n * u)
        m = re.fullmatch(r"(\d+)h(\d+)m(in)?", f)
        if m:
            return P.P(int(m.group(1)) * 3600 + int(m.group(2)) * 60)
        return P.sym("td", f, pos=True)
    if isinstance(f, Sc) and f.k == "td":
        return f.p
    return P.sym("td", I.fp(f, st), pos=True)


@ext("pandas.Timedelta", "datetime.timedelta", "pandas.to_timedelta")
def pd_timedelta(I, st, args, kw, node):
    unit = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "milliseconds": Fraction(1, 1000),
            "microseconds": Fraction(1, 10**6), "weeks": 604800}
    r = P.ZERO
    kws = dict(kw)
    u = kws.pop("unit", None)
    if args:
        a = args[0]
        if isinstance(a, NUM) and not (isinstance(a, Sc) and a.k == "td"):
            uu = u or (args[1] if len(args) > 1 else None)
            if I_cur(I) == "datetime.timedelta":
                r = I.sc(a).p * 86400
                if len(args) > 1:
                    r = r + I.sc(args[1]).p
            else:
                m = {"s": 1, "sec": 1, "second": 1, "seconds": 1, "min": 60, "m": 60, "h": 3600, "H": 3600, "D": 86400, "d": 86400, "days": 86400, "hours": 3600, "ms": Fraction(1, 1000), "ns": Fraction(1, 10**9), None: Fraction(1, 10**9)}.get(uu)
                if m is None:
                    raise Unsupported("timedelta unit")
                r = I.sc(a).p * P.P(Fraction(m))
        else:
            r = td_of_freq(I, st, a)
    for k, v in kws.items():
        if k not in unit or not isinstance(v, NUM):
            raise Unsupported("timedelta argument")
        r = r + I.sc(v).p * P.P(Fraction(unit[k]))
    return Sc(r, k="td")


def time_round(how):
    def f(t, F):
        q = t * P.inv(F)
        if how == "floor":
            return P.fn("floor", q) * F
        if how == "ceil":
            return -P.fn("floor", -q) * F
        return P.fn("floor", q + P.P(Fraction(1, 2))) * F

    return f


@ext("xarray.CFTimeIndex", "xarray.coding.cftimeindex.CFTimeIndex", "pandas.DatetimeIndex")
def cftimeindex(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    if its is not None:
        return I.alloc(st, ListC(tuple(its), "cfindex"))
    return opq("CFTimeIndex", I, st, args[0])


@meth("list", "floor", "ceil", "round")
def cf_round(I, st, s, args, kw, node):
    c = cont(st, s)
    how = _curm[-1]
    f = arg(args, kw, 0, "freq")
    F = td_of_freq(I, st, f)
    fn = time_round(how)
    g = lambda x: Sc(fn(x.p, F), k="time") if isinstance(x, Sc) else x
    tail = None
    if c.tail is not None:
        # rounding whole date ranges to a minute only removes sub-minute noise
        if how == "round" and P.P(60) == F:
            tail = Abs(c.tail.elem, c.tail.key)
        else:
            tail = Abs(g(c.tail.elem), (how, F.ident(), c.tail.key))
    if how == "round" and P.P(60) == F and I.cfg.get("daterange") is not None:
        return s
    return I.alloc(st, ListC(tuple(g(x) for x in c.items), c.kind, tail))


_curm = [""]


@ext("xarray.cftime_range", "xarray.date_range", "pandas.date_range")
def date_range(I, st, args, kw, node):
    start, end = arg(args, kw, 0, "start"), arg(args, kw, 1, "end")
    freq = kw.get("freq", args[3] if len(args) > 3 else None)
    if freq is None and "freq" not in kw and arg(args, kw, 2, "periods") is None:
        freq = "D"
    incl = kw.get("inclusive", "both")
    cal = kw.get("calendar")
    name = I_cur(I)
    I.event("daterange", name, st, [start, end, freq, incl, cal], kw, node)
    if name == "pandas.date_range" and any(isinstance(x, Sc) and x.k == "time" for x in (start, end)):
        I.do_raise(st, Opaque(("exc", "TypeError", "cftime")), node, "pandas.date_range does not accept cftime dates")
        st.alive = False
        raise Dead()
    h = I.cfg.get("daterange")
    its = h(I, st, start, end, freq, incl, cal) if h is not None else None
    if its is not None:
        return I.alloc(st, ListC(tuple(its), "cfindex"))
    key = ("daterange", I.fp(start, st), I.fp(end, st), I.fp(freq, st), incl)
    el = Sc(P.sym("date", key), k="time")
    return I.alloc(st, ListC((), "cfindex", Abs(el, key)))


@ext("typing.get_args", "typing_extensions.get_args")
def get_args(I, st, args, kw, node):
    return args[0].args if isinstance(args[0], TypeForm) else ()


@ext("cftime.datetime.strptime", "datetime.datetime.strptime")
def cf_strptime(I, st, args, kw, node):
    r = L.strptime(I, st, args[0], delit(args[1]))
    I.event("strptime", "strptime", st, [args[0], args[1], arg(args, kw, 2, "calendar")], kw, node)
    return r


@ext("datetime.datetime.utcnow", "datetime.datetime.now", "pandas.Timestamp.now", "pandas.Timestamp.utcnow")
def now(I, st, args, kw, node):
    return Opaque(("now",), "time")


@ext("time.time", "time.perf_counter", "time.monotonic")
def time_time(I, st, args, kw, node):
    return Sc(P.sym("clock", I.line))


@meth("num", "strftime")
def num_strftime(I, st, s, args, kw, node):
    f = delit(arg(args, kw, 0, "format"))
    if isinstance(f, str) and s.k == "time":
        return L.strftime(s.p, f)
    return opq("strftime", I, st, s, f, hint="str")


@meth("num", "isoformat")
def num_iso(I, st, s, args, kw, node):
    sep = args[0] if args else kw.get("sep", "T")
    ts = kw.get("timespec", "auto")
    f = {"auto": "%H:%M:%S", "seconds": "%H:%M:%S", "minutes": "%H:%M"}.get(ts)
    if f is None:
        return opq("isoformat", I, st, s, ts, hint="str")
    return L.strftime(s.p, f"%Y-%m-%d{sep}{f}")


@meth("num", "total_seconds")
def td_seconds(I, st, s, args, kw, node):
    return Sc(s.p, s.d)


@meth("num", "floor", "ceil")
def td_floor(I, st, s, args, kw, node):
    f = arg(args, kw, 0, "freq")
    if not isinstance(s, Sc) or s.k not in ("td", "time") or f is None:
        return opq(_curm[-1], I, st, s, *args, hint="num")
    return Sc(time_round(_curm[-1])(s.p, td_of_freq(I, st, f)), k=s.k)


@meth("num", "toordinal")
def toordinal(I, st, s, args, kw, node):
    fr = kw.get("fractional", args[0] if args else False)
    if fr is True:
        return Opaque(("ordinal", s.p.ident()), "num")
    return Sc(P.fn("ordinal_day", s.p))


@meth("num", "item", "copy", "load", "compute", "astype", "tolist")
def num_item(I, st, s, args, kw, node):
    return s


@meth("num", "replace")
def num_replace(I, st, s, args, kw, node):
    return Sc(P.fn("treplace", I.sc(s).p, *[(k, I.fp(v, st)) for k, v in sorted(kw.items())]), k=I.sc(s).k)


def cf_fromordinal(I, st, args, kw, node):
    x = args[0]
    name = I_cur(I)
    I.event("cfclass", name, st, args, kw, node)
    if isinstance(x, Opaque) and x.key[0] == "ordinal":
        return Sc(P.POLY_BY_ID(x.key[1]), k="time")
    return Sc(P.fn("fromordinal", I.fp(x, st)), k="time")


# ------------------------------------------------------------------ xarray constructors
@ext("xarray.Dataset", "xarray.core.dataset.Dataset")
def xr_dataset(I, st, args, kw, node):
    dv = arg(args, kw, 0, "data_vars")
    cs = arg(args, kw, 1, "coords")
    at = arg(args, kw, 2, "attrs")
    ref = mk_ds(I, st, {}, {}, copy_dict_or_new(I, st, at))
    if cs is not None:
        add_coords(I, st, ref, cs, node)
    c = cont(st, dv)
    if isinstance(c, DictC):
        for k, v in c.d.items():
            g = None
            if isinstance(v, Maybe):
                g, v = v.g, v.v
            if isinstance(k, str):
                L.ds_set(I, st, ref, st.heap[ref.id], k, v, node)
                if g is not None:
                    o = st.heap[ref.id]
                    st.heap[ref.id] = DsC({**o.vars, k: Maybe(g, o.vars[k])}, o.coords, o.attrs, o.rest, o.labels)
        if c.rest is not None:
            o = st.heap[ref.id]
            rest = c.rest
            el = I.memo_consts.get(("absdict", getattr(rest, "key", None)))
            lab = collect_labels(I, st, el)
            st.heap[ref.id] = DsC(o.vars, o.coords, o.attrs, rest, o.labels | lab)
    elif isinstance(c, DsC):
        o = st.heap[ref.id]
        st.heap[ref.id] = DsC(dict(c.vars), {**c.coords, **o.coords}, o.attrs if at is not None else copy_of_attrs(I, st, c.attrs), c.rest)
    elif dv is not None:
        o = st.heap[ref.id]
        st.heap[ref.id] = DsC(o.vars, o.coords, o.attrs, Opaque(("dataset", I.fp(dv, st))))
    return ref


def collect_labels(I, st, el):
    """Labels of buffers reachable from a value."""
    out = set()

    def go(v):
        if isinstance(v, tuple):
            for x in v:
                go(x)
        elif isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, NdC):
                out.update(c.labels)
            elif isinstance(c, DaC):
                out.update(st.heap[c.var].labels)
                go(Ref(st.heap[c.var].nd))

    go(el)
    return frozenset(out)


def copy_dict_or_new(I, st, at):
    if at is None:
        return None
    return L.copy_dict(I, st, at)


def copy_of_attrs(I, st, aid):
    c = st.heap.get(aid)
    return I.alloc(st, DictC(dict(c.d), c.rest)).id


def add_coords(I, st, ref, cs, node):
    if isinstance(cs, CoordsV):
        src = st.heap[cs.owner.id]
        c = st.heap[ref.id]
        if isinstance(c, DsC):
            st.heap[ref.id] = DsC(c.vars, {**c.coords, **src.coords}, c.attrs, c.rest, c.labels)
        else:
            st.heap[ref.id] = DaC(c.var, {**c.coords, **src.coords}, c.name)
        return
    c = cont(st, cs)
    if isinstance(c, DictC):
        for k, v in c.d.items():
            if isinstance(v, Maybe):
                v = v.v
            if isinstance(k, str):
                set_coord2(I, st, ref, k, v, node)


def set_coord2(I, st, ref, k, v, node):
    if isinstance(cont(st, v), ListC):
        try:
            v = mk_nd(I, st, seq_arr(I, st, v))
        except Unsupported:
            v = Opaque(("list", I.fp(v, st)), "array")
    L.set_coord(I, st, ref, k, v, node)


@ext("xarray.DataArray", "xarray.core.dataarray.DataArray")
def xr_dataarray(I, st, args, kw, node):
    data = arg(args, kw, 0, "data")
    cs = arg(args, kw, 1, "coords")
    dims = arg(args, kw, 2, "dims")
    name = arg(args, kw, 3, "name")
    at = kw.get("attrs")
    dl = None
    if dims is not None:
        dl = [dims] if isinstance(dims, str) else I.concrete_items(dims, st)
    coord_map = {}
    shapes = {}
    if isinstance(cs, CoordsV):
        src = st.heap[cs.owner.id]
        coord_map = dict(src.coords)
        if dl is None:
            full = L.ds_dims(I, st, cs.owner)
            dl = [d for d in full if any(d in dims_of_var(st, v) for v in coord_map.values())] if not isinstance(full, Opaque) else None
    elif isinstance(cont(st, cs), DictC):
        d = cont(st, cs).d
        if dl is None:
            dl = [k for k in d if isinstance(k, str)]
        tmp = mk_ds(I, st, {}, {})
        for k, v in d.items():
            if not isinstance(k, str):
                continue
            v = v.v if isinstance(v, Maybe) else v
            if dl is not None and isinstance(v, (Opaque,)) or not isinstance(v, Opaque):
                set_coord2(I, st, tmp, k, v, node)
        coord_map = dict(st.heap[tmp.id].coords)
    elif cs is not None:
        its = I.concrete_items(cs, st)
        if its is not None and dl is not None:
            tmp = mk_ds(I, st, {}, {})
            for k, v in zip(dl, its):
                if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str):
                    k, v = v
                set_coord2(I, st, tmp, k, v, node)
            coord_map = dict(st.heap[tmp.id].coords)
    for k, v in coord_map.items():
        vid = v.v if isinstance(v, Maybe) else v
        a = st.heap[st.heap[vid].nd].arr
        for d, e in zip(a.dims, a.shape):
            shapes[d] = e
    if isinstance(data, NUM):
        if dl is None:
            dl = []
        sh = tuple(shapes.get(d, Dim(d, 0)) for d in dl)
        arr = A.const_array(I.sc(data), tuple(dl), sh)
        nd = mk_nd(I, st, arr)
    elif isinstance(data, Opaque):
        if dl is None:
            return Opaque(("DataArray",) + data.key, "array")
        sh = tuple(shapes.get(d, Dim(d, 0)) for d in dl)
        k = A.vn(data.key)
        nm = "?arr" if has_unknown(data.key) else "arr"
        arr = Arr(dl, sh, lambda ix: Sc(P.sym(nm, k, *[(d,) + x for d, x in zip(dl, ix)])))
        nd = mk_nd(I, st, arr)
    else:
        c = cont(st, data)
        if isinstance(c, DaC):
            if not coord_map:
                coord_map = dict(c.coords)
            if dl is None:
                dl = list(arr_of(I, st, data).dims)
        a = seq_arr(I, st, data) if isinstance(c, ListC) or isinstance(data, tuple) else arr_of(I, st, data)
        if dl is None:
            dl = [f"dim_{n}" for n in range(a.ndim)]
        if len(dl) != a.ndim:
            raise DefiniteError("different number of dimensions on data and dims")
        src = data if isinstance(c, NdC) else (Ref(st.heap[c.var].nd) if isinstance(c, DaC) else None)
        if src is not None and a.dims == tuple(dl):
            nd = src
        else:
            nd = mk_nd(I, st, L.dims_from(a, dl), None, st.heap[src.id].labels if src else frozenset())
        for d, e in zip(dl, a.shape):
            if d in shapes and shapes[d] != e and not (shapes[d].sym is None and e.sym is None and shapes[d].c == e.c):
                raise DefiniteError(f"conflicting sizes for dimension {d}: {e} vs {shapes[d]}")
    return I.alloc(st, DaC(mk_var(I, st, nd.id, copy_dict_or_new(I, st, at)), coord_map, name))


def dims_of_var(st, v):
    v = v.v if isinstance(v, Maybe) else v
    return st.heap[st.heap[v].nd].arr.dims


@ext("pandas.read_csv")
def read_csv(I, st, args, kw, node):
    I.event("open", "pandas.read_csv", st, [args[0] if args else None], kw, node)
    h = I.cfg.get("read_csv")
    r = h(I, st, args[0] if args else None, kw, node) if h else None
    return r if r is not None else opq("pandas.read_csv", I, st, *args, *kw.values())


def open_many(I, st, path, kw, node):
    """Several files in time order, as if opened and joined one by one."""
    its = I.concrete_items(path, st) if not is_str(path) else None
    if its is None and is_str(path) and isinstance(delit(StrT(sparts(path))), str) and "*" in delit(StrT(sparts(path))):
        r = glob_glob(I, st, [path], {}, node)
        its = I.concrete_items(r, st)
    if its is None:
        return None
    if not its:
        I.do_raise(st, Opaque(("exc", "OSError", "no files to open")), node, "OSError")
        st.alive = False
        raise Dead()
    h = I.cfg.get("open_dataset")
    rest = {k: v for k, v in kw.items() if k not in ("combine", "concat_dim", "paths", "parallel", "data_vars", "coords", "compat", "join")}
    ds = []
    for x in its:
        I.event("open", "xarray.open_dataset", st, [x], rest, node)
        r = h(I, st, x, "xarray.open_dataset", rest, node)
        if r is None:
            return None
        ds.append(r)
    dim = kw.get("concat_dim") or "time"
    lst = I.alloc(st, ListC(tuple(ds)))
    return ds[0] if len(ds) == 1 else xr_concat(I, st, [lst], {"dim": dim}, node)


@ext("xarray.open_dataset", "xarray.open_mfdataset", "xarray.open_dataarray", "xarray.load_dataset", "xarray.open_zarr", "xarray.load_dataarray")
def open_dataset(I, st, args, kw, node):
    name = I_cur(I)
    path = args[0] if args else kw.get("filename_or_obj", kw.get("paths"))
    h = I.cfg.get("open_dataset")
    if name.endswith("mfdataset") and h is not None:
        r = open_many(I, st, path, kw, node)
        if r is not None:
            return r
    I.event("open", name, st, [path], kw, node)
    if h is not None:
        r = h(I, st, path, name, kw, node)
        if r is not None:
            return r
    key = ("file", I.fp(path, st))
    if "dataarray" in name:
        return Opaque(("open_dataarray", key), "array")
    return mk_ds(I, st, {}, {}, None, Opaque(key, "ds"))


def concat_known(I, st, its, dim):
    """Data joined along a dimension whose lengths are all known."""
    label = None
    if is_da(st, dim):
        c = cont(st, dim)
        a = arr_of(I, st, dim)
        n = len(its) if its else 0
        if a.ndim == 1 and a.shape[0].sym is None and a.shape[0].c == n:
            label, dim = c.var, a.dims[0]
    cs = [cont(st, x) for x in its] if its and all(isinstance(x, Ref) for x in its) else []
    if len(cs) < 2 or not isinstance(dim, str) or not (all(isinstance(c, DsC) and c.rest is None for c in cs) or all(isinstance(c, DaC) for c in cs)):
        return None
    data = lambda v: st.heap[st.heap[v].nd].arr

    def stack(vs):
        arrs = [data(v) for v in vs]
        if len({(a.dims, tuple(a.shape)) for a in arrs}) != 1:
            raise Unsupported("concat")

        def at(ix):
            if ix[0][0] == "G":
                return Sc(P.fn("stacked", ("k", A.vn(tuple(a.fp() for a in arrs))), *[(d,) + i for d, i in zip((dim,) + arrs[0].dims, ix)]))
            return arrs[ix[0][1] if ix[0][0] == "L" else len(arrs) - 1 - ix[0][1]].at(ix[1:])
        return Arr((dim,) + arrs[0].dims, (A.Ext(None, len(arrs)),) + tuple(arrs[0].shape), at)

    def join(vs):
        if any(isinstance(v, Maybe) for v in vs):
            raise Unsupported("concat")
        arrs = [data(v) for v in vs]
        if len({a.dims for a in arrs}) != 1:
            raise Unsupported("concat")
        if dim not in arrs[0].dims:
            return vs[0] if len({a.fp() for a in arrs}) == 1 else None
        k = arrs[0].dims.index(dim)
        if any(a.shape[k].sym is not None for a in arrs):
            raise Unsupported("concat")
        r = concat(arrs, k)
        return mk_var(I, st, mk_nd(I, st, L.dims_from(r, arrs[0].dims)).id, copy_of_attrs(I, st, st.heap[vs[0]].attrs))
    try:
        coords = {}
        for n in cs[0].coords:
            if all(n in c.coords for c in cs):
                v = join([c.coords[n] for c in cs])
                if v is None:
                    return None
                coords[n] = v
        if isinstance(cs[0], DaC):
            if not any(dim in data(c.var).dims or dim in c.coords for c in cs):
                if label is not None:
                    coords[dim] = label
                return mk_da(I, st, stack([c.var for c in cs]), coords, cs[0].name)
            v = join([c.var for c in cs])
            return None if v is None or dim not in data(v).dims else mk_da(I, st, data(v), coords, cs[0].name)
        if len({frozenset(c.vars) for c in cs}) != 1:
            return None
        vars = {n: join([c.vars[n] for c in cs]) for n in cs[0].vars}
        if None in vars.values() or not any(dim in data(v).dims for v in vars.values()):
            return None
        return mk_ds(I, st, vars, coords, copy_of_attrs(I, st, cs[0].attrs))
    except Unsupported:
        return None


@ext("xarray.concat")
def xr_concat(I, st, args, kw, node):
    its = I.concrete_items(args[0], st)
    if its and len(its) == 1:
        return its[0]
    dim = arg(args, kw, 1, "dim")
    I.event("concat", "xarray.concat", st, args, kw, node)
    h = I.cfg.get("concat")
    if h is not None:
        r = h(I, st, args[0], dim, node)
        if r is not None:
            return r
    r = concat_known(I, st, its, dim)
    if r is not None:
        return r
    c = cont(st, args[0])
    return Opaque(("xarray.concat", I.fp(args[0], st), I.fp(dim, st)), "ds" if c is not None and isinstance(c, ListC) and (is_ds(st, c.tail.elem) if c.tail is not None else any(is_ds(st, x) for x in c.items)) else "array")


# ------------------------------------------------------------------ DataArray / Dataset methods
def da_like(I, st, s, arr, coords=None, attrs=None):
    c = cont(st, s)
    if isinstance(c, NdC):
        return mk_nd(I, st, arr)
    return mk_da(I, st, arr, c.coords if coords is None else coords, c.name, attrs)


def map_ds(I, st, s, f):
    """Apply f to each data variable (as DataArray), returning a new Dataset."""
    c = cont(st, s)
    vars = {}
    coords = dict(c.coords)
    for n, v in c.vars.items():
        r = f(L.da_of_ds(I, st, s, n))
        rc = cont(st, r)
        if isinstance(rc, DaC):
            vid = rc.var
            for k, x in rc.coords.items():
                coords[k] = x
        else:
            vid, _ = L.var_from(I, st, r)
            if vid is None:
                raise Unsupported("dataset map")
        vars[n] = Maybe(v.g, vid) if isinstance(v, Maybe) else vid
    # drop coords whose dims disappeared
    dims = {d for v in vars.values() for d in dims_of_var(st, v)}
    if vars:
        coords = {k: v for k, v in coords.items() if all(d in dims or k == d for d in dims_of_var(st, v))}
    return mk_ds(I, st, vars, coords, copy_of_attrs(I, st, c.attrs), c.rest)


def da_reduce(which):
    def h(I, st, s, args, kw, node):
        dim = arg(args, kw, 0, "dim")
        ax = kw.get("axis")
        skip = kw.get("skipna", True)
        if is_ds(st, s):
            c = cont(st, s)
            if c.rest is not None:
                return opq("red_" + which, I, st, s, dim, hint="ds")
            return map_ds(I, st, s, lambda d: METHODS[("da", which)](I, st, d, args, kw, node))
        c = cont(st, s)
        a = arr_of(I, st, s)
        if ax is not None:
            axes = [norm_axis(ax, a.ndim)]
        elif dim is None or dim is Ellipsis:
            axes = list(range(a.ndim))
        else:
            dl = [dim] if isinstance(dim, str) else (I.concrete_items(dim, st) or [])
            for d in dl:
                if d not in a.dims:
                    raise DefiniteError(f"dimension {d} not found")
            axes = [a.dims.index(d) for d in dl]
        vals = known_values(a, skip is not False) if which in ("sum", "mean", "min", "max") and len(axes) == a.ndim else None
        if vals is not None and which in ("min", "max"):
            r = A.const_array(I.sc(known_reduce(vals, which)), (), ())
        elif vals is not None:
            r = A.const_array(Sc(P.P(sum(vals) if which == "sum" else P.Fraction(sum(vals)) / len(vals))), (), ())
        elif which in ("sum", "mean"):
            skipna = skip is not False
            r = sum_arr(I, a, axes, skipna)
            if which == "mean":
                n = P.ONE
                for k in axes:
                    n = n * a.shape[k].poly()
                r = elementwise(lambda x: A.s_div(x, Sc(n)), [r])
        elif which == "count" and len(axes) == a.ndim and NAN_GIVEN and known_values(elementwise(s_isnan, [a])) is not None:
            v = known_values(elementwise(s_isnan, [a]))
            r = A.const_array(Sc(P.P(len(v) - sum(v))), (), ())
        elif which == "count" and len(axes) == a.ndim:
            u = L.size_of(a)
            r = A.const_array(I.sc(u), (), ())
        elif len(axes) == a.ndim:
            x = reduce_fn(I, st, a, which, s)
            r = A.const_array(I.sc(x), (), ())
        else:
            fpa = a.fp()
            keep = [k for k in range(a.ndim) if k not in axes]
            dims = [a.dims[k] for k in keep]
            r = Arr(dims, [a.shape[k] for k in keep],
                    lambda ix: Sc(P.fn("red_" + which, ("k", A.vn(fpa)), tuple(axes), *[(d,) + i for d, i in zip(dims, ix)])))
        I.event("reduce", which, st, [s], node=node)
        if isinstance(c, NdC):
            return to_plain(r.at(())) if r.ndim == 0 else mk_nd(I, st, r)
        return mk_da(I, st, r, keep_coords(I, st, c.coords, r.dims), c.name)

    return h


for _w in ("sum", "mean", "min", "max", "count", "argmin", "argmax", "std", "median", "prod"):
    METHODS[("da", _w)] = METHODS[("ds", _w)] = da_reduce(_w)


def fold_axis(a, k, which):
    """any/all along an axis of known length."""
    n = a.shape[k].c

    def fn(ix):
        p = P.ONE if which == "all" else P.ZERO
        for j in range(n):
            t = A.truth(a.at(tuple(ix[:k]) + (("L", j),) + tuple(ix[k:])))
            p = p * t if which == "all" else p + t - p * t
        return Sc(p, k="bool")
    return Arr(a.dims[:k] + a.dims[k + 1:], a.shape[:k] + a.shape[k + 1:], fn, "bool")


def reduced(I, st, c, name, dim):
    """Does a coordinate go when these dimensions are reduced (all, when None)?"""
    v = c.coords[name]
    d = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr.dims
    ds = (dim,) if isinstance(dim, str) else dim
    return bool(d) if dim is None else any(x in d for x in ds)


@meth("da nd ds", "all", "any")
def da_allany(I, st, s, args, kw, node):
    which = _curm[-1]
    dim = arg(args, kw, 0, "dim", kw.get("axis"))
    if is_ds(st, s) and not cont(st, s).rest:
        c = cont(st, s)
        vs = {}
        for n, v in c.vars.items():
            r = da_allany(I, st, mk_da(I, st, st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr, {}), args, kw, node)
            a = arr_of(I, st, r) if is_da(st, r) else A.const_array(I.sc(r), (), ()) if isinstance(r, NUM) else None
            if a is None:
                return opq(which, I, st, s, dim)
            x = mk_var(I, st, mk_nd(I, st, a).id)
            vs[n] = Maybe(v.g, x) if isinstance(v, Maybe) else x
        return mk_ds(I, st, vs, {k: v for k, v in c.coords.items() if not reduced(I, st, c, k, dim)})
    if dim is not None:
        a = arr_of(I, st, s) if not is_ds(st, s) else None
        ds = (dim,) if isinstance(dim, (str, int)) else I.concrete_items(dim, st)
        if a is not None and ds is not None:
            if len(ds) > 1 and all(isinstance(d, int) for d in ds):
                ds = sorted((norm_axis(d, a.ndim) for d in ds), reverse=True)
            for d in ds:
                k = a.dims.index(d) if isinstance(d, str) and d in a.dims else d if isinstance(d, int) and is_nd(st, s) else None
                if k is None or a.shape[k].sym is not None or a.shape[k].c > 40:
                    a = None
                    break
                a = fold_axis(a, norm_axis(k, a.ndim), which)
            if a is not None:
                return mk_da(I, st, a, {n: v for n, v in cont(st, s).coords.items() if not reduced(I, st, cont(st, s), n, list(ds))}) \
                    if is_da(st, s) else mk_nd(I, st, a)
        return opq(which, I, st, s, dim, hint="array")
    if is_ds(st, s):
        return opq(which, I, st, s)
    r = allany(which)(I, st, [s], kw, node)
    if is_da(st, s) and isinstance(r, NUM):
        return mk_da(I, st, A.const_array(I.sc(r), (), ()), {})
    return r


@meth("da nd ds", "item", "to_numpy", "tolist", "to_list")
def da_item(I, st, s, args, kw, node):
    m = _curm[-1]
    if m == "to_numpy":
        return as_np(I, st, s)
    a = arr_of(I, st, s)
    if m == "item" and (a.ndim == 0 or all(e.one() for e in a.shape)):
        return to_plain(a.at(tuple(("L", 0) for _ in a.shape)))
    if m == "tolist" and a.ndim == 1 and a.shape[0].sym is None:
        return I.alloc(st, ListC(tuple(to_plain(a.at((("L", k),))) for k in range(a.shape[0].c))))
    if m == "tolist" and a.ndim == 0:
        return to_plain(a.at(()))
    return opq(m, I, st, s)


@meth("da ds", "fillna")
def da_fillna(I, st, s, args, kw, node):
    v = arg(args, kw, 0, "value")
    if isinstance(v, Opaque):
        return opq("fillna", I, st, s, v, hint="array")
    return lift(I, st, s_fillna, [s, v])


@meth("da ds", "isnull", "notnull", "isna", "notna")
def da_isnull(I, st, s, args, kw, node):
    f = s_isnan if _curm[-1] in ("isnull", "isna") else (lambda x: A.s_not(s_isnan(x)))
    a = arr_of(I, st, s) if is_da(st, s) else None
    if a is not None:
        g = a.generic()
        if not NAN_GIVEN and not g.d and any(P.ATOMS[x][0] == "sym" for x in P.all_atoms(g.p)):
            # data read from files may contain missing values
            fpa = A.vn(a.fp())
            r = Arr(a.dims, a.shape, lambda ix: Sc(P.fn("isnull", ("k", fpa), *[(d or "ax",) + i for d, i in zip(a.dims, ix)], boolean=True), k="bool"), "bool")
            return mk_da(I, st, r, cont(st, s).coords)
    return lift(I, st, f, [s], "bool")


@meth("da ds", "where")
def da_where(I, st, s, args, kw, node):
    c = arg(args, kw, 0, "cond")
    o = arg(args, kw, 1, "other", NAN)
    if kw.get("drop") and len(args) < 2 and "other" not in kw and is_da(st, c):
        ca = arr_of(I, st, c)
        ks = known_mask(I, st, c, ca.shape[0].c) if ca.ndim == 1 else None
        if ks and (is_ds(st, s) or ca.dims[0] in arr_of(I, st, s).dims):
            return take_at(I, st, s, ca.dims[0], ks)
    if isinstance(c, Opaque) or isinstance(o, Opaque) or kw.get("drop"):
        return opq("where", I, st, s, c, o, kw.get("drop"), hint="array")
    if isinstance(c, (Fn, Bound, Partial)):
        c = I.call(c, [s], {}, st, node)
    return lift(I, st, lambda x, cc, oo: A.s_where(cc, x, oo), [s, c, o])


@meth("da ds nd", "copy", "load", "compute", "persist", "astype", "round", "chunk", "unify_chunks", "assign_attrs", "view", "drop_encoding", "as_numpy", "pipe", "convert_calendar")
def da_copy(I, st, s, args, kw, node):
    m = _curm[-1]
    c = cont(st, s)
    if m == "pipe":
        return I.call(args[0], [s] + list(args[1:]), kw, st, node)
    if m in ("load", "persist"):
        return s
    if m == "astype":
        I.event("astype", "astype", st, [s] + list(args), kw, node)
    if m == "view":
        return opq("view", I, st, s, hint="array")
    if m == "round":
        n = constify(arg(args, kw, 0, "decimals", 0))
        return lift(I, st, lambda x: rounded(x, n), [s])
    if isinstance(c, NdC):
        if m == "astype" and args and isinstance(args[0], Ext) and args[0].name in ("bool",):
            return mk_nd(I, st, elementwise(lambda x: Sc(A.truth(x), x.d, "bool"), [c.arr]))
        if m == "astype" and is_intlike(args[0] if args else kw.get("dtype")):
            return mk_nd(I, st, elementwise(lambda x: x if x.k == "bool" else Sc(P.fn("trunc", x.p), x.d), [c.arr]))
        return mk_nd(I, st, c.arr)
    if m == "astype" and args and isinstance(args[0], Ext) and args[0].name in ("bool", "numpy.bool_"):
        return lift(I, st, lambda x: Sc(A.truth(x), x.d, "bool"), [s], "bool")
    if m == "astype" and is_intlike(args[0] if args else kw.get("dtype")):
        a = lift(I, st, lambda x: x if x.k == "bool" else Sc(P.fn("trunc", x.p), x.d), [s])
        return a
    deep = m == "astype" or kw.get("deep", args[0] if args and m == "copy" else not (m == "copy" and isinstance(c, DsC))) is not False
    if m in ("assign_attrs", "unify_chunks", "chunk"):
        deep = False
    r = copy_obj(I, st, s, deep)
    if m == "assign_attrs":
        rc = cont(st, r)
        aid = rc.attrs if isinstance(rc, DsC) else st.heap[rc.var].attrs
        d = st.heap[aid]
        nd = dict(d.d)
        for x in args:
            xc = cont(st, x)
            if isinstance(xc, DictC):
                nd.update(xc.d)
        nd.update(kw)
        st.heap[aid] = DictC(nd, d.rest)
    return r


def is_intlike(t):
    if isinstance(t, Ext):
        return t.name.split(".")[-1].startswith(("int", "uint"))
    return isinstance(t, str) and (t.startswith(("int", "uint")) or t in ("i4", "i8"))


def copy_obj(I, st, s, deep=True):
    c = cont(st, s)

    def cv(vid):
        g = None
        if isinstance(vid, Maybe):
            g, vid = vid.g, vid.v
        v = st.heap[vid]
        nd = v.nd
        if deep:
            nd = mk_nd(I, st, st.heap[nd].arr).id
        at = copy_of_attrs(I, st, v.attrs)
        n = I.alloc(st, VarC(nd, at, frozenset())).id
        return Maybe(g, n) if g is not None else n

    if isinstance(c, DaC):
        return I.alloc(st, DaC(cv(c.var), dict(c.coords), c.name))
    if isinstance(c, DsC):
        return I.alloc(st, DsC({k: cv(v) for k, v in c.vars.items()},
                               {k: cv(v) for k, v in c.coords.items()}, copy_of_attrs(I, st, c.attrs), c.rest))
    if isinstance(c, NdC):
        return mk_nd(I, st, c.arr)
    return s


@ext("copy.deepcopy", "copy.copy")
def deepcopy(I, st, args, kw, node):
    deep = I_cur(I).endswith("deepcopy")
    return deep_copy(I, st, args[0], deep)


def deep_copy(I, st, v, deep=True):
    c = cont(st, v)
    if isinstance(c, (DaC, DsC)):
        return copy_obj(I, st, v, deep)
    if isinstance(c, NdC):
        return mk_nd(I, st, c.arr)
    if isinstance(c, ListC):
        return I.alloc(st, ListC(tuple(deep_copy(I, st, x, deep) if deep else x for x in c.items), c.kind, c.tail))
    if isinstance(c, DictC):
        return I.alloc(st, DictC({k: (deep_copy(I, st, x, deep) if deep and not isinstance(x, Maybe) else x) for k, x in c.d.items()}, c.rest))
    if isinstance(c, ObjC):
        return I.alloc(st, ObjC(c.cls, {k: (deep_copy(I, st, x, deep) if deep else x) for k, x in c.f.items()}))
    return v


def da_isel(I, st, s, sel, node, drop=False):
    c = cont(st, s)
    for d, v in list(sel.items()):
        ks = known_list(I, st, v) if not isinstance(v, (slice,)) else None
        if ks is None or is_arr(st, v) and arr_of(I, st, v).ndim == 1 and arr_of(I, st, v).at((("L", 0),)).k == "bool":
            ks = None
            xs = known_coord(I, st, s, d)
            m = known_mask(I, st, v, len(xs)) if xs is not None and getattr(c, "rest", None) is None else None
            if m:
                s = take_at(I, st, s, d, m)
                sel = {k: x for k, x in sel.items() if k != d}
                c = cont(st, s)
                continue
        e = next((e for dd, e in zip(arr_of(I, st, s).dims, arr_of(I, st, s).shape) if dd == d), None) if is_da(st, s) else \
            next((st.heap[st.heap[x.v if isinstance(x, Maybe) else x].nd].arr.shape[st.heap[st.heap[x.v if isinstance(x, Maybe) else x].nd].arr.dims.index(d)]
                  for x in list(c.vars.values()) + list(c.coords.values()) if d in dims_of_var(st, x)), None)
        if ks is not None and e is not None and e.sym is None and all(k.denominator == 1 for k in ks) and getattr(c, "rest", None) is None:
            if any(not -e.c <= k < e.c for k in ks):
                raise DefiniteError("index out of range")
            s = take_at(I, st, s, d, [int(k) % e.c for k in ks])
            sel = {k: x for k, x in sel.items() if k != d}
            c = cont(st, s)
    if not sel:
        return s
    if is_ds(st, s):
        c = cont(st, s)
        if c.rest is not None:
            return opq("isel", I, st, s, *[(k, I.fp(v, st)) for k, v in sel.items()], hint="ds")
        return map_ds(I, st, s, lambda d: da_isel(I, st, d, {k: v for k, v in sel.items() if k in arr_of(I, st, d).dims}, node))
    a = arr_of(I, st, s)
    c = cont(st, s)
    keys = []
    for d in a.dims:
        k = constify(sel[d]) if d in sel else slice(None)
        if isinstance(k, slice):
            k = slice(constify(k.start), constify(k.stop), constify(k.step))
        if not isinstance(k, (int, slice)):
            return opq("isel", I, st, s, *[(kk, I.fp(v, st)) for kk, v in sel.items()], hint="array")
        keys.append(k)
    for d in sel:
        if d not in a.dims:
            raise DefiniteError(f"Dimensions {d} do not exist")
    try:
        r = A.getitem(a, tuple(keys))
    except Unsupported:
        return opq("isel", I, st, s, *[(kk, I.fp(v, st)) for kk, v in sel.items()], hint="array")
    coords = L.slice_coords(I, st, c.coords, dict(zip(a.dims, keys)))
    return mk_da(I, st, r, {k: v for k, v in coords.items()}, c.name)


L.da_isel = da_isel


@meth("da ds", "isel")
def m_isel(I, st, s, args, kw, node):
    sel = sel_args(I, st, args, kw)
    return da_isel(I, st, s, sel, node)


def sel_args(I, st, args, kw):
    sel = {k: v for k, v in kw.items() if k not in ("drop", "method", "missing_dims", "tolerance")}
    if args:
        c = cont(st, args[0])
        if isinstance(c, DictC):
            sel.update({k: (v.v if isinstance(v, Maybe) else v) for k, v in c.d.items()})
    return sel


@meth("da ds", "sel")
def m_sel(I, st, s, args, kw, node):
    sel = sel_args(I, st, args, kw)
    c = cont(st, s)
    I.event("sel", "sel", st, [s], {**sel, **({"method": kw["method"]} if "method" in kw else {})}, node)
    h = I.cfg.get("sel")
    if h is not None:
        r = h(I, st, s, sel, kw, node)
        if r is not None:
            return r
    r = sel_known(I, st, s, sel, kw)
    if r is not None:
        return r
    fps = tuple(sorted((k, I.fp(v, st)) for k, v in sel.items()))
    key = ("sel", fps, ("method", kw.get("method")))
    if isinstance(c, DsC) and c.rest is not None:
        return mk_ds(I, st, {}, {}, copy_of_attrs(I, st, c.attrs), Opaque(("rest", c.rest.key, key), "ds"))
    if isinstance(c, DsC):
        return map_ds(I, st, s, lambda d: sel_da(I, st, d, sel, key))
    return sel_da(I, st, s, sel, key)


def sel_da(I, st, s, sel, key):
    c = cont(st, s)
    a = arr_of(I, st, s)
    dims, shape = [], []
    hit = False
    for d, e in zip(a.dims, a.shape):
        if d in sel:
            hit = True
            v = sel[d]
            if isinstance(v, slice) or is_arr(st, v) or isinstance(cont(st, v), ListC) or isinstance(v, Opaque):
                dims.append(d)
                shape.append(Dim(f"{d}~{A.vn((key, e))}", 0))
        else:
            dims.append(d)
            shape.append(e)
    if not hit:
        return s
    fpa = A.vn(a.fp())
    kk = A.vn(key)
    r = Arr(dims, shape, lambda ix: Sc(P.fn("sel", ("k", fpa), ("s", kk), *[(d,) + i for d, i in zip(dims, ix)])))
    coords = {}
    for n, v in c.coords.items():
        vid = v.v if isinstance(v, Maybe) else v
        va = st.heap[st.heap[vid].nd].arr
        if not any(d in sel for d in va.dims):
            coords[n] = v
            continue
        if all(d in dims for d in va.dims):
            fpv = A.vn(va.fp())
            cshape = [shape[dims.index(d)] for d in va.dims]
            ca = Arr(va.dims, cshape, lambda ix, f=fpv: Sc(P.fn("sel", ("k", f), ("s", kk), *[(d,) + i for d, i in zip(va.dims, ix)])))
            coords[n] = mk_var(I, st, mk_nd(I, st, ca).id)
    return mk_da(I, st, r, coords, c.name)


def absent(I, st, node, names):
    """Names a dataset does not have make the call fail."""
    if names:
        I.do_raise(st, Opaque(("exc", "ValueError", names[0])), node, f"no variable {names[0]}")
        st.alive = False
        raise Dead()


@meth("da ds", "drop", "drop_vars", "drop_dims", "drop_isel", "drop_sel", "drop_indexes", "drop_duplicates")
def m_drop(I, st, s, args, kw, node):
    m = _curm[-1]
    c = cont(st, s)
    x = args[0] if args else kw.get("names", kw.get("drop_dims", kw.get("dim")))
    names = [x] if isinstance(x, str) else None
    if names is None and isinstance(x, VarsV):
        o = st.heap[x.owner.id]
        names = list(o.vars) if o.rest is None else None
    if names is None and x is not None and not isinstance(x, str):
        names = I.concrete_items(x, st)
        if names is not None:
            names = [n.v if isinstance(n, Maybe) else n for n in names]
    if isinstance(c, DsC) and c.rest is not None and not c.vars:
        return mk_ds(I, st, {}, {}, copy_of_attrs(I, st, c.attrs), c.rest)
    if m == "drop_duplicates" and isinstance(x, str) and const_order(coord_arr(I, st, s, None, x)) is not None:
        a = coord_arr(I, st, s, None, x)
        vals = [a.at((("L", k),)).p.const() for k in range(a.shape[0].c)]
        keep = arg(args, kw, 1, "keep", "first")
        if len(set(vals)) == len(vals):
            return take_at(I, st, s, x, list(range(len(vals))))
        if keep in ("first", "last"):
            at = [vals.index(v) if keep == "first" else len(vals) - 1 - vals[::-1].index(v) for v in dict.fromkeys(vals)]
            return take_at(I, st, s, x, sorted(at))
    if names is None or m in ("drop_isel", "drop_sel", "drop_indexes", "drop_duplicates"):
        return opq(m, I, st, s, x, hint="ds" if isinstance(c, DsC) else "array")
    if isinstance(c, DsC) and c.rest is None and kw.get("errors", "raise") == "raise" and all(isinstance(n, str) for n in names):
        have = ({d for v in c.vars.values() for d in dims_of_var(st, v)} if m == "drop_dims" else set(c.vars) | set(c.coords))
        absent(I, st, node, [n for n in names if n not in have])
    if isinstance(c, DaC):
        return I.alloc(st, DaC(c.var, {k: v for k, v in c.coords.items() if k not in names}, c.name))
    if m == "drop_dims":
        return mk_ds(I, st, {k: v for k, v in c.vars.items() if not any(d in names for d in dims_of_var(st, v))},
                     {k: v for k, v in c.coords.items() if not any(d in names for d in dims_of_var(st, v))},
                     copy_of_attrs(I, st, c.attrs), c.rest)
    return mk_ds(I, st, {k: v for k, v in c.vars.items() if k not in names},
                 {k: v for k, v in c.coords.items() if k not in names}, copy_of_attrs(I, st, c.attrs), c.rest)


@meth("da ds", "squeeze")
def m_squeeze(I, st, s, args, kw, node):
    if is_ds(st, s):
        c = cont(st, s)
        if c.rest is not None:
            return mk_ds(I, st, c.vars, c.coords, c.attrs, c.rest)
        return map_ds(I, st, s, lambda d: m_squeeze(I, st, d, args, kw, node))
    a = arr_of(I, st, s)
    sel = {d: 0 for d, e in zip(a.dims, a.shape) if e.one()}
    dim = arg(args, kw, 0, "dim")
    if isinstance(dim, str):
        sel = {dim: 0}
    return da_isel(I, st, s, sel, node) if sel else s


METHODS[("nd", "squeeze")] = lambda I, st, s, args, kw, node: np_squeeze(I, st, [s], kw, node)


@meth("da ds", "expand_dims")
def m_expand(I, st, s, args, kw, node):
    dim = arg(args, kw, 0, "dim")
    if is_ds(st, s):
        c = cont(st, s)
        r = map_ds(I, st, s, lambda d: m_expand(I, st, d, [dim], {}, node))
        rc = cont(st, r)
        coords = dict(rc.coords)
        for k, v in c.coords.items():
            coords.setdefault(k, v)
            if k == dim and st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr.ndim == 0:
                coords[k] = exp_coord(I, st, v, dim)
        st.heap[r.id] = DsC(rc.vars, coords, rc.attrs, rc.rest)
        return r
    its = [dim] if isinstance(dim, str) else I.concrete_items(dim, st)
    if its is None or len(its) != 1:
        return opq("expand_dims", I, st, s, dim, hint="array")
    dim = its[0]
    a = arr_of(I, st, s)
    c = cont(st, s)
    r = Arr((dim,) + a.dims, (Dim(None, 1),) + a.shape, lambda ix: a.at(ix[1:]), a.kind, {n + 1 for n in a.nonuni})
    coords = dict(c.coords)
    if dim in coords:
        coords[dim] = exp_coord(I, st, coords[dim], dim)
    return mk_da(I, st, r, coords, c.name)


def exp_coord(I, st, v, dim):
    vid = v.v if isinstance(v, Maybe) else v
    ca = st.heap[st.heap[vid].nd].arr
    if ca.ndim:
        return v
    return mk_var(I, st, mk_nd(I, st, Arr((dim,), (Dim(None, 1),), lambda ix: ca.at(()), ca.kind)).id)


@meth("da ds", "assign_coords")
def m_assign_coords(I, st, s, args, kw, node):
    r = copy_obj(I, st, s, False)
    c = cont(st, s)
    # shallow: keep the very same variables
    if isinstance(c, DsC):
        st.heap[r.id] = DsC(dict(c.vars), dict(c.coords), copy_of_attrs(I, st, c.attrs), c.rest)
    sel = sel_args(I, st, args, kw)
    for k, v in sel.items():
        if isinstance(cont(st, v), NdC) and cont(st, v).arr.ndim == 1:
            a = cont(st, v).arr
            v = (k, v)
        set_coord2(I, st, r, k, v, node)
    return r


@meth("ds", "assign")
def m_assign(I, st, s, args, kw, node):
    c = cont(st, s)
    r = I.alloc(st, DsC(dict(c.vars), dict(c.coords), copy_of_attrs(I, st, c.attrs), c.rest))
    for k, v in sel_args(I, st, args, kw).items():
        if isinstance(v, (Fn, Partial)):
            v = I.call(v, [r], {}, st, node)
        L.ds_set(I, st, r, cont(st, r), k, v, node)
    return r


@meth("ds", "update")
def m_update(I, st, s, args, kw, node):
    o = cont(st, args[0])
    if isinstance(o, DictC):
        for k, v in o.d.items():
            L.ds_set(I, st, s, cont(st, s), k, v.v if isinstance(v, Maybe) else v, node)
    elif isinstance(o, DsC):
        for k in o.vars:
            L.ds_set(I, st, s, cont(st, s), k, L.da_of_ds(I, st, args[0], k), node)
    return s


@meth("ds", "merge")
def m_merge(I, st, s, args, kw, node):
    c = cont(st, s)
    r = I.alloc(st, DsC(dict(c.vars), dict(c.coords), copy_of_attrs(I, st, c.attrs), c.rest))
    m_update(I, st, r, args, kw, node)
    return r


@meth("da ds", "rename", "rename_vars", "rename_dims")
def m_rename(I, st, s, args, kw, node):
    c = cont(st, s)
    mp = {}
    if args:
        d = cont(st, args[0])
        if isinstance(d, DictC):
            mp = {k: (v.v if isinstance(v, Maybe) else v) for k, v in d.d.items()}
        elif isinstance(args[0], str) or args[0] is None:
            return I.alloc(st, DaC(c.var, c.coords, args[0])) if isinstance(c, DaC) else s
        else:
            return opq("rename", I, st, s, args[0], hint="array")
    mp.update(kw)
    if not all(isinstance(k, str) and isinstance(v, str) for k, v in mp.items()):
        return opq("rename", I, st, s, *args, hint="array")
    m = _curm[-1]
    if isinstance(c, DsC) and c.rest is None:
        have = set() if m == "rename_dims" else set(c.vars) | set(c.coords)
        if m != "rename_vars":
            have |= {d for v in (*c.vars.values(), *c.coords.values()) for d in dims_of_var(st, v)}
        absent(I, st, node, [k for k in mp if k not in have])
    elif isinstance(c, DaC):
        absent(I, st, node, [k for k in mp if k not in c.coords and k not in arr_of(I, st, s).dims])

    def rv(v, inner=True):
        g = None
        if isinstance(v, Maybe):
            g, v = v.g, v.v
        var = st.heap[v]
        a = st.heap[var.nd].arr
        if m != "rename_vars" and any(d in mp for d in a.dims):
            nd = mk_nd(I, st, L.dims_from(a, [mp.get(d, d) for d in a.dims]), None, st.heap[var.nd].labels)
            v = I.alloc(st, VarC(nd.id, var.attrs, var.labels)).id
        return Maybe(g, v) if g is not None else v

    if isinstance(c, DaC):
        return I.alloc(st, DaC(rv(c.var), {mp.get(k, k): rv(v) for k, v in c.coords.items()}, c.name))
    names = mp if m != "rename_dims" else {}
    return mk_ds(I, st, {names.get(k, k): rv(v) for k, v in c.vars.items()},
                 {names.get(k, k): rv(v) for k, v in c.coords.items()}, copy_of_attrs(I, st, c.attrs), c.rest)


@meth("da ds", "transpose")
def m_transpose(I, st, s, args, kw, node):
    if is_ds(st, s):
        return s
    a = arr_of(I, st, s)
    order = [d for d in args if d is not Ellipsis]
    if Ellipsis in args:
        i = list(args).index(Ellipsis)
        rest = [d for d in a.dims if d not in order]
        order = list(args[:i]) + rest + list(args[i + 1:])
    if not order:
        order = list(a.dims)[::-1]
    if not all(isinstance(d, str) for d in order) or sorted(order) != sorted(a.dims):
        return opq("transpose", I, st, s, *args, hint="array")
    return mk_da(I, st, A.transpose(a, [a.dims.index(d) for d in order]), cont(st, s).coords, cont(st, s).name)


@meth("da ds", "diff")
def m_diff(I, st, s, args, kw, node):
    dim = arg(args, kw, 0, "dim")
    label = arg(args, kw, 2, "label", "upper")
    n = constify(arg(args, kw, 1, "n", 1))
    if is_ds(st, s):
        return map_ds(I, st, s, lambda d: m_diff(I, st, d, args, kw, node))
    a = arr_of(I, st, s)
    if dim not in a.dims or n != 1:
        raise DefiniteError("diff dim") if n == 1 else Unsupported("diff n")
    ax = a.dims.index(dim)
    c = cont(st, s)
    r = A.diff(a, ax)
    coords = L.slice_coords(I, st, c.coords, {dim: slice(1, None) if label == "upper" else slice(None, -1)})
    return mk_da(I, st, r, coords, c.name)


@meth("da", "broadcast_like")
def m_blike(I, st, s, args, kw, node):
    o = args[0]
    if isinstance(o, Opaque):
        return opq("broadcast_like", I, st, s, o, hint="array")
    if is_ds(st, o):
        raise Unsupported("broadcast_like ds")
    oa, a = arr_of(I, st, o), arr_of(I, st, s)
    # xarray keeps the order of the "other" dims first? (dims of self first)
    r = elementwise(lambda x, y: x, [a, oa], labelled=True)
    coords = {**cont(st, s).coords}
    for k, v in cont(st, o).coords.items():
        coords.setdefault(k, v)
    # broadcasting uses the dimension order in which they first appear in (other, self)
    order = list(oa.dims) + [d for d in a.dims if d not in oa.dims]
    if list(r.dims) != order:
        r = A.transpose(r, [r.dims.index(d) for d in order])
    return mk_da(I, st, r, coords, cont(st, s).name)


@meth("da", "get_axis_num")
def m_axnum(I, st, s, args, kw, node):
    a = arr_of(I, st, s)
    if args[0] not in a.dims:
        raise DefiniteError("dimension not found")
    return a.dims.index(args[0])


def interp_known(I, st, s, sel, method):
    """Interpolation between coordinates of known values, to known values: missing outside."""
    todo = []
    for d, t in sel.items():
        xs, ts = known_coord(I, st, s, d), known_list(I, st, t)
        if xs is None or ts is None or len(xs) < 2 or len(set(xs)) < len(xs):
            return None
        todo.append((d, xs, ts, t))
    for d, xs, ts, t in todo:
        lab = mk_var(I, st, mk_nd(I, st, L.dims_from(arr_of(I, st, t) if is_arr(st, t) else seq_arr(I, st, t), (d,))).id)
        lo, hi = min(xs), max(xs)
        near = [None if not lo <= x <= hi else min(range(len(xs)), key=lambda k: (abs(xs[k] - x), xs[k])) for x in ts]
        if method == "nearest" or all(k is None or xs[k] == x for k, x in zip(near, ts)):
            s = take_at(I, st, s, d, near, lab)
            continue
        order = sorted(range(len(xs)), key=lambda k: xs[k])
        lows, highs, ws = [], [], []
        for x in ts:
            if not lo <= x <= hi:
                lows.append(None), highs.append(None), ws.append(0)
                continue
            n = max(k for k in range(len(order)) if xs[order[k]] <= x)
            n = min(n, len(order) - 2)
            a, b = order[n], order[n + 1]
            lows.append(a), highs.append(b), ws.append((x - xs[a]) / (xs[b] - xs[a]))
        p, q = take_at(I, st, s, d, lows, lab), take_at(I, st, s, d, highs, lab)
        pa, qa = arr_of(I, st, p), arr_of(I, st, q)
        ax = pa.dims.index(d)

        def at(ix, pa=pa, qa=qa, ax=ax, ws=ws):
            b, k = ix[ax]
            if b not in ("L", "H"):
                return A.select(ix[ax], [at(tuple(ix[:ax]) + (("L", n),) + tuple(ix[ax + 1:])) for n in range(len(ws))])
            w = ws[k if b == "L" else len(ws) - 1 - k]
            return A.s_add(A.s_mul(pa.at(ix), Sc(P.P(1 - w))), A.s_mul(qa.at(ix), Sc(P.P(w))))
        s = mk_da(I, st, Arr(pa.dims, pa.shape, A.memo_at(at), pa.kind), cont(st, p).coords, cont(st, s).name)
    return s


@meth("da ds", "interp")
def m_interp(I, st, s, args, kw, node):
    meth_ = kw.get("method", "linear")
    sel = {k: v for k, v in kw.items() if k not in ("method", "kwargs", "assume_sorted")}
    if args:
        d = cont(st, args[0])
        if isinstance(d, DictC):
            sel.update(d.d)
    if is_ds(st, s):
        return map_ds(I, st, s, lambda d: m_interp(I, st, d, args, kw, node))
    a = arr_of(I, st, s)
    c = cont(st, s)
    if len(sel) == 1 and meth_ == "linear":
        (dim, tgt), = sel.items()
        if dim in a.dims and is_arr(st, tgt):
            ta = arr_of(I, st, tgt)
            ax = a.dims.index(dim)
            co = c.coords.get(dim)
            if co is not None:
                cv = co.v if isinstance(co, Maybe) else co
                xa = st.heap[st.heap[cv].nd].arr
                # midpoints of a unit-stencil coordinate: target[k] = (x[k] + x[k+1]) / 2
                if ta.shape[0] == a.shape[ax].plus(-1) and all(
                    ta.at((ix,)).p == (xa.at((ix,)).p + xa.at((A.shift(ix, 1),)).p) * P.P(Fraction(1, 2))
                    for ix in A.axis_classes(ta.shape[0], brief=True)
                ):
                    sh = list(a.shape)
                    sh[ax] = a.shape[ax].plus(-1)

                    def fn(idx):
                        lo = a.at(idx)
                        hi = a.at(idx[:ax] + (A.shift(idx[ax], 1),) + idx[ax + 1:])
                        return A.s_mul(A.s_add(lo, hi), Sc(P.P(Fraction(1, 2))))

                    r = Arr(a.dims, sh, fn, a.kind, a.nonuni)
                    coords = {k: v for k, v in c.coords.items() if k != dim}
                    coords[dim] = mk_var(I, st, mk_nd(I, st, L.dims_from(ta, (dim,))).id)
                    return mk_da(I, st, r, coords, c.name)
    if meth_ in ("nearest", "linear"):
        r = interp_known(I, st, s, sel, meth_)
        if r is not None:
            return r
    fpa = A.vn((a.fp(), tuple((k, I.fp(v, st)) for k, v in sorted(sel.items())), meth_))
    I.event("interp", "interp", st, [s], {**sel, "method": meth_}, node)
    sh = []
    for d, e in zip(a.dims, a.shape):
        if d in sel and is_arr(st, sel[d]):
            sh.append(arr_of(I, st, sel[d]).shape[0])
        elif d in sel:
            sh.append(Dim(d, 0))
        else:
            sh.append(e)
    r = Arr(a.dims, sh, lambda ix: Sc(P.fn("interp", ("k", fpa), *[(d,) + i for d, i in zip(a.dims, ix)])))
    return mk_da(I, st, r, {k: v for k, v in c.coords.items() if k not in sel}, c.name)


@meth("da ds", "roll", "shift")
def m_roll(I, st, s, args, kw, node):
    sel = {k: v for k, v in kw.items() if k not in ("roll_coords", "fill_value")}
    if args and isinstance(cont(st, args[0]), DictC):
        sel.update(cont(st, args[0]).d)
    m = _curm[-1]
    rc = kw.get("roll_coords", False)
    fps = tuple(sorted((k, I.fp(v, st)) for k, v in sel.items()))
    if m == "roll" and len(sel) == 1 and isinstance(constify(next(iter(sel.values()))), int):
        (d, n), = sel.items()
        n = constify(n)

        def one(x):
            a = arr_of(I, st, x)
            if d not in a.dims:
                return x
            return mk_da(I, st, roll(a, n, a.dims.index(d)), cont(st, x).coords if not rc else roll_coords(x), cont(st, x).name)

        def roll_coords(x):
            out = {}
            for k, v in cont(st, x).coords.items():
                vid = v.v if isinstance(v, Maybe) else v
                ca = st.heap[st.heap[vid].nd].arr
                out[k] = mk_var(I, st, mk_nd(I, st, roll(ca, n, ca.dims.index(d))).id) if d in ca.dims else v
            return out

        return map_ds(I, st, s, one) if is_ds(st, s) else one(s)
    # symbolic roll: every array along the dimension becomes "rolled"
    key = A.vn((m, fps))

    def rolled(a):
        f = A.vn(a.fp())
        return Arr(a.dims, a.shape, lambda ix: Sc(P.fn("rolled", ("k", f), ("n", key), *[(dd or "ax",) + i for dd, i in zip(a.dims, ix)])), a.kind)

    def one(x):
        a = arr_of(I, st, x)
        hit = any(d in a.dims for d in sel)
        coords = {}
        for k, v in cont(st, x).coords.items():
            vid = v.v if isinstance(v, Maybe) else v
            ca = st.heap[st.heap[vid].nd].arr
            if rc and any(d in ca.dims for d in sel):
                coords[k] = mk_var(I, st, mk_nd(I, st, rolled(ca)).id)
            else:
                coords[k] = v
        return mk_da(I, st, rolled(a) if hit else a, coords, cont(st, x).name)

    I.event("roll", m, st, [s], {**sel, "roll_coords": rc}, node)
    return map_ds(I, st, s, one) if is_ds(st, s) else one(s)


@meth("da ds", "sortby")
def m_sortby(I, st, s, args, kw, node):
    by = arg(args, kw, 0, "variables")
    asc = kw.get("ascending", args[1] if len(args) > 1 else True)
    I.event("sortby", "sortby", st, [s, by, asc], kw, node)
    name = by if isinstance(by, str) else (cont(st, by).name if is_da(st, by) else None)
    if name is None:
        return opq("sortby", I, st, s, by, asc, hint="ds" if is_ds(st, s) else "array")
    perm = const_order(coord_arr(I, st, s, by, name), asc)
    if perm is not None:
        return take_at(I, st, s, name, perm)
    key = A.vn(("sortby", I.fp(by, st) if not isinstance(by, str) else coord_fp(I, st, s, by), bool(asc)))

    def srt(a):
        f = A.vn(a.fp())
        same = P.fn("issorted", ("n", key), boolean=True)

        def at(ix):
            x = a.at(ix)
            y = P.fn("sorted", ("k", f), ("n", key), *[(dd or "ax",) + i for dd, i in zip(a.dims, ix)])
            return Sc(P.where(same, x.p, y), x.d, x.k)
        return Arr(a.dims, a.shape, A.memo_at(at), a.kind)

    def one(x):
        a = arr_of(I, st, x)
        coords = {}
        for k, v in cont(st, x).coords.items():
            vid = v.v if isinstance(v, Maybe) else v
            ca = st.heap[st.heap[vid].nd].arr
            coords[k] = mk_var(I, st, mk_nd(I, st, srt(ca)).id) if name in ca.dims else v
        return mk_da(I, st, srt(a) if name in a.dims else a, coords, cont(st, x).name)

    return map_ds(I, st, s, one) if is_ds(st, s) else one(s)


def take_arr(a, ax, pos):
    """Elements at the given positions along an axis (one position: the axis goes;
    None: a missing value)."""
    if isinstance(pos, int):
        return Arr(a.dims[:ax] + a.dims[ax + 1:], a.shape[:ax] + a.shape[ax + 1:],
                   lambda ix: a.at(tuple(ix[:ax]) + (("L", pos),) + tuple(ix[ax:])), a.kind)

    def at(ix):
        b, k = ix[ax]
        one = lambda n: NAN if n is None else a.at(tuple(ix[:ax]) + (("L", n),) + tuple(ix[ax + 1:]))
        if b == "L":
            return one(pos[k])
        if b == "H":
            return one(pos[len(pos) - 1 - k])
        return A.select(ix[ax], [one(n) for n in pos])
    sh = list(a.shape)
    if sh[ax].sym is not None or sh[ax].c != len(pos):
        sh[ax] = Dim(None, len(pos))
    return Arr(a.dims, tuple(sh), A.memo_at(at), a.kind)


def take_at(I, st, s, dim, pos, labels=None):
    """The data (with coordinates) at positions along a dimension."""
    def cut(v):
        ca = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr
        return mk_var(I, st, mk_nd(I, st, take_arr(ca, ca.dims.index(dim), pos)).id) if dim in ca.dims else v

    def one(x):
        a = arr_of(I, st, x)
        coords = {k: labels if labels is not None and k == dim else cut(v) for k, v in cont(st, x).coords.items()}
        return mk_da(I, st, take_arr(a, a.dims.index(dim), pos) if dim in a.dims else a, coords, cont(st, x).name)
    if is_ds(st, s):
        c = cont(st, s)
        if not c.vars:
            return mk_ds(I, st, {}, {k: cut(v) for k, v in c.coords.items()}, copy_of_attrs(I, st, c.attrs), c.rest)
        r = map_ds(I, st, s, one)
        if isinstance(pos, int):
            rc = cont(st, r)
            st.heap[r.id] = DsC(rc.vars, {**rc.coords, **{k: cut(v) for k, v in c.coords.items() if k not in rc.coords or k == dim}}, rc.attrs, rc.rest, rc.labels)
        return r
    return one(s)


def known_coord(I, st, s, dim):
    """The numbers of a coordinate, if all are known."""
    v = cont(st, s).coords.get(dim)
    if v is None:
        return None
    a = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr
    return known_values(a) if a.ndim == 1 and a.dims == (dim,) else None


def known_list(I, st, v):
    """A list or array of known numbers."""
    if is_arr(st, v):
        a = arr_of(I, st, v)
        return known_values(a) if a.ndim == 1 else None
    if isinstance(v, Ref) or isinstance(v, tuple):
        its = I.concrete_items(v, st)
        xs = [constify(x) if isinstance(x, NUM) else None for x in its] if its is not None else None
        return None if xs is None or any(x is None or isinstance(x, slice) for x in xs) else [Fraction(x) for x in xs]
    return None


def const_num(I, v):
    if isinstance(v, NUM) and not isinstance(v, bool):
        p = I.sc(v).p
        return p.const() if p.is_const() else None
    return None


def known_mask(I, st, v, n):
    """Positions at which a mask of n known values is true."""
    if not is_arr(st, v):
        return None
    a = arr_of(I, st, v)
    if a.ndim != 1 or a.shape[0].sym is not None or a.shape[0].c != n or not n or a.at((("L", 0),)).k != "bool":
        return None
    vals = known_values(a)
    return None if vals is None else [k for k, x in enumerate(vals) if x]


def label_positions(I, st, xs, v, method):
    """Positions selected by a label, a list or a slice of labels; None: not known."""
    inc = all(a < b for a, b in zip(xs, xs[1:]))
    dec = all(a > b for a, b in zip(xs, xs[1:]))

    def find(x):
        if method == "nearest":
            return min(range(len(xs)), key=lambda k: (abs(xs[k] - x), -xs[k] if inc else k))
        return xs.index(x) if method is None and x in xs else None
    if isinstance(v, slice):
        lo, hi = (None if z is None else const_num(I, z) for z in (v.start, v.stop))
        if v.step is not None or (v.start is not None and lo is None) or (v.stop is not None and hi is None) or not (inc or dec):
            return None
        if dec:
            return [k for k, x in enumerate(xs) if (lo is None or x <= lo) and (hi is None or x >= hi)]
        return [k for k, x in enumerate(xs) if (lo is None or x >= lo) and (hi is None or x <= hi)]
    n = const_num(I, v)
    if n is None and is_arr(st, v) and arr_of(I, st, v).ndim == 0:
        n = const_num(I, to_plain(arr_of(I, st, v).at(())))
    if n is not None:
        return find(n)
    ks = known_list(I, st, v)
    m = known_mask(I, st, v, len(xs))
    if m is not None:
        return m
    if ks is None or is_arr(st, v) and arr_of(I, st, v).at((("L", 0),)).k == "bool":
        return None
    ps = [find(k) for k in ks]
    return None if None in ps else ps


def sel_known(I, st, s, sel, kw):
    """Selection by label on coordinates of known values."""
    todo = []
    for d, v in sel.items():
        xs = known_coord(I, st, s, d)
        pos = label_positions(I, st, xs, v, kw.get("method")) if xs is not None else None
        if pos is None or pos == []:
            return None
        todo.append((d, pos))
    if not todo or cont(st, s).__class__ is DsC and cont(st, s).rest is not None:
        return None
    for d, pos in todo:
        s = take_at(I, st, s, d, pos)
    return s


@meth("da ds", "stack")
def m_stack(I, st, s, args, kw, node):
    """Of coordinates of known values: their combinations in order."""
    sel = sel_args(I, st, args, kw)
    if len(sel) == 1:
        (new, dims), = sel.items()
        ds = I.concrete_items(dims, st)
        xs = [known_coord(I, st, s, d) for d in ds] if ds else [None]
        if all(x is not None for x in xs):
            import itertools
            out = []
            for c in itertools.product(*xs):
                out.append(I.alloc(st, DictC({d: mk_da(I, st, A.const_array(Sc(P.P(x)), (), ()), {}, d) for d, x in zip(ds, c)})))
            return I.alloc(st, DictC({new: I.alloc(st, ListC(tuple(out), "list"))}, Opaque(("stacked", I.fp(s, st)))))
    return opq("stack", I, st, s, *[(k, I.fp(v, st)) for k, v in sel.items()], hint="ds" if is_ds(st, s) else "array")


def coord_arr(I, st, s, by, name):
    """Array of the coordinate sorted by."""
    if is_da(st, by):
        return arr_of(I, st, by)
    v = cont(st, s).coords.get(name)
    return None if v is None else st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr


def const_order(a, asc=True):
    """The permutation that sorts a one-dimensional array of known values."""
    if a is None or a.ndim != 1 or a.shape[0].sym is not None or not isinstance(asc, bool):
        return None
    xs = [a.at((("L", k),)).p for k in range(a.shape[0].c)]
    if not all(x.is_const() for x in xs):
        return None
    vals = [x.const() for x in xs]
    r = sorted(range(len(vals)), key=lambda k: vals[k])
    return r if asc else r[::-1]


def coord_fp(I, st, s, name):
    c = cont(st, s)
    v = c.coords.get(name)
    if v is None:
        return name
    vid = v.v if isinstance(v, Maybe) else v
    return st.heap[st.heap[vid].nd].arr.fp()


@meth("ds da", "to_netcdf", "to_zarr")
def m_to_netcdf(I, st, s, args, kw, node):
    I.event("to_netcdf", _curm[-1], st, [s, arg(args, kw, 0, "path")], kw, node, extra=st.fork())
    return None


@meth("da", "to_dataset")
def m_to_dataset(I, st, s, args, kw, node):
    c = cont(st, s)
    n = kw.get("name", c.name) or "array"
    return mk_ds(I, st, {n: c.var}, c.coords)


@meth("coords vars", "items", "keys", "values")
def cv_items(I, st, s, args, kw, node):
    o = st.heap[s.owner.id]
    m = o.coords if isinstance(s, CoordsV) else o.vars
    if getattr(o, "rest", None) is not None:
        return opq("items", I, st, s.owner)
    if _curm[-1] == "keys":
        return tuple(m)
    vals = [L.da_of_ds(I, st, s.owner, k) if isinstance(o, DsC) else L.da_attr(I, st, s.owner, o, k, node) for k in m]
    return tuple(vals) if _curm[-1] == "values" else tuple(zip(m, vals))


@meth("ds", "items", "keys", "values")
def ds_items(I, st, s, args, kw, node):
    return cv_items(I, st, VarsV(s), args, kw, node)


@meth("coords", "update", "assign")
def coords_update(I, st, s, args, kw, node):
    add_coords(I, st, s.owner, args[0], node)


@meth("ds da", "get")
def ds_getm(I, st, s, args, kw, node):
    c = cont(st, s)
    if isinstance(c, DsC) and isinstance(args[0], str) and (args[0] in c.vars or args[0] in c.coords):
        return L.ds_get(I, st, s, c, args[0], node)
    if isinstance(c, DsC) and c.rest is None:
        return args[1] if len(args) > 1 else None
    return opq("get", I, st, s, *args)


@meth("ds", "map")
def ds_map(I, st, s, args, kw, node):
    return map_ds(I, st, s, lambda d: I.call(args[0], [d] + list(args[1:]), kw, st, node))


@meth("ds da", "close", "info")
def ds_close(I, st, s, args, kw, node):
    return None


@meth("nd", "flatten", "ravel", "reshape", "repeat")
def nd_flat(I, st, s, args, kw, node):
    a = arr_of(I, st, s)
    if _curm[-1] in ("flatten", "ravel") and a.ndim <= 1:
        return s if a.ndim == 1 else mk_nd(I, st, Arr((None,), (Dim(None, 1),), lambda ix: a.at(())))
    if _curm[-1] in ("flatten", "ravel"):
        n = P.ONE
        for e in a.shape:
            n = n * e.poly()
        if n.is_const():
            return mk_nd(I, st, reshaped(a, (int(n.const()),)))
        e = Dim(f"flat{A.vn(a.fp())}", 0)

        def at(ix):
            if ix[0] == ("L", 0):
                return a.at((("L", 0),) * a.ndim)
            return Sc(P.fn("flat", ("k", A.vn(a.fp())), ix[0]))
        return mk_nd(I, st, Arr((None,), (e,), at))
    if _curm[-1] == "reshape" and all(e.sym is None for e in a.shape) and not kw:
        sh = [constify(x) for x in ((I.concrete_items(args[0], st) or []) if len(args) == 1 and not isinstance(args[0], NUM) else args)]
        n = math.prod(e.c for e in a.shape)
        if sh and all(isinstance(x, int) for x in sh):
            if sh.count(-1) == 1:
                sh[sh.index(-1)] = n // max(1, math.prod(x for x in sh if x != -1))
            if math.prod(sh) != n:
                raise DefiniteError(f"cannot reshape array of size {n} into shape {sh}")
            return mk_nd(I, st, reshaped(a, sh))
    if _curm[-1] == "reshape" and not kw:
        sh = [constify(x) for x in ((I.concrete_items(args[0], st) or []) if len(args) == 1 and not isinstance(args[0], NUM) else args)]
        r = ones_moved(a, args if len(args) != 1 or isinstance(args[0], NUM) else (I.concrete_items(args[0], st) or []), sh)
        if r is not None:
            return mk_nd(I, st, r)
    return opq(_curm[-1], I, st, s, *args, hint="array")


def ones_moved(a, raw, sh):
    """A reshape that only adds or removes axes of length one."""
    keep = [k for k, e in enumerate(a.shape) if not e.one()]
    out = []
    for r, x in zip(raw, sh):
        if isinstance(x, int) and not isinstance(x, bool) and x == 1:
            out.append(None)
            continue
        if len([o for o in out if o is not None]) >= len(keep):
            return None
        e = a.shape[keep[len([o for o in out if o is not None])]]
        if not (isinstance(x, int) and x == -1 or isinstance(x, Sc) and (x.p - e.poly()).is_zero() or isinstance(x, int) and e.sym is None and e.c == x):
            return None
        out.append(keep[len([o for o in out if o is not None])])
    if [o for o in out if o is not None] != keep or sum(isinstance(x, int) and x == -1 for x in sh) > 1:
        return None
    one = Dim(None, 1)

    def at(ix):
        full = [("L", 0)] * a.ndim
        for o, i in zip(out, ix):
            if o is not None:
                full[o] = i
        return a.at(tuple(full))
    return Arr((None,) * len(out), tuple(one if o is None else a.shape[o] for o in out), at, a.kind)


def reshaped(a, sh):
    """The elements of an array of known shape, in order, in another shape."""
    old = [e.c for e in a.shape]

    def at(ix):
        for ax, (b, k) in enumerate(ix):
            if b == "H":
                ix = tuple(ix[:ax]) + (("L", sh[ax] - 1 - k),) + tuple(ix[ax + 1:])
            elif b != "L":
                return A.select(ix[ax], [at(tuple(ix[:ax]) + (("L", n),) + tuple(ix[ax + 1:])) for n in range(sh[ax])])
        n = 0
        for (b, k), m in zip(ix, sh):
            n = n * m + k
        out = []
        for m in reversed(old):
            out.append(("L", n % m))
            n //= m
        return a.at(tuple(reversed(out)))
    return Arr((None,) * len(sh), tuple(Dim(None, m) for m in sh), A.memo_at(at), a.kind)


@meth("nd", "transpose")
def nd_tr(I, st, s, args, kw, node):
    a = arr_of(I, st, s)
    ax = [constify(x) for x in args] if args else None
    if ax and not isinstance(ax[0], int):
        ax = [constify(x) for x in I.concrete_items(args[0], st)]
    return mk_nd(I, st, A.transpose(a, ax or list(range(a.ndim))[::-1]))


@meth("nd", "fill")
def nd_fill(I, st, s, args, kw, node):
    L.nd_set(I, st, s.id, Ellipsis, args[0], node)


# ------------------------------------------------------------------ list / dict / str / path
@meth("list", "append", "add", "appendleft")
def l_append(I, st, s, args, kw, node):
    c = cont(st, s)
    if c.kind == "set":
        f = [I.fp(x, st) for x in c.items]
        if I.fp(args[0], st) in f:
            return None
    if c.tail is not None:
        st.heap[s.id] = ListC(c.items, c.kind, Abs(args[0], ("append", c.tail.key, I.fp(args[0], st))))
        return None
    st.heap[s.id] = ListC(c.items + (args[0],), c.kind, c.tail)
    return None


@meth("list", "extend", "update")
def l_extend(I, st, s, args, kw, node):
    L.inplace(I, st, "+", s, args[0], node)
    return None


@meth("list", "insert")
def l_insert(I, st, s, args, kw, node):
    c = cont(st, s)
    k = constify(args[0])
    if isinstance(k, int) and c.tail is None:
        it = list(c.items)
        it.insert(k, args[1])
        st.heap[s.id] = ListC(tuple(it), c.kind)
    else:
        st.heap[s.id] = ListC((), c.kind, Abs(Opaque(("?insert", I.fp(s, st))), ("?",)))


@meth("list", "pop", "popleft")
def l_pop(I, st, s, args, kw, node):
    c = cont(st, s)
    k = constify(args[0]) if args else (-1 if _curm[-1] == "pop" else 0)
    if c.tail is None and isinstance(k, int) and -len(c.items) <= k < len(c.items):
        it = list(c.items)
        x = it.pop(k)
        st.heap[s.id] = ListC(tuple(it), c.kind)
        return x
    return opq("pop", I, st, s, *args)


@meth("list", "index", "count")
def l_index(I, st, s, args, kw, node):
    its = I.concrete_items(s, st)
    if its is not None and all(isinstance(x, (str, int)) for x in its) and isinstance(args[0], (str, int)):
        if _curm[-1] == "count":
            return its.count(args[0])
        if args[0] in its:
            return its.index(args[0])
        raise DefiniteError("not in list")
    return opq(_curm[-1], I, st, s, *args)


METHODS[("tuple", "index")] = METHODS[("tuple", "count")] = l_index


@meth("list", "copy")
def l_copy(I, st, s, args, kw, node):
    c = cont(st, s)
    return I.alloc(st, c)


@meth("list", "sort", "reverse", "clear", "remove", "discard")
def l_misc(I, st, s, args, kw, node):
    c = cont(st, s)
    m = _curm[-1]
    if m == "clear":
        st.heap[s.id] = ListC((), c.kind)
    elif m == "reverse" and c.tail is None:
        st.heap[s.id] = ListC(tuple(reversed(c.items)), c.kind)
    elif m in ("remove", "discard") and c.tail is None:
        f = I.fp(args[0], st)
        it = list(c.items)
        for n, x in enumerate(it):
            if I.fp(x, st) == f:
                del it[n]
                break
        st.heap[s.id] = ListC(tuple(it), c.kind)
    elif m == "sort":
        r = EXT["builtins.sorted"](I, st, [s], kw, node)
        st.heap[s.id] = ListC(cont(st, r).items, c.kind, cont(st, r).tail)
    else:
        st.heap[s.id] = ListC((), c.kind, Abs(Opaque(("?" + m, I.fp(s, st))), ("?",)))


@meth("list", "union", "intersection", "difference", "issubset", "issuperset", "symmetric_difference", "intersection_update")
def l_setop(I, st, s, args, kw, node):
    m = _curm[-1]
    if m in ("issubset", "issuperset"):
        a, b = I.concrete_items(s, st), I.concrete_items(args[0], st)
        if a is not None and b is not None and all(isinstance(x, (str, int)) for x in a + b):
            return set(a) <= set(b) if m == "issubset" else set(a) >= set(b)
        return boolsym(m, I.fp(s, st), I.fp(args[0], st))
    a, b = I.concrete_items(s, st), I.concrete_items(args[0], st) if len(args) == 1 else None
    if a is not None and b is not None and all(isinstance(x, (str, int)) for x in a + b) and m in ("union", "intersection", "difference", "symmetric_difference"):
        both = list(dict.fromkeys(a + b))
        return I.alloc(st, ListC(tuple(x for x in both if {"union": True, "intersection": x in a and x in b, "difference": x not in b,
                                                           "symmetric_difference": (x in a) != (x in b)}[m]), "set"))
    r = I.alloc(st, ListC((), "set", Abs(Opaque((m, I.fp(s, st), I.fp(args[0], st))), (m, I.fp(s, st), I.fp(args[0], st)))))
    if m == "intersection_update":
        st.heap[s.id] = st.heap[r.id]
        return None
    return r


@meth("list", "groupby")
def l_groupby(I, st, s, args, kw, node):
    I.event("groupby", "groupby", st, [s] + list(args), kw, node)
    by, its = arg(args, kw, 0, "values"), I.concrete_items(s, st)
    ks = I.concrete_items(by, st) if by is not None else None
    if ks is not None and its is not None and len(ks) == len(its):
        ks = [constify(k) if isinstance(k, NUM) else k for k in ks]
        ks = [tuple(I.concrete_items(k, st) or ()) if isinstance(k, Ref) else hashable(I, k, st) if isinstance(k, StrT) else k for k in ks]
        if all(isinstance(k, (int, str, tuple)) for k in ks):
            d = {}
            for k, x in zip(ks, its):
                d.setdefault(k, []).append(x)
            return I.alloc(st, DictC({k: I.alloc(st, ListC(tuple(d[k]), "cfindex")) for k in sorted(d)}))
    return I.alloc(st, DictC({}, Opaque(("groupby", I.fp(s, st), I.fp(args[0], st)))))


@meth("list", "strftime")
def l_strftime(I, st, s, args, kw, node):
    c = cont(st, s)
    if _curm[-1] == "strftime" and c.kind == "cfindex" and c.tail is None:
        return I.alloc(st, ListC(tuple(num_strftime(I, st, x, args, kw, node) for x in c.items), "index"))
    return opq("?" + _curm[-1], I, st, s, *args)


@ext("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def d_fromkeys(I, st, args, kw, node):
    v = args[1] if len(args) > 1 else None
    its = I.concrete_items(args[0], st)
    if its is None:
        return I.alloc(st, DictC({}, Opaque(("fromkeys", I.fp(args[0], st), I.fp(v, st)))))
    return I.alloc(st, DictC({hashable(I, k.v if isinstance(k, Maybe) else k, st): Maybe(k.g, v) if isinstance(k, Maybe) else v for k in its}))


@meth("list", "to_datetimeindex", "tolist", "to_list")
def l_id(I, st, s, args, kw, node):
    return s


@meth("dict", "get")
def d_get(I, st, s, args, kw, node):
    return L.dict_get(I, st, s, cont(st, s), args[0], node, args[1] if len(args) > 1 else kw.get("default"))


@meth("dict", "items", "keys", "values")
def d_items(I, st, s, args, kw, node):
    c = cont(st, s)
    m = _curm[-1]
    its = []
    for k, v in c.d.items():
        g = None
        if isinstance(v, Maybe):
            g, v = v.g, v.v
        kk = k
        x = kk if m == "keys" else (v if m == "values" else (kk, v))
        its.append(Maybe(g, x) if g is not None else x)
    tail = None
    if c.rest is not None:
        if m == "keys":
            el = Opaque(("dkey", c.rest.key))
        else:
            ab = I.memo_consts.get(("absdict", getattr(c.rest, "key", None)))
            val = ab[1] if isinstance(ab, tuple) and len(ab) == 2 else Opaque(("dval", c.rest.key))
            ky = ab[0] if isinstance(ab, tuple) and len(ab) == 2 else Opaque(("dkey", c.rest.key))
            el = val if m == "values" else (ky, val)
        tail = Abs(el, (m, c.rest.key))
    return I.alloc(st, ListC(tuple(its), "list", tail))


@meth("dict", "update")
def d_update(I, st, s, args, kw, node):
    c = cont(st, s)
    d = dict(c.d)
    rest = c.rest
    for x in args:
        xc = cont(st, x)
        if isinstance(xc, DictC):
            d.update(xc.d)
            rest = rest or xc.rest
        else:
            rest = rest or Opaque(("upd", I.fp(x, st)))
    d.update(kw)
    st.heap[s.id] = DictC(d, rest)


@meth("dict", "copy")
def d_copy(I, st, s, args, kw, node):
    c = cont(st, s)
    return I.alloc(st, DictC(dict(c.d), c.rest))


@meth("dict", "pop", "setdefault", "clear", "popitem")
def d_pop(I, st, s, args, kw, node):
    c = cont(st, s)
    m = _curm[-1]
    if m == "clear":
        st.heap[s.id] = DictC({})
        return None
    if not args:
        return opq(m, I, st, s)
    k = hashable(I, args[0], st)
    v = L.dict_get(I, st, s, c, args[0], node, *( [args[1]] if len(args) > 1 else ([None] if m == "setdefault" else [])))
    d = dict(c.d)
    if m == "pop":
        d.pop(k, None)
    elif k not in d:
        d[k] = v
    st.heap[s.id] = DictC(d, c.rest)
    return v


def format_map(I, st, s, args, kw, node):
    c = cont(st, args[0]) if args and isinstance(args[0], Ref) else None
    if isinstance(c, DictC) and not c.rest and all(isinstance(k, str) for k in c.d):
        return s_format(I, st, s, [], dict(c.d), node)
    return opq("format_map", I, st, s, *args, hint="str")


@meth("str", "format")
def s_format(I, st, s, args, kw, node):
    import string

    s = delit(s)
    if isinstance(s, str):
        parts = []
        n = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                parts.append(lit)
                if field is None:
                    continue
                if field == "" or field.isdigit():
                    i = int(field) if field else n
                    n += 1
                    v = args[i]
                else:
                    if field not in kw:
                        if field.isidentifier() and "**" not in kw:
                            I.do_raise(st, Opaque(("exc", "KeyError", field)), node, field)
                            st.alive = False
                            raise Dead()
                        return opq("format", I, st, s, hint="str")
                    v = kw[field]
                parts.append(L.format_value(I, st, v, spec or "", conv or ""))
            return delit(mkstr(parts))
        except (IndexError, KeyError, ValueError):
            raise DefiniteError("format arguments")
    I.event("format", "str.format", st, [s] + list(args), kw, node)
    return StrT((("format", sparts(s), tuple(I.fp(a, st) for a in args), tuple((k, I.fp(v, st)) for k, v in sorted(kw.items()))),))


def s_method(I, st, s, name, args, kw, node):
    s2 = delit(s)
    args = [delit(a) for a in args]
    if name == "format_map":
        return format_map(I, st, s, args, kw, node)
    if isinstance(s2, str) and all(isinstance(a, (str, int, tuple)) for a in args) and hasattr(str, name) and not kw:
        try:
            r = getattr(s2, name)(*args)
        except (ValueError, TypeError, IndexError):
            return opq("?str." + name, I, st, s, *args)
        if isinstance(r, list):
            return I.alloc(st, ListC(tuple(r)))
        return r
    if name == "join":
        its = I.concrete_items(args[0], st)
        if its is not None and all(is_str(x) for x in its):
            parts = []
            for n, x in enumerate(its):
                if n:
                    parts += list(sparts(s2))
                parts += list(sparts(x))
            return delit(mkstr(parts))
        return opq("join", I, st, s, args[0], hint="str")
    if name == "count" and isinstance(s2, StrT) and isinstance(args[0], str) and len(args[0]) == 1:
        if all(isinstance(p, str) or p[0] == "time" and p[2] != "str" for p in s2.parts) and not args[0].isdigit():
            return sum(p.count(args[0]) for p in s2.parts if isinstance(p, str))
        return Sc(P.fn("strcount", I.fp(s2, st), args[0], nonneg=True))
    if name == "split" and isinstance(s2, StrT) and args and isinstance(args[0], str):
        # formatted values contain no separators when each is a number
        if all(isinstance(p, str) or p[0] in ("fmt",) and isinstance(p[1], tuple) and p[1][0] == "p" for p in s2.parts):
            cur, out = [], []
            for p in s2.parts:
                if isinstance(p, str):
                    seg = p.split(args[0])
                    cur.append(seg[0])
                    for x in seg[1:]:
                        out.append(delit(mkstr(cur)))
                        cur = [x]
                else:
                    cur.append(p)
            out.append(delit(mkstr(cur)))
            return I.alloc(st, ListC(tuple(out)))
        return Opaque(("str.split", I.fp(s2, st), args[0]), "strlist")
    if name in ("endswith", "startswith") and isinstance(s2, StrT) and isinstance(args[0], str):
        p = s2.parts[-1] if name == "endswith" else s2.parts[0]
        if isinstance(p, str) and len(p) >= len(args[0]):
            return getattr(p, name)(args[0])
        return boolsym(name, I.fp(s2, st), args[0])
    if name in ("lower", "upper", "strip", "title", "casefold", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "encode"):
        return Opaque(("str." + name, I.fp(s2, st)) + tuple(I.fp(a, st) for a in args), "str")
    return opq("str." + name, I, st, s, *args, hint="str")


def path_method(I, st, s, name, args, kw, node):
    h = I.cfg.get("fs")
    if h is not None:
        r = h(I, st, name, s, args, kw, node)
        if r is not None:
            I.event("fs", name, st, [s] + list(args), kw, node)
            return r
    if name in ("absolute", "resolve", "expanduser"):
        p = s.parts
        rooted = bool(p) and (p[0][:1] == "/" if isinstance(p[0], str) else p[0][:2] in (("fn", "absolute"), ("fn", "resolve"), ("sym", "cwd"), ("sym", "home")))
        if rooted and name != "resolve":
            return s
        if p and isinstance(p[0], str):
            if name == "expanduser":
                if p[0] == "~" or p[0].startswith("~/"):
                    return mkstr((("sym", "home"), p[0][1:]) + p[1:], True) if p[0] != "~" else mkstr((("sym", "home"),) + p[1:], True)
                if p[0][:1] != "~":
                    return s
            elif name == "absolute":
                return mkstr((("sym", "cwd"), "/" + p[0]) + p[1:], True)
        if len(p) == 1 and not isinstance(p[0], str) and p[0][0] == "fn" and p[0][1] == name:
            return s
        return StrT((("fn", name, p),), True)
    if name == "joinpath":
        r = s
        for a in args:
            r = L.path_join(r, a, I, st)
        return r
    if name in ("exists", "is_file", "is_dir"):
        I.event("fs", name, st, [s], kw, node)
        return boolsym("path." + name, s.parts, len([e for e in I.events if e.kind == "fs" and e.name in WRITES]))
    if name == "samefile":
        other = args[0]
        return boolsym("samefile", *sorted([I.fp(mkstr(sparts(a), True), st) if is_str(a) else I.fp(a, st) for a in (s, other)], key=repr))
    if name == "mkdir":
        I.event("fs", "mkdir", st, [s], kw, node)
        return None
    if name == "open":
        I.event("openfile", "open", st, [s] + list(args), kw, node)
        return Opaque(("file", s.parts, args[0] if args else kw.get("mode", "r")), "file")
    if name in ("unlink", "rmdir", "touch", "rename", "replace", "write_text", "write_bytes", "symlink_to", "chmod", "hardlink_to"):
        I.event("fs", name, st, [s] + list(args), kw, node)
        return None
    if name in ("glob", "rglob", "iterdir"):
        I.event("fs", name, st, [s] + list(args), kw, node)
        pat = args[0] if args else "*"
        h = I.cfg.get("glob")
        its = h(I, st, s, pat, node) if h is not None else None
        if its is not None:
            return I.alloc(st, ListC(tuple(its), "iter"))
        key = (name, s.parts, I.fp(pat, st))
        el = StrT((("sym", ("globelem", key)),), True)
        return I.alloc(st, ListC((), "iter", Abs(el, key)))
    if name in ("read_text", "read_bytes", "stat"):
        I.event("fs", name, st, [s], kw, node)
        return opq("path." + name, I, st, s, hint="str")
    if name in ("with_suffix", "with_name", "with_stem", "relative_to"):
        par = L.path_attr(I, st, s, "parent")
        if name == "with_name":
            return L.path_join(par, args[0], I, st)
        if name == "with_suffix":
            stem = L.path_attr(I, st, s, "stem")
            return L.path_join(par, mkstr(sparts(stem) + sparts(args[0])), I, st)
        return StrT((("fn", name, s.parts, tuple(I.fp(a, st) for a in args)),), True)
    if name in ("as_posix", "__str__", "as_uri"):
        return StrT(s.parts)
    if name == "is_absolute":
        return boolsym("is_absolute", s.parts)
    if name in ("format", "replace", "split", "startswith", "endswith"):
        return s_method(I, st, StrT(s.parts), name, args, kw, node)
    return opq("path." + name, I, st, s, *args)


WRITES = {"mkdir", "unlink", "rmdir", "touch", "rename", "replace", "write_text", "write_bytes"}


# ------------------------------------------------------------------ pathlib, os, shutil, ...
@ext("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def p_path(I, st, args, kw, node):
    if not args:
        return mkstr((".",), True)
    r = None
    for a in args:
        a = delit(a) if not isinstance(a, StrT) else a
        if is_str(a):
            r = mkstr(sparts(a), True) if r is None else L.path_join(r, a, I, st)
        else:
            x = ("sym", I.fp(a, st))
            r = mkstr((x,), True) if r is None else mkstr(r.parts + ("/", x), True)
    return r


@ext("pathlib.Path.cwd", "os.getcwd")
def p_cwd(I, st, args, kw, node):
    return mkstr((("sym", "cwd"),), True)


@ext("pathlib.Path.home")
def p_home(I, st, args, kw, node):
    return mkstr((("sym", "home"),), True)


@ext("os.path.join")
def os_join(I, st, args, kw, node):
    r = mkstr(sparts(args[0]), True)
    for a in args[1:]:
        r = L.path_join(r, a, I, st)
    return StrT(r.parts)


@ext("glob.glob", "glob.iglob")
def glob_glob(I, st, args, kw, node):
    p = mkstr(sparts(args[0]), True) if args and is_str(args[0]) else None
    root = kw.get("root_dir")
    if p is None or root is not None or kw.get("recursive"):
        return opq("glob", I, st, *args, hint="glob")
    d, n = L.path_attr(I, st, p, "parent"), L.path_attr(I, st, p, "name")
    n = delit(StrT(n.parts)) if isinstance(n, StrT) else n
    r = path_method(I, st, d, "glob", [n], {}, node)
    c = cont(st, r)
    its = tuple(StrT(x.parts) if isinstance(x, StrT) else x for x in c.items)
    return I.alloc(st, ListC(its, "list" if I_cur(I).endswith("glob.glob") else "iter", c.tail))


@ext("os.path.exists", "os.path.isfile", "os.path.isdir")
def os_exists(I, st, args, kw, node):
    nm = {"exists": "exists", "isfile": "is_file", "isdir": "is_dir"}[I_cur(I).split(".")[-1]]
    return path_method(I, st, mkstr(sparts(args[0]), True), nm, [], {}, node)


@ext("os.makedirs", "os.mkdir")
def os_mkdir(I, st, args, kw, node):
    k = dict(kw)
    if I_cur(I) == "os.makedirs":
        k["parents"] = True
    if is_str(args[0]):
        return path_method(I, st, mkstr(sparts(args[0]), True), "mkdir", [], k, node)
    I.event("fs", "mkdir", st, [args[0]], k, node)


@ext("os.path.samefile", "os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.path.basename", "os.path.dirname")
def os_path(I, st, args, kw, node):
    n = I_cur(I).split(".")[-1]
    if n == "samefile":
        return boolsym("samefile", *sorted([I.fp(mkstr(sparts(a), True), st) if is_str(a) else I.fp(a, st) for a in args], key=repr))
    m = {"abspath": "absolute", "realpath": "resolve", "expanduser": "expanduser"}.get(n)
    p = mkstr(sparts(args[0]), True)
    if m:
        return path_method(I, st, p, m, [], {}, node)
    return L.path_attr(I, st, p, "name" if n == "basename" else "parent")


@ext("builtins.open")
def b_open(I, st, args, kw, node):
    I.event("openfile", "open", st, args, kw, node)
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    return Opaque(("file", I.fp(args[0], st), mode), "file")


@ext("functools.partial")
def f_partial(I, st, args, kw, node):
    f = args[0]
    if isinstance(f, Partial):
        return Partial(f.fn, f.args + tuple(args[1:]), tuple({**dict(f.kw), **kw}.items()))
    return Partial(f, tuple(args[1:]), tuple(kw.items()))


@ext("functools.lru_cache", "functools.cache", "functools.wraps")
def f_cache(I, st, args, kw, node):
    if args and isinstance(args[0], Fn):
        args[0].cached = True
        return args[0]
    return Ext(I_cur(I))


@ext("multiprocessing.pool.Pool", "multiprocessing.Pool", "multiprocessing.pool.ThreadPool", "concurrent.futures.ProcessPoolExecutor",
     "concurrent.futures.ThreadPoolExecutor")
def pool(I, st, args, kw, node):
    return Opaque(("pool",), "pool")


def pool_method(I, st, s, name, args, kw, node):
    """Work handed to a pool: every item is processed (in some order)."""
    f = args[0] if args else kw.get("func")
    if name in ("starmap", "map", "imap", "imap_unordered", "starmap_async", "map_async"):
        star = name.startswith("starmap")
        if len(args) > 2 and not star:
            cols = [I.concrete_items(a, st) for a in args[1:]]
            its = None if None in cols else list(zip(*cols))
            star = True
        else:
            its = I.concrete_items(args[1] if len(args) > 1 else kw.get("iterable"), st)
        if its is None:
            return None
        out = []
        for x in its:
            a = I.concrete_items(x, st) if star else [x]
            if a is None:
                return None
            out.append(I.call(f, list(a), {}, st, node))
        return (I.alloc(st, ListC(tuple(out), "list")),)
    if name in ("apply", "apply_async", "submit"):
        a, k = list(args[1:]), dict(kw)
        if name != "submit":
            a = I.concrete_items(args[1], st) if len(args) > 1 else []
            kk = cont(st, args[2]) if len(args) > 2 else cont(st, kw.get("kwds"))
            k = dict(kk.d) if isinstance(kk, DictC) else {}
            if a is None:
                return None
        I.call(f, list(a), k, st, node)
        return (Opaque(("pool", "result"), "future"),)
    return None


@ext("itertools.product")
def it_product(I, st, args, kw, node):
    ls = [I.concrete_items(a, st) for a in args]
    if all(x is not None for x in ls):
        import itertools

        return tuple(itertools.product(*ls))
    els = tuple((x[0] if x is not None and len(x) == 1 else L.iter_elem(I, st, a, "prod")) for x, a in zip(ls, args))
    return I.alloc(st, ListC((), "iter", Abs(els, ("product",) + tuple(I.fp(a, st) for a in args))))


@ext("collections.namedtuple")
def namedtuple(I, st, args, kw, node):
    its = I.concrete_items(args[1], st) if not isinstance(args[1], str) else args[1].replace(",", " ").split()
    mod = I.loc[-1]
    return Cls(args[0], mod, f"{mod}.{args[0]}", [Ext("typing.NamedTuple")], {}, {k: None for k in its}, node)


@ext("logging.getLogger")
def get_logger(I, st, args, kw, node):
    return Ext("logger")


def log_ext(name):
    def h(I, st, args, kw, node):
        I.event("log", name, st, args, kw, node)
        return None

    return h


for _l in ("debug", "info", "warning", "error", "critical", "exception", "warn", "log"):
    EXT["logger." + _l] = log_ext(_l)
    EXT["logging." + _l] = log_ext(_l)
EXT["warnings.warn"] = log_ext("warnings.warn")
EXT["logging.basicConfig"] = log_ext("basicConfig")


@ext("re.compile")
def re_compile(I, st, args, kw, node):
    pat, fl = delit(args[0]), constify(arg(args, kw, 1, "flags") or 0)
    if isinstance(pat, str) and isinstance(fl, int):
        return Opaque(("regex", pat, fl), "regex")
    return Opaque(("re.compile",) + tuple(I.fp(x, st) for x in args), "")


@ext("re.search", "re.match", "re.fullmatch", "re.sub", "re.subn", "re.findall", "re.split")
def re_any(I, st, args, kw, node):
    n = I_cur(I).split(".")[-1]
    r = re_run(I, st, n, [delit(x) for x in args], kw)
    if r is not None:
        return r[0]
    return Opaque(("re." + n,) + tuple(I.fp(x, st) for x in args), "match" if n != "sub" else "str")


def re_run(I, st, n, a, kw):
    """A regular expression on known strings."""
    import re

    fl = kw.get("flags", 0)
    k = {"sub": 3, "subn": 3}.get(n, 2)
    if len(a) > k and n not in ("sub", "subn", "split"):
        fl = a[k]
    fl = constify(fl)
    pat = a[0]
    if isinstance(pat, Opaque) and pat.key[0] == "regex":
        pat, fl = pat.key[1], pat.key[2]
    if not (isinstance(fl, int) and isinstance(pat, str) and all(isinstance(x, str) for x in a[1:k])) or len(a) < k:
        return None
    try:
        if n in ("sub", "subn"):
            return (getattr(re, n)(pat, a[1], a[2], flags=fl),)
        if n in ("findall", "split"):
            return (I.alloc(st, ListC(tuple(getattr(re, n)(pat, a[1], flags=fl)))),)
        m = getattr(re, n)(pat, a[1], fl)
    except re.error:
        raise DefiniteError("invalid regular expression")
    return (None if m is None else Opaque(("matchobj", pat, a[1], fl, n), "found"),)


def match_method(I, st, s, name, args, kw):
    import re

    _, pat, text, fl, n = s.key
    m = getattr(re, n)(pat, text, fl)
    try:
        args = [constify(delit(x)) for x in args]
        if name == "groupdict":
            return (I.alloc(st, DictC(m.groupdict())),)
        if name in ("group", "groups", "start", "end", "span", "expand", "__getitem__") and all(isinstance(x, (str, int)) for x in args):
            return (getattr(m, name)(*args),)
    except (IndexError, KeyError):
        raise DefiniteError("no such group")
    return None


@ext("yaml.safe_load", "yaml.load", "yaml.full_load")
def yaml_load(I, st, args, kw, node):
    """A text written in the program."""
    x = delit(args[0]) if args else None
    if isinstance(x, str):
        try:
            import yaml
            return plain_value(I, st, yaml.safe_load(x))
        except ImportError:
            pass
        except yaml.YAMLError:
            raise DefiniteError("invalid YAML")
    return opq("call:" + I_cur(I), I, st, *args)


def plain_value(I, st, v):
    if isinstance(v, dict):
        return I.alloc(st, DictC({k: plain_value(I, st, x) for k, x in v.items()}))
    if isinstance(v, list):
        return I.alloc(st, ListC(tuple(plain_value(I, st, x) for x in v)))
    if isinstance(v, float):
        return Sc(P.P(P.Fraction(str(v))))
    return v


@ext("json.loads")
def json_loads(I, st, args, kw, node):
    x = args[0]
    if isinstance(x, Opaque) and x.key[0] == "json":
        src = I.memo_consts.get(("json", x.key))
        if src is not None:
            return deep_copy(I, st, src)
    return I.alloc(st, DictC({}, Opaque(("json.loads", I.fp(x, st)))))


@ext("json.dumps")
def json_dumps(I, st, args, kw, node):
    x = args[0]
    key = ("json", I.fp(x, st))
    I.memo_consts[("json", key)] = deep_copy(I, st, x)
    I.event("json", "dumps", st, args, kw, node, extra=st.fork())
    return Opaque(key, "str")


for _e in dir(_b):
    if isinstance(getattr(_b, _e), type) and issubclass(getattr(_b, _e), BaseException):
        def _mk(n):
            def h(I, st, args, kw, node):
                return Opaque(("exc", n) + tuple(I.fp(a, st) for a in args))

            return h

        EXT["builtins." + _e] = _mk(_e)


# ------------------------------------------------------------------ dispatch
ALIAS = {"np": "numpy", "xr": "xarray"}
METHOD_TYPES = {"str", "list", "dict", "set", "tuple", "float", "int"}
PURE_PREFIX = ("numpy.", "xarray.", "pandas.", "math.", "cftime.", "shapely.", "scipy.")
BUILTINS = set(dir(_b))


def call_ext(I, st, name, args, kw, node):
    args = list(args)
    vals = args + list(kw.values())
    if any(isinstance(v, Choice) for v in vals):
        ks = list(kw)
        return I.dist(st, vals, lambda s, v: call_ext(I, s, name, v[: len(args)], dict(zip(ks, v[len(args):])), node))
    n = name
    if n.split(".")[0] in BUILTINS and n.count(".") < 2:
        n = "builtins." + n
        if n.count(".") == 2 and n not in EXT and args and n.split(".")[1] in METHOD_TYPES and ("ext:" + n) not in I.hooks:
            return method(I, st, args[0], n.split(".")[2], args[1:], kw, node)
    if n.startswith("math.") and "numpy." + n[5:] in EXT:
        n = "numpy." + n[5:]
    n = {"os.fspath": "builtins.str"}.get(n, n)
    h = I.hooks.get("ext:" + n)
    I.event("call", n, st, args, kw, node)
    if h is not None:
        return h(I, st, args, kw, node)
    f = EXT.get(n)
    if f is None and n.startswith("cftime.") and n.endswith(".fromordinal"):
        f = cf_fromordinal
    if f is None:
        parts = n.split(".")
        if len(parts) >= 2 and parts[0] == "logger":
            I.event("log", parts[-1], st, args, kw, node)
            return None
        return Opaque(("call:" + n,) + tuple(I.fp(a, st) for a in args) + tuple((k, I.fp(v, st)) for k, v in sorted(kw.items())), "")
    _cur.append(n)
    try:
        return guard_call(I, st, f, args, kw, node, n)
    finally:
        _cur.pop()


def guard_call(I, st, f, args, kw, node, what):
    try:
        return f(I, st, args, kw, node)
    except DefiniteError as e:
        I.do_raise(st, Opaque(("exc", "ValueError", str(e))), node, f"{what}: {e}")
        st.alive = False
        raise Dead()
    except Unsupported as e:
        I.note(f"unsupported: {what}: {e}", node)
        return Opaque(("?" + what,) + tuple(I.fp(a, st) for a in args) + tuple((k, I.fp(v, st)) for k, v in sorted(kw.items())), "array")
    except P.TooBig as e:
        I.note(f"too big: {what}: {e}", node)
        return Opaque(("?big:" + what,) + tuple(I.fp(a, st) for a in args), "array")
    except (KeyError, IndexError, TypeError, AttributeError, AssertionError) as e:
        I.note(f"unmodelled use: {what}: {type(e).__name__} {e}", node)
        return Opaque(("?" + what,) + tuple(I.fp(a, st) for a in args) + tuple((k, I.fp(v, st)) for k, v in sorted(kw.items())), "array")


def kind_of(I, st, s):
    c = cont(st, s)
    if isinstance(c, NdC):
        return "nd"
    if isinstance(c, DaC):
        return "da"
    if isinstance(c, DsC):
        return "ds"
    if isinstance(c, ListC):
        return "list"
    if isinstance(c, DictC):
        return "dict"
    if isinstance(s, tuple):
        return "tuple"
    if isinstance(s, CoordsV):
        return "coords"
    if isinstance(s, VarsV):
        return "vars"
    if isinstance(s, NUM):
        return "num"
    if isinstance(s, StrT) and s.path:
        return "path"
    if is_str(s):
        return "str"
    if isinstance(s, Opaque):
        return "opaque"
    if isinstance(c, ObjC):
        return "obj"
    return "other"


def method(I, st, s, name, args, kw, node):
    args = list(args)
    vals = args + list(kw.values())
    if any(isinstance(v, Choice) for v in vals):
        ks = list(kw)
        return I.dist(st, vals, lambda q, v: method(I, q, s, name, v[: len(args)], dict(zip(ks, v[len(args):])), node))
    plotted = s.self if isinstance(s, Bound) and s.fn == "plot" else s if name == "plot" else None
    if plotted is not None and isinstance(plotted, Ref) and kind_of(I, st, plotted) in ("da", "ds"):
        I.event("plot", name, st, [plotted] + args, kw, node, extra=st.fork())
        return opq("plot." + name, I, st, plotted, *args)
    k = kind_of(I, st, s)
    if k == "path":
        return path_method(I, st, s, name, args, kw, node)
    if k == "str" and name != "format":
        return s_method(I, st, s, name, args, kw, node)
    if k in ("nd", "da", "ds") and any(isinstance(a, Opaque) for a in vals) and name not in OPQ_OK:
        I.event("method", name, st, [s] + args, kw, node)
    f = METHODS.get((k, name))
    if k == "dict" and f is None and name in ("__contains__",):
        return L.contains(I, st, args[0], s)
    if f is not None:
        _curm.append(name)
        try:
            return guard_call(I, st, lambda I, st, a, kw, node: f(I, st, s, a, kw, node), args, kw, node, f"{k}.{name}")
        finally:
            _curm.pop()
    if k == "obj":
        return obj_method(I, st, s, name, args, kw, node)
    I.event("method", name, st, [s] + args, kw, node, extra=st.fork() if name in ("starmap", "map", "apply_async", "imap") else None)
    if isinstance(s, Opaque):
        if s.hint == "pool":
            r = pool_method(I, st, s, name, args, kw, node)
            if r is not None:
                return r[0]
        h = I.cfg.get("opaque_method")
        if h is not None:
            r = h(I, st, s, name, args, kw, node)
            if r is not None:
                return r[0] if isinstance(r, tuple) and len(r) == 1 else r
        if s.hint == "file" and name in ("write", "writelines", "close"):
            I.event("filewrite", name, st, [s] + list(args), kw, node)
            return None
        if s.hint == "found" and s.key[0] == "matchobj":
            r = match_method(I, st, s, name, args, kw)
            if r is not None:
                return r[0]
        if s.hint == "regex":
            r = re_run(I, st, name, [s] + [delit(x) for x in args], kw)
            if r is not None:
                return r[0]
            return Opaque(("re." + name, s.key) + tuple(I.fp(x, st) for x in args), "match" if name != "sub" else "str")
        if s.hint in ("match", "found") and name == "group":
            return Opaque(("group", s.key) + tuple(I.fp(a, st) for a in args), "str")
        if s.hint in ("str",) and name == "format":
            return opq("format", I, st, s, hint="str")
        if s.hint == "str" and name in ("split",):
            return Opaque(("str.split", s.key) + tuple(I.fp(a, st) for a in args), "strlist")
        hint = "array" if s.hint == "array" and name not in ("item", "any", "all") else ("ds" if s.hint == "ds" else ("str" if s.hint == "str" else ""))
        return Opaque(("method", s.key, name) + tuple(I.fp(a, st) for a in args) + tuple((q, I.fp(v, st)) for q, v in sorted(kw.items())), hint)
    hint = "array" if k in ("nd", "da") else ("ds" if k == "ds" else "")
    return Opaque(("?" + k + "." + name, I.fp(s, st)) + tuple(I.fp(a, st) for a in args), hint)


OPQ_OK = {"to_netcdf", "sel", "isel"}


def obj_method(I, st, s, name, args, kw, node):
    c = cont(st, s)
    cls = c.cls
    I.event("method", name, st, [s] + args, kw, node)
    if isinstance(cls, Cls):
        if name == "_replace" and cls.isa("typing.NamedTuple"):
            return I.alloc(st, ObjC(cls, {**c.f, **kw}))
        if name == "_asdict":
            return I.alloc(st, DictC(dict(c.f)))
        if name in ("model_dump", "dict", "model_dump_json", "json", "model_copy", "copy"):
            if name in ("model_copy", "copy"):
                up = cont(st, kw.get("update"))
                return I.alloc(st, ObjC(cls, {**c.f, **(up.d if isinstance(up, DictC) else {})}))
            ex = kw.get("exclude")
            inc = kw.get("include")
            exn = I.concrete_items(ex, st) if ex is not None else []
            d = {k: v for k, v in c.f.items() if k not in (exn or [])}
            if inc is not None:
                n = I.concrete_items(inc, st) or []
                d = {k: v for k, v in d.items() if k in n}
            jsonish = name.endswith("json") or kw.get("mode") == "json"
            if jsonish:
                def plain(v):
                    c = cont(st, v)
                    if isinstance(v, StrT):
                        return StrT(v.parts)
                    if isinstance(c, ObjC) and isinstance(c.cls, Cls) and c.cls.isa("typing.NamedTuple"):
                        return I.alloc(st, ListC(tuple(c.f[k] for k in c.cls.all_fields())))
                    if isinstance(v, Sc) and v.k == "time":
                        raise DefiniteError("a cftime date cannot be serialised")
                    if isinstance(v, Opaque) and v.key[0] == "url":
                        return v.key[1]
                    return v
                d = {k: plain(v) for k, v in d.items()}
            r = I.alloc(st, DictC(d))
            if name.endswith("json"):
                key = ("json", I.fp(r, st))
                I.memo_consts[("json", key)] = r
                return Opaque(key, "str")
            return r
        if name == "__str__":
            return to_str(I, st, s)
    return Opaque(("method", I.fp(s, st), name) + tuple(I.fp(a, st) for a in args))


def call_opaque(I, st, f, args, kw, node):
    I.event("call", "?" if not isinstance(f, Opaque) else str(f.key[:2]), st, [f] + list(args), kw, node)
    if f is UNBOUND:
        I.do_raise(st, Opaque(("exc", "NameError")), node, "unbound")
        st.alive = False
        raise Dead()
    if f is None or isinstance(f, (int, float, str, tuple)):
        I.do_raise(st, Opaque(("exc", "TypeError")), node, "not callable")
        st.alive = False
        raise Dead()
    return Opaque(("callv", I.fp(f, st)) + tuple(I.fp(a, st) for a in args) + tuple((k, I.fp(v, st)) for k, v in sorted(kw.items())))


def construct(I, st, cls, args, kw, node):
    hook = I.hooks.get(cls.qual)
    if hook is not None:
        return hook(I, st, args, kw, node)
    init = cls.lookup("__init__")
    if isinstance(init, Fn):
        o = I.alloc(st, ObjC(cls, {}))
        I.call_fn(init, [o] + list(args), kw, st, node)
        return o
    fields = cls.all_fields()
    f = {}
    if fields:
        for n, name in enumerate(fields):
            if n < len(args):
                f[name] = args[n]
            elif name in kw:
                f[name] = kw[name]
            else:
                v = cls.lookup(name)
                if v is None and isinstance(cls.fields.get(name), ast.AnnAssign) and cls.fields[name].value is None:
                    if cls.isa("pydantic.BaseModel"):
                        f[name] = Opaque(("missingfield", name))
                    else:
                        I.event("badcall", cls.qual, st, args, kw, node, extra=f"missing {name}")
                        f[name] = Opaque(("?missing", name))
                else:
                    f[name] = v
        I.event("construct", cls.qual, st, args, kw, node)
        return I.alloc(st, ObjC(cls, f))
    return I.alloc(st, ObjC(cls, {"args": tuple(args)}))
