"""Refusing incomplete input.  Unless every variable the computation needs is there,
in its own dimensions, for the time asked for and without missing values, preprocessing
stops before anything is written."""

from engine import arr as A
from engine import poly as P
from engine.arr import Arr, DefiniteError, Sc
from engine.interp import Dead
from engine.lib import mk_nd, mk_var
from engine.lib2 import NAN, NAN_GIVEN
from engine.values import DsC, Maybe, Ref
from engine.world import GRID, real_call

from .column import LABELS, NAME, errors
from .common import ds_arr
from .prep import Prep

GRID_ = dict(latitude=[20, 10, 0], longitude=[0, 10, 20, 30])
SFC = ["ps", "precip", "evap"]
LEV = ["q", "u", "v"]
KINDS = [("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("CMIP", "pressure_levels", False),
         ("ARCO", "pressure_levels", True)]
MOD = {"ERA5": "era5", "CMIP": "cmip", "ARCO": "arco"}
WORDS = ("isnull", "isnan", "notnull", "isfinite", "count", "isna", "dropna", "nan")


def surface(lt):
    return SFC + (["qs", "us", "vs"] if lt == "pressure_levels" else [])


def levels(lt):
    return LEV + (["dp"] if lt == "model_levels" else [])


def run(kind, change=None, stored=None):
    """Preprocess one time; the data handed on by the data source changed first."""
    src, lt, listed = kind
    lv = [Sc(P.P(x)) for x in LABELS[lt]] if listed else "All"
    p = Prep(src, lt, lv, nlev=None if listed else 3, grid=GRID_)
    p.changed = False
    if change:
        q = p.w.find(f"wam2layers.preprocessing.{MOD[src]}.get_input_data").qual

        def hook(I, st, args, kw, node):
            r = real_call(I, q, args, kw, st, node)
            for x in r if isinstance(r, tuple) else (r,):
                c = st.heap.get(x.id) if isinstance(x, Ref) else None
                if isinstance(c, DsC):
                    n = change(p, st, c)
                    if n is not None:
                        st.heap[x.id] = n
                        p.changed = True
            return r
        p.w.cut(q, hook)
    if stored:
        p.holes = stored
        p.changed = True
    p.error = None
    try:
        p.day()
    except (Dead, DefiniteError) as e:
        p.error = None if isinstance(e, Dead) else f"{e}"
    except errors() as e:
        p.error = f"{type(e).__name__}: {e}"[:120]
    p.written = [e for e in p.w.I.events if e.kind == "to_netcdf" and not present(e.guard).is_zero()]
    return p


def present(g):
    """A condition in case all files are there."""
    for _ in range(8):
        m = {q: P.ZERO for q in P.all_atoms(g) if P.ATOMS[q][0] == "sym" and P.ATOMS[q][1] == "exc"}
        if not m:
            return g
        g = P.subst(g, m)
    return g


def without(name):
    def f(p, st, c):
        if name not in c.vars:
            return None
        return DsC({k: v for k, v in c.vars.items() if k != name}, c.coords, c.attrs, c.rest, c.labels)
    return f


def replaced(name, new):
    def f(p, st, c):
        a = ds_arr(st, c, name) if name in c.vars else None
        b = new(a) if a is not None else None
        if b is None:
            return None
        v = mk_var(p.w.I, st, mk_nd(p.w.I, st, b).id)
        return DsC({**c.vars, name: v}, c.coords, c.attrs, c.rest, c.labels)
    return f


def more(d, n=2):
    def f(a):
        if d in a.dims:
            return None
        return Arr((d,) + a.dims, (A.Ext(None, n),) + a.shape, lambda ix: a.at(tuple(ix[1:])), a.kind)
    return f


def less(d):
    def f(a):
        if d not in a.dims:
            return None
        k = a.dims.index(d)
        return Arr(a.dims[:k] + a.dims[k + 1:], a.shape[:k] + a.shape[k + 1:],
                   lambda ix: a.at(tuple(ix[:k]) + (("L", 0),) + tuple(ix[k:])), a.kind)
    return f


def hole(where):
    """A missing value at one place: 0 the first, 1 in the middle, 2 the last."""
    def f(a):
        if any(e.sym is not None for e in a.shape):
            return None
        at = tuple(0 if where == 0 else e.c - 1 if where == 2 else e.c // 2 for e in a.shape)

        def fn(ix):
            pos = tuple(k if b == "L" else e.c - 1 - k if b == "H" else None for (b, k), e in zip(ix, a.shape))
            return NAN if pos == at else a.at(ix)
        return Arr(a.dims, a.shape, fn, a.kind)
    return f


def asks(g):
    """Does a condition ask for missing values in a way that was not followed?"""
    back = {v: k for k, v in A._vn.items()}
    seen, out = set(), []

    def walk(x, depth=0):
        if depth > 12 or len(out) > 4000:
            return
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, tuple):
            if len(x) == 2 and x[0] == "k" and x[1] in back and x not in seen:
                seen.add(x)
                walk(back[x[1]], depth + 1)
            for y in x:
                walk(y, depth + 1)
    for q in P.all_atoms(g):
        walk(P.ATOMS[q])
    return any(w in s.lower() for s in out for w in WORDS)


def check(rep):
    rep.rule("complete", "complete input is written")
    rep.rule("missing", "a variable is missing: nothing is written")
    rep.rule("dims", "a variable is in other dimensions: nothing is written")
    rep.rule("nan", "a value is missing: nothing is written")
    rep.rule("file", "a value is missing in an input file: nothing is written")
    rep.rule("time", "input is taken for exactly the time asked for")
    NAN_GIVEN.append(True)
    for kind in KINDS:
        tag = f"{kind[0]}:{kind[1]}"
        lt = kind[1]
        p = run(kind)
        rep.world(p.w)
        if not p.written:
            rep.undecided("complete", tag, p.error or "nothing is written")
            continue
        rep.holds("complete", tag, True)
        for t, how in p.selected:
            rep.holds("time", f"{tag}:{how}", how is None, f"data for the time {how!r} to {t} are used", "get_input_data")

        def refuse(rule, name, change=None, stored=None):
            q = run(kind, change, stored)
            con = f"{tag}:{name}"
            if not q.changed:
                rep.undecided(rule, con, "the loaded data have no such variable")
            elif not q.written:
                if q.error:
                    rep.undecided(rule, con, q.error)
                else:
                    rep.holds(rule, con, True)
            elif rule in ("nan", "file") and asks(q.written[0].guard):
                rep.undecided(rule, con, "the condition for missing values is not followed")
            else:
                rep.holds(rule, con, False, "preprocessing goes on and writes", q.written[0].loc)

        for n in surface(lt) + levels(lt):
            refuse("missing", n, without(n))
            refuse("dims", f"{n}:number", replaced(n, more("number")))
            refuse("dims", f"{n}:level", replaced(n, less("level") if n in levels(lt) else more("level", 3)))
            refuse("dims", f"{n}:longitude", replaced(n, less("longitude")))
            for w in (0, 1, 2):
                refuse("nan", f"{n}:{('first', 'middle', 'last')[w]}", replaced(n, hole(w)))
        for role, n in NAME[kind[0]].items():
            if role in LEV and kind[2]:
                continue
            if kind[1] == "model_levels" and role in ("us", "vs", "d2m"):
                continue
            refuse("file", n, stored=(n, hole(1)))
