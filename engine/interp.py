"""Abstract interpreter: builds the gated value-flow graph of the project.

Every statement is interpreted once per analysis context.  At control-flow
merges values are joined into ``where(guard, a, b)`` terms (gated SSA), so the
result is a single value per variable with no enumeration of paths.  Loops with
a statically known collection are unrolled; all other loops are summarised by
loop-carried symbols, with linear induction variables recognised.
"""

from __future__ import annotations

import ast
import os
import time
from dataclasses import replace

from . import poly as P
from .arr import Arr, DefiniteError, Sc, Unsupported, elementwise, s_where, symbol_array, truth as sc_truth
from . import arr as A
from .values import (
    UNBOUND, Bound, Choice, Cls, DaC, DictC, DsC, Ext, Fn, FrameC, ListC, Maybe,
    Module, NdC, ObjC, Opaque, Partial, Ref, State, StrT, VarC, mkstr,
)

import builtins as _b

BUILTIN_NAMES = set(dir(_b))


class Dead(Exception):
    """The current path ended inside an expression (exception raised)."""


ENOUGH = 120  # seconds for one call from outside


class AnalysisError(Exception):
    pass


class Event:
    def __init__(self, kind, name, guard, args, kw, loc, loops, seq, node=None, extra=None):
        self.kind = kind
        self.name = name
        self.guard = guard
        self.args = args
        self.kw = kw
        self.loc = loc
        self.loops = loops
        self.seq = seq
        self.node = node
        self.extra = extra
        self.caught = False

    def __repr__(self):
        return f"<{self.kind} {self.name} @{self.loc} g={self.guard!r}>"


class RaiseRec:
    def __init__(self, g, st, exc, event):
        self.g = g
        self.st = st
        self.exc = exc
        self.event = event


class Abs:
    """Abstract collection: an unknown number of elements, all of one shape."""

    __slots__ = ("elem", "key")

    def __init__(self, elem, key):
        self.elem = elem
        self.key = key


class LoopRec:
    def __init__(self, lid, loc, kind):
        self.id = lid
        self.loc = loc
        self.kind = kind
        self.head = None  # State at loop head (with loop-carried symbols)
        self.end = None  # State at the end of the body
        self.init = None  # State before the loop
        self.test = None  # guard poly of continuing
        self.K = None
        self.fid = None
        self.iter = None


class Project:
    def __init__(self, root=None, package="wam2layers"):
        root = root or os.environ.get("VERIF_SOURCE", "/repo/src")
        self.root = root
        self.package = package
        self.sources: dict[str, tuple[str, ast.Module]] = {}
        self.errors = []
        base = os.path.join(root, package)
        for dp, dn, fns in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fns):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    with open(path) as fh:
                        src = fh.read()
                    try:
                        self.sources[rel] = (path, ast.parse(src))
                    except SyntaxError as e:
                        self.errors.append((path, str(e)))

    def functions(self):
        n = 0
        for _, (_, t) in self.sources.items():
            n += sum(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for x in ast.walk(t))
        return n


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**",
    ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>",
}
CMPOPS = {
    ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
}


class Interp:
    def __init__(self, project: Project, hooks=None, cfg=None):
        from . import lib

        self.lib = lib
        self.project = project
        self.hooks = dict(hooks or {})
        self.cfg = cfg or {}
        self.events: list[Event] = []
        self.load_events: list[Event] = []
        self.loading = 0
        self.loops: list[LoopRec] = []
        self.handling: list[list[str]] = []  # exceptions the enclosing try statements handle
        self.active_loops: list[str] = []
        self.outer: list = [P.ONE]
        self.raises: list[list[RaiseRec]] = [[]]
        self.loc: list[str] = ["<top>"]
        self.line = 0
        self.notes: list = []
        self.modules: dict[str, Module] = {}
        self.parent: dict[int, int | None] = {}
        self._id = 0
        self.base = State({})
        self.depth = 0
        self.called: dict[str, int] = {}
        self.callsites = 0
        self.stmts = 0
        self.t0 = None  # when the analysis of the call at hand started
        self.muted = 0
        self.excn = 0
        self.loopn = 0
        self.memo_consts: dict = {}
        self.fn_frames: dict = {}

    # ------------------------------------------------------------------ utils
    def new_id(self):
        self._id += 1
        return self._id

    def alloc(self, st: State, content) -> Ref:
        i = self.new_id()
        st.heap[i] = content
        return Ref(i)

    def get(self, st, ref: Ref):
        return st.heap[ref.id]

    def put(self, st, ref: Ref, content):
        st.heap[ref.id] = content

    def guard(self, st):
        g = st.g
        for o in self.outer[1:]:
            g = o * g
        return g

    def where_am_i(self):
        return self.loc[-1]

    def note(self, msg, node=None):
        if self.muted:
            return
        self.notes.append((self.where_am_i(), getattr(node, "lineno", self.line), msg))

    def event(self, kind, name, st, args=(), kw=None, node=None, extra=None):
        e = Event(
            kind, name, self.guard(st), tuple(args), dict(kw or {}),
            self.where_am_i(), tuple(self.active_loops), len(self.events), node, extra,
        )
        e.line = getattr(node, "lineno", self.line)
        e.handled = tuple(t for ts in self.handling for t in ts)
        if not self.muted:
            self.events.append(e)
        elif self.loading:
            self.load_events.append(e)
        return e

    def unknown(self, what, *args, st=None, hint=""):
        return Opaque(("?" + what,) + tuple(self.fp(a, st) for a in args), hint)

    # -------------------------------------------------------------- modules
    def module(self, name) -> Module:
        m = self.modules.get(name)
        if m is not None:
            return m
        path, tree = self.project.sources[name]
        fid = self.new_id()
        self.base.heap[fid] = FrameC({"__name__": name, "__file__": mkstr((("sym", "__file__", name),), True)})
        self.parent[fid] = None
        m = Module(name, path, tree, fid)
        self.modules[name] = m
        self.loc.append(f"{name}")
        saved = self.outer, self.raises, self.active_loops
        self.outer, self.raises, self.active_loops = [P.ONE], [[]], []
        self.muted += 1
        self.loading += 1
        g = self.base.g
        try:
            self.block(tree.body, self.base, fid, Ctx(fid))
        except Dead:
            pass
        finally:
            self.muted -= 1
            self.loading -= 1
            self.outer, self.raises, self.active_loops = saved
            self.loc.pop()
            self.base.alive = True
            self.base.g = P.ONE
        return m

    def load_all(self, skip=()):
        for n in self.project.sources:
            if n not in skip:
                self.module(n)

    def lookup_qual(self, qual):
        """Resolve 'pkg.mod.name' or 'pkg.mod.Class.meth' to a value, or None."""
        parts = qual.split(".")
        for cut in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:cut])
            if mn in self.project.sources:
                m = self.module(mn)
                v = self.base.heap[m.frame].v.get(parts[cut])
                for p in parts[cut + 1 :]:
                    if isinstance(v, Cls):
                        v = v.lookup(p)
                    else:
                        return None
                return v
        return None

    def start(self) -> State:
        return self.base.fork()

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, fid, node=None):
        f = fid
        while f is not None:
            c = st.heap.get(f)
            if c is None:
                c = self.base.heap.get(f)
                if c is not None:
                    st.heap[f] = c
            if c is not None and name in c.v:
                v = c.v[name]
                return v
            f = self.parent.get(f)
        if name in BUILTIN_NAMES:
            return Ext(name)
        self.note(f"undefined name {name}", node)
        self.event("undefined", name, st, node=node)
        return UNBOUND

    def bind(self, name, v, st, fid):
        c = st.heap[fid]
        st.heap[fid] = FrameC({**c.v, name: v})

    # ------------------------------------------------------------- fingerprint
    def fp(self, v, st, depth=0):
        """A hashable value number for any value."""
        if depth > 6:
            return "..."
        if isinstance(v, Sc):
            return ("p", v.p.ident())
        if isinstance(v, bool) or v is None:
            return v
        if isinstance(v, (int, float)):
            return ("p", P.P(v).ident())
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, StrT):
            l = v.lit()
            return ("s", l) if l is not None else ("str",) + v.parts
        if isinstance(v, Opaque):
            return v.key
        if isinstance(v, tuple):
            return ("t",) + tuple(self.fp(x, st, depth + 1) for x in v)
        if isinstance(v, slice):
            return ("slice", self.fp(v.start, st), self.fp(v.stop, st), self.fp(v.step, st))
        if isinstance(v, Choice):
            return ("choice", v.g.ident(), self.fp(v.a, st, depth + 1), self.fp(v.b, st, depth + 1))
        if isinstance(v, Arr):
            return v.fp()
        if isinstance(v, Ref) and st is not None:
            c = st.heap.get(v.id)
            if isinstance(c, NdC):
                return ("nd", c.arr.fp())
            if isinstance(c, DaC):
                return ("da", st.heap[st.heap[c.var].nd].arr.fp())
            if isinstance(c, DsC):
                return ("ds",) + tuple(
                    (k, self.fp_var(x, st)) for k, x in sorted(c.vars.items(), key=lambda z: str(z[0]))
                ) + ((c.rest.key,) if isinstance(c.rest, Opaque) else ())
            if isinstance(c, ListC):
                t = tuple(self.fp(x, st, depth + 1) for x in c.items)
                return (c.kind,) + t + ((("tail", self.fp(c.tail.elem, st, depth + 1)),) if isinstance(c.tail, Abs) else ())
            if isinstance(c, DictC):
                return ("dict",) + tuple(
                    (self.fp(k, st), self.fp(x.v if isinstance(x, Maybe) else x, st, depth + 1)) for k, x in c.d.items()
                )
            if isinstance(c, ObjC):
                return ("obj", c.cls.qual if isinstance(c.cls, Cls) else str(c.cls)) + tuple(
                    (k, self.fp(x, st, depth + 1)) for k, x in sorted(c.f.items())
                )
        if isinstance(v, Ref):
            return ("ref", v.id)
        if isinstance(v, Fn):
            return ("fn", v.qual)
        if isinstance(v, Ext):
            return ("ext", v.name)
        if isinstance(v, Cls):
            return ("cls", v.qual)
        if isinstance(v, Bound):
            return ("bound", self.fp(v.self, st, depth + 1), v.fn if isinstance(v.fn, str) else v.fn.qual)
        if isinstance(v, Partial):
            return ("partial", self.fp(v.fn, st), tuple(self.fp(a, st, depth + 1) for a in v.args),
                    tuple((k, self.fp(a, st, depth + 1)) for k, a in v.kw))
        if isinstance(v, Abs):
            return ("abs", v.key)
        return ("obj", type(v).__name__)

    def fp_var(self, x, st):
        if isinstance(x, Maybe):
            return ("maybe", x.g.ident(), self.fp_var(x.v, st))
        return st.heap[st.heap[x].nd].arr.fp()

    # ---------------------------------------------------------------- merging
    def merge_val(self, g, a, b, sa: State, sb: State, out: State):
        """Value that equals a where g else b."""
        if a is b:
            if isinstance(a, Ref):
                return a
            return a
        if g.is_one():
            return self.import_ref(a, sa, out)
        if g.is_zero():
            return self.import_ref(b, sb, out)
        if type(a) is type(b) and not isinstance(a, (Ref, Arr)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        num = (int, float, bool, Sc)
        if isinstance(a, num) and isinstance(b, num):
            x, y = self.sc(a), self.sc(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return Sc(P.where(g, x.p, y.p), frozenset(), "bool")
            return s_where(Sc(g, k="bool"), x, y)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            ca, cb = sa.heap.get(a.id), sb.heap.get(b.id)
            if type(ca) is type(cb) and ca is not None:
                try:
                    m = self.merge_content(g, ca, cb, sa, sb, out)
                except DefiniteError:  # of different shape: keep both
                    m = None
                if m is not None:
                    return self.alloc(out, m)
        # array vs scalar
        for x, y, sx, gg in ((a, b, sa, g), (b, a, sb, P.ONE - g)):
            if isinstance(x, Ref) and isinstance(y, num):
                c = sx.heap.get(x.id)
                if isinstance(c, NdC):
                    return self.alloc(out, NdC(elementwise(
                        lambda e, s=self.sc(y), h=gg: s_where(Sc(h, k="bool"), e, s), [c.arr])))
                if isinstance(c, DaC):
                    arr = sx.heap[sx.heap[c.var].nd].arr
                    r = elementwise(lambda e, s=self.sc(y), h=gg: s_where(Sc(h, k="bool"), e, s), [arr], True)
                    self.import_ref(x, sx, out)
                    nd = self.alloc(out, NdC(r))
                    at = self.alloc(out, DictC({}))
                    var = self.alloc(out, VarC(nd.id, at.id))
                    return self.alloc(out, DaC(var.id, c.coords, c.name))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(g, x, y, sa, sb, out) for x, y in zip(a, b))
        return Choice(g, self.import_ref(a, sa, out), self.import_ref(b, sb, out))

    def import_ref(self, v, s: State, out: State):
        return v  # heaps are merged key-wise, ids are global

    def merge_content(self, g, a, b, sa, sb, out):
        if a is b:
            return a
        if type(a) is not type(b):
            return None
        mv = lambda x, y: self.merge_val(g, x, y, sa, sb, out)
        if isinstance(a, FrameC):
            r = {}
            for k in list(a.v) + [k for k in b.v if k not in a.v]:
                x = a.v.get(k, UNBOUND)
                y = b.v.get(k, UNBOUND)
                r[k] = mv(x, y)
            return FrameC(r)
        if isinstance(a, NdC):
            if a.arr is b.arr:
                return NdC(a.arr, a.base if a.base == b.base else None, a.labels | b.labels)
            if a.arr.shape == b.arr.shape and a.arr.dims == b.arr.dims:
                pass
            gs = Sc(g, k="bool")
            arr = elementwise(lambda x, y: s_where(gs, x, y), [a.arr, b.arr],
                              kind=a.arr.kind if a.arr.kind == b.arr.kind else "num")
            return NdC(arr, a.base if a.base == b.base else None, a.labels | b.labels)
        if isinstance(a, VarC):
            if a.nd == b.nd:
                nd = a.nd
            else:
                m = self.merge_content(g, sa.heap[a.nd], sb.heap[b.nd], sa, sb, out)
                nd = self.alloc(out, m).id
            if a.attrs == b.attrs:
                at = a.attrs
            else:
                m = self.merge_content(g, sa.heap[a.attrs], sb.heap[b.attrs], sa, sb, out)
                at = self.alloc(out, m).id
            return VarC(nd, at, a.labels | b.labels)
        if isinstance(a, DaC):
            if a.var == b.var:
                var = a.var
            else:
                m = self.merge_content(g, sa.heap[a.var], sb.heap[b.var], sa, sb, out)
                var = self.alloc(out, m).id
            return DaC(var, self.merge_map(g, a.coords, b.coords, sa, sb, out), a.name if a.name == b.name else None)
        if isinstance(a, DsC):
            at = a.attrs
            if a.attrs != b.attrs:
                m = self.merge_content(g, sa.heap[a.attrs], sb.heap[b.attrs], sa, sb, out)
                at = self.alloc(out, m).id
            return DsC(
                self.merge_map(g, a.vars, b.vars, sa, sb, out),
                self.merge_map(g, a.coords, b.coords, sa, sb, out), at,
                a.rest if a.rest == b.rest else (a.rest or b.rest), a.labels | b.labels,
            )
        if isinstance(a, ListC):
            if a.kind == b.kind and len(a.items) == len(b.items) and a.tail is b.tail:
                return ListC(tuple(mv(x, y) for x, y in zip(a.items, b.items)), a.kind, a.tail)
            n = min(len(a.items), len(b.items))
            items = tuple(mv(x, y) for x, y in zip(a.items[:n], b.items[:n]))
            rest = [Maybe(g, x) for x in a.items[n:]] + [Maybe(P.ONE - g, x) for x in b.items[n:]]
            return ListC(items + tuple(rest), a.kind, a.tail or b.tail)
        if isinstance(a, DictC):
            r = {}
            keys = list(a.d) + [k for k in b.d if k not in a.d]
            for k in keys:
                if k in a.d and k in b.d:
                    x, y = a.d[k], b.d[k]
                    if isinstance(x, Maybe) or isinstance(y, Maybe):
                        gx, vx = (x.g, x.v) if isinstance(x, Maybe) else (P.ONE, x)
                        gy, vy = (y.g, y.v) if isinstance(y, Maybe) else (P.ONE, y)
                        gm = P.where(g, gx, gy)
                        v = mv(vx, vy)
                        r[k] = v if gm.is_one() else Maybe(gm, v)
                    else:
                        r[k] = mv(x, y)
                elif k in a.d:
                    x = a.d[k]
                    r[k] = Maybe(g * x.g, x.v) if isinstance(x, Maybe) else Maybe(g, x)
                else:
                    x = b.d[k]
                    h = P.ONE - g
                    r[k] = Maybe(h * x.g, x.v) if isinstance(x, Maybe) else Maybe(h, x)
            return DictC(r, a.rest or b.rest)
        if isinstance(a, ObjC):
            if a.cls is not b.cls:
                return None
            r = {}
            for k in list(a.f) + [k for k in b.f if k not in a.f]:
                r[k] = mv(a.f.get(k, UNBOUND), b.f.get(k, UNBOUND))
            return ObjC(a.cls, r)
        return None

    def merge_map(self, g, a, b, sa, sb, out):
        """Maps name -> var id | Maybe(id)."""
        if a is b or a == b:
            return a
        r = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is not None and y is not None:
                if x == y:
                    r[k] = x
                    continue
                gx, vx = (x.g, x.v) if isinstance(x, Maybe) else (P.ONE, x)
                gy, vy = (y.g, y.v) if isinstance(y, Maybe) else (P.ONE, y)
                if vx == vy:
                    v = vx
                else:
                    m = self.merge_content(g, sa.heap[vx], sb.heap[vy], sa, sb, out)
                    v = self.alloc(out, m).id
                gm = P.where(g, gx, gy)
                r[k] = v if gm.is_one() else Maybe(gm, v)
            else:
                z, h = (x, g) if x is not None else (y, P.ONE - g)
                if isinstance(z, Maybe):
                    r[k] = Maybe(h * z.g, z.v)
                else:
                    r[k] = Maybe(h, z)
        return r

    def merge(self, g, sa: State, sb: State) -> State:
        """State that is sa where g else sb (both alive)."""
        if not sa.alive:
            return sb
        if not sb.alive:
            return sa
        out = State({}, sa.g + sb.g)
        ha, hb = sa.heap, sb.heap
        h = out.heap
        later = []
        for i, ca in ha.items():
            cb = hb.get(i)
            if cb is None or ca is cb:
                h[i] = ca
            else:
                later.append((i, ca, cb))
        for i, cb in hb.items():
            if i not in ha:
                h[i] = cb
        for i, ca, cb in later:
            try:
                m = self.merge_content(g, ca, cb, sa, sb, out)
            except DefiniteError:
                m = None
                if isinstance(ca, DsC):
                    m = DsC({}, {}, ca.attrs, Opaque(("?merge",), "ds"))
                elif isinstance(ca, NdC):
                    m = NdC(symbol_array(("?merge", i), ca.arr.dims, ca.arr.shape))
            if m is None:
                self.note(f"cannot merge heap object {type(ca).__name__}/{type(cb).__name__}")
                m = ca
            h[i] = m
        return out

    def dist(self, st: State, vals, f):
        """Apply f(st, vals) distributing over Choice values."""
        for n, v in enumerate(vals):
            if isinstance(v, Choice):
                return self.fork_on(
                    st, v.g,
                    lambda s: self.dist(s, vals[:n] + [v.a] + vals[n + 1 :], f),
                    lambda s: self.dist(s, vals[:n] + [v.b] + vals[n + 1 :], f),
                )
        return f(st, vals)

    def fork_on(self, st: State, c, fa, fb):
        """Evaluate fa where c, fb elsewhere; merge states and values."""
        full = self.guard(st)
        if c.is_one() or (full * (P.ONE - c)).is_zero():
            return fa(st)
        if c.is_zero() or (full * c).is_zero():
            return fb(st)
        sa, sb = st.fork(), st.fork()
        sa.g = st.g * c
        sb.g = st.g * (P.ONE - c)
        va = vb = None
        try:
            va = fa(sa)
        except Dead:
            sa.alive = False
        try:
            vb = fb(sb)
        except Dead:
            sb.alive = False
        if not sa.alive and not sb.alive:
            st.alive = False
            raise Dead()
        if not sa.alive:
            st.adopt(sb)
            return vb
        if not sb.alive:
            st.adopt(sa)
            return va
        out = self.merge(c, sa, sb)
        v = self.merge_val(c, va, vb, sa, sb, out)
        st.adopt(out)
        return v

    # ------------------------------------------------------------- conversions
    def sc(self, v) -> Sc:
        if isinstance(v, Sc):
            return v
        if isinstance(v, bool):
            return Sc(P.P(v), frozenset(), "bool")
        if isinstance(v, (int, float)):
            return Sc(P.P(v))
        raise TypeError(v)

    def is_num(self, v):
        return isinstance(v, (int, float, Sc))

    def truth(self, v, st) -> P.Poly:
        if isinstance(v, Sc):
            return sc_truth(v)
        if v is None:
            return P.ZERO
        if isinstance(v, (bool, int, float, str)):
            return P.ONE if v else P.ZERO
        if isinstance(v, StrT):
            if any(isinstance(p, str) and p for p in v.parts):
                return P.ONE
            return P.fn("nonempty", self.fp(v, st), boolean=True) if v.parts else P.ZERO
        if isinstance(v, tuple):
            return P.ONE if v else P.ZERO
        if isinstance(v, Choice):
            return P.where(v.g, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC):
                if any(not isinstance(x, Maybe) for x in c.items):
                    return P.ONE
                if not c.items and c.tail is None:
                    return P.ZERO
                return P.fn("nonempty", self.fp(v, st), boolean=True)
            if isinstance(c, DictC):
                if any(not isinstance(x, Maybe) for x in c.d.values()):
                    return P.ONE
                if not c.d and c.rest is None:
                    return P.ZERO
            if isinstance(c, (NdC, DaC)):
                arr = c.arr if isinstance(c, NdC) else st.heap[st.heap[c.var].nd].arr
                if arr.ndim == 0 or all(e.one() for e in arr.shape):
                    return sc_truth(arr.at(tuple(("L", 0) for _ in arr.shape)))
            if isinstance(c, ObjC):
                return P.ONE
        if isinstance(v, (Fn, Cls, Ext, Bound)):
            return P.ONE
        if isinstance(v, Opaque) and v.hint == "found":
            return P.ONE
        if isinstance(v, Opaque) and v.hint in ("match",):
            return P.fn("truth", v.key, boolean=True)
        return P.fn("truth", self.fp(v, st), boolean=True)

    # -------------------------------------------------------------- statements
    def block(self, stmts, st: State, fid, ctx):
        for s in stmts:
            if not st.alive:
                return
            self.stmts += 1
            if self.t0 is not None and time.process_time() - self.t0 > ENOUGH:
                raise AnalysisError("the analysis takes too long")
            self.line = getattr(s, "lineno", self.line)
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.note(f"unsupported statement {type(s).__name__}", s)
                continue
            try:
                m(s, st, fid, ctx)
            except Dead:
                st.alive = False
                return

    def s_Expr(self, s, st, fid, ctx):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fid)

    def s_Pass(self, s, st, fid, ctx):
        pass

    def s_Import(self, s, st, fid, ctx):
        for a in s.names:
            name = a.name
            if name in self.project.sources:
                self.module(name)
            if a.asname:
                self.bind(a.asname, self.modval(name), st, fid)
            else:
                top = name.split(".")[0]
                self.bind(top, self.modval(top), st, fid)

    def modval(self, name):
        if name in self.project.sources:
            return self.module(name)
        return Ext(name)

    def s_ImportFrom(self, s, st, fid, ctx):
        mod = s.module or ""
        if s.level:
            cur = self.cur_module(fid).split(".")
            is_pkg = self.project.sources[".".join(cur)][0].endswith("__init__.py")
            base = cur[: len(cur) - s.level + (1 if is_pkg else 0)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in s.names:
            full = f"{mod}.{a.name}"
            if mod in self.project.sources:
                m = self.module(mod)
                fr = self.base.heap[m.frame].v
                if a.name in fr:
                    v = fr[a.name]
                elif full in self.project.sources:
                    v = self.module(full)
                else:
                    v = Opaque(("?import", full))
            elif full in self.project.sources:
                v = self.module(full)
            else:
                v = Ext(full)
            self.bind(a.asname or a.name, v, st, fid)

    def cur_module(self, fid):
        f = fid
        while f is not None:
            for m in self.modules.values():
                if m.frame == f:
                    return m.name
            f = self.parent.get(f)
        return ""

    def s_FunctionDef(self, s, st, fid, ctx):
        fn = self.make_fn(s, st, fid, ctx)
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fid)
        self.bind(s.name, v, st, fid)

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, s, st, fid, ctx):
        mod = self.cur_module(fid)
        owner = getattr(ctx, "cls_name", None)
        name = getattr(s, "name", "<lambda>")
        qual = f"{mod}.{owner}.{name}" if owner else f"{mod}.{name}"
        fn = Fn(s, mod, fid, qual, owner)
        fn.defaults = [self.ev(d, st, fid) for d in s.args.defaults]
        fn.kw_defaults = {
            a.arg: self.ev(d, st, fid)
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None
        }
        return fn

    def decorate(self, d, v, st, fid):
        base = d.func if isinstance(d, ast.Call) else d
        name = self.dotted(base, st, fid)
        args, kw = (), {}
        if isinstance(d, ast.Call):
            args = tuple(self.ev(a, st, fid) for a in d.args)
            kw = {k.arg: self.ev(k.value, st, fid) for k in d.keywords}
        if isinstance(v, Fn):
            v.decorators.append((name, args, kw, d))
            if name in ("functools.lru_cache", "functools.cache"):
                v.cached = True
                return v
            if name in ("classmethod", "staticmethod", "property"):
                v.kind = name
                return v
            if name in ("functools.wraps",):
                return v
        if name and (name.startswith("click.") or name.startswith("pydantic.") or ".command" in name or ".group" in name):
            return v
        fv = self.ev(d, st, fid)
        if isinstance(fv, (Fn, Partial)):
            return self.call(fv, [v], {}, st, d)
        return v

    def dotted(self, node, st, fid):
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value, st, fid)
            return f"{b}.{node.attr}" if b else node.attr
        if isinstance(node, ast.Name):
            try:
                v = self.lookup(node.id, st, fid)
            except Dead:
                return node.id
            if isinstance(v, Ext):
                return v.name
            if isinstance(v, Fn):
                return v.qual
            if isinstance(v, Module):
                return v.name
            return node.id
        if isinstance(node, ast.Call):
            return self.dotted(node.func, st, fid)
        return ""

    def s_ClassDef(self, s, st, fid, ctx):
        mod = self.cur_module(fid)
        bases = [self.ev(b, st, fid) for b in s.bases]
        cf = self.new_id()
        st.heap[cf] = FrameC({})
        self.parent[cf] = fid
        c2 = Ctx(cf)
        c2.cls_name = s.name
        fields = {}
        for b in s.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                fields[b.target.id] = b
        self.block(s.body, st, cf, c2)
        attrs = dict(st.heap[cf].v)
        cls = Cls(s.name, mod, f"{mod}.{s.name}", bases, attrs, fields, s)
        cls.frame = cf
        v = cls
        for d in reversed(s.decorator_list):
            name = self.dotted(d, st, fid)
            cls.attrs.setdefault("__decorators__", []).append(name)
        self.bind(s.name, v, st, fid)

    def s_Return(self, s, st, fid, ctx):
        v = self.ev(s.value, st, fid) if s.value is not None else None
        ctx.returns.append((st.fork(), v))
        st.alive = False

    def s_Assign(self, s, st, fid, ctx):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)

    def s_AnnAssign(self, s, st, fid, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)

    def name_value(self, v, st):
        """Abbreviate large array terms at assignments (SSA-style naming)."""
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            i = v.id
            if isinstance(c, DaC):
                i = st.heap[c.var].nd
                c = st.heap[i]
            if isinstance(c, NdC) and c.base is None and c.arr.kind == "num" and not getattr(c.arr, "is_named", False):
                st.heap[i] = NdC(A.named(c.arr), c.base, c.labels)

    def assign(self, t, v, st, fid):
        if isinstance(v, Ref):
            self.name_value(v, st)
        if isinstance(t, ast.Name):
            g = self.fn_frames.get(fid)
            if g and t.id in g:
                self.bind(t.id, v, st, g[t.id])
            else:
                self.bind(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            self.dist(st, [o], lambda s, a: self.lib.setattr_(self, s, a[0], t.attr, v, t))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev(t.slice, st, fid)
            self.dist(st, [o, k], lambda s, a: self.lib.setitem(self, s, a[0], a[1], v, t))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            self.note("unsupported assignment target", t)

    def unpack(self, elts, v, st, fid):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.concrete_items(v, st)
        if items is not None and any(isinstance(x, Maybe) for x in items):
            items = None
        if items is not None and star:
            i = star[0]
            tail = n - i - 1
            mid = self.alloc(st, ListC(tuple(items[i : len(items) - tail])))
            items = list(items[:i]) + [mid] + list(items[len(items) - tail :])
        if items is None:
            if isinstance(v, Choice):
                la, lb = self.concrete_items(v.a, st), self.concrete_items(v.b, st)
                if la is not None and lb is not None and len(la) == len(lb) == n:
                    items = [self.merge_val(v.g, x, y, st, st, st) for x, y in zip(la, lb)]
        if items is None:
            items = [self.lib.getitem(self, st, v, i, elts[i]) if isinstance(v, (Opaque, Ref)) else
                     self.unknown("unpack", v, i, st=st) for i in range(n)]
        if len(items) != n:
            self.note(f"unpack {len(items)} values into {n}", elts[0])
            items = [self.unknown("unpack", i, st=st) for i in range(n)]
        for e, x in zip(elts, items):
            self.assign(e, x, st, fid)

    def s_AugAssign(self, s, st, fid, ctx):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fid, t)
            rhs = self.ev(s.value, st, fid)
            r = self.dist(st, [cur, rhs], lambda q, a: self.lib.inplace(self, q, op, a[0], a[1], s))
            self.assign(t, r, st, fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            cur = self.getattr(o, t.attr, st, t)
            rhs = self.ev(s.value, st, fid)
            r = self.dist(st, [cur, rhs], lambda q, a: self.lib.inplace(self, q, op, a[0], a[1], s))
            self.dist(st, [o], lambda q, a: self.lib.setattr_(self, q, a[0], t.attr, r, t))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev(t.slice, st, fid)
            cur = self.dist(st, [o, k], lambda q, a: self.lib.getitem(self, q, a[0], a[1], t))
            rhs = self.ev(s.value, st, fid)
            r = self.dist(st, [cur, rhs], lambda q, a: self.lib.inplace(self, q, op, a[0], a[1], s))
            self.dist(st, [o, k], lambda q, a: self.lib.setitem(self, q, a[0], a[1], r, t, aug=True))

    def s_Delete(self, s, st, fid, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fid)
                k = self.ev(t.slice, st, fid)
                self.lib.delitem(self, st, o, k, t)
            elif isinstance(t, ast.Name):
                self.bind(t.id, UNBOUND, st, fid)

    def s_Global(self, s, st, fid, ctx):
        m = self.modules[self.cur_module(fid)].frame
        self.fn_frames.setdefault(fid, {}).update({n: m for n in s.names})

    def s_Nonlocal(self, s, st, fid, ctx):
        for n in s.names:
            f = self.parent.get(fid)
            while f is not None:
                if n in st.heap[f].v:
                    self.fn_frames.setdefault(fid, {})[n] = f
                    break
                f = self.parent.get(f)

    def decide(self, c, st):
        """1/0 if the condition is fixed by the current guard, else the poly."""
        if c.is_one() or c.is_zero():
            return c
        full = self.guard(st)
        if (full * c).is_zero():
            return P.ZERO
        if (full * (P.ONE - c)).is_zero():
            return P.ONE
        return c

    def s_If(self, s, st, fid, ctx):
        c = self.decide(self.cond(s.test, st, fid), st)
        if c.is_one():
            return self.block(s.body, st, fid, ctx)
        if c.is_zero():
            return self.block(s.orelse, st, fid, ctx)
        sa, sb = st.fork(), st.fork()
        sa.g = st.g * c
        sb.g = st.g * (P.ONE - c)
        self.block(s.body, sa, fid, ctx)
        self.block(s.orelse, sb, fid, ctx)
        if not sa.alive and not sb.alive:
            st.alive = False
            return
        st.adopt(self.merge(c, sa, sb))

    def cond(self, node, st, fid):
        return self.truth(self.ev(node, st, fid), st)

    def s_Assert(self, s, st, fid, ctx):
        c = self.decide(self.cond(s.test, st, fid), st)
        if c.is_one():
            return
        msg = None
        sf = st.fork()
        sf.g = st.g * (P.ONE - c)
        if s.msg is not None:
            try:
                msg = self.ev(s.msg, sf, fid)
            except Dead:
                pass
        self.do_raise(sf, Opaque(("exc", "AssertionError")), s, msg)
        st.g = st.g * c
        if c.is_zero():
            st.alive = False

    def s_Raise(self, s, st, fid, ctx):
        exc = None
        if s.exc is not None:
            exc = self.ev(s.exc, st, fid)
        else:
            exc = ctx.current_exc
        self.do_raise(st, exc, s)
        st.alive = False

    def exc_name(self, exc, st=None):
        if isinstance(exc, Opaque):
            if exc.key[0] == "exc":
                return exc.key[1]
            return str(exc.key[0])
        if isinstance(exc, Ext):
            return exc.name
        if isinstance(exc, Cls):
            return exc.qual
        if isinstance(exc, Ref) and st is not None:
            c = st.heap.get(exc.id)
            if isinstance(c, ObjC):
                return c.cls.qual if isinstance(c.cls, Cls) else str(c.cls)
        return "?"

    def do_raise(self, st, exc, node, msg=None):
        e = self.event("raise", self.exc_name(exc, st), st, [exc, msg], node=node)
        self.raises[-1].append(RaiseRec(st.g, st.fork(), exc, e))

    def s_Try(self, s, st, fid, ctx):
        pre = st.fork()
        g0 = st.g
        ev0 = len(self.events)
        self.raises.append([])
        body_st = st.fork()
        calls0 = self.callsites
        self.handling.append([
            t.name if isinstance(t, Ext) else getattr(t, "qual", "?") for h in s.handlers
            for t in (self.handler_types(h, pre, fid) or [Ext("BaseException")])])
        self.block(s.body, body_st, fid, ctx)
        self.handling.pop()
        recs = self.raises.pop()
        branches = []  # (guard, state) alive states after handlers
        handled = []
        # implicit exceptions of library calls in the body
        e_total = P.ZERO
        for h in s.handlers:
            types = self.handler_types(h, pre, fid)
            for r in list(recs):
                if self.matches(r.exc, types, r.st):
                    recs.remove(r)
                    r.event.caught = True
                    handled.append((h, r.st, r.exc))
            ext_types = [t for t in types if isinstance(t, Ext)] or ([Ext("BaseException")] if not types else [])
            if ext_types and self.callsites > calls0 and self.cfg.get("implicit_errors", True):
                self.excn += 1
                key = tuple(sorted(t.name for t in ext_types))
                e = P.sym("exc", key, self.exc_site(s, ev0), boolean=True)
                e = e * (P.ONE - e_total)
                e_total = e_total + e
                hs = pre.fork()
                hs.g = g0 * e
                exc = Opaque(("exc", ext_types[0].name))
                ctx_prev = ctx.current_exc
                handled.append((h, hs, exc))
        self.raises[-1].extend(recs)
        if not e_total.is_zero():
            keep = P.ONE - e_total
            if body_st.alive:
                body_st.g = body_st.g * keep
            # returns inside the body happen only when no exception occurred
            for n, (rs, v) in enumerate(ctx.returns):
                if not hasattr(rs, "_seen"):
                    pass
            self.gate_new_returns(ctx, pre, keep)
        if s.orelse and body_st.alive:
            self.block(s.orelse, body_st, fid, ctx)
        acc = body_st
        for h, hs, exc in handled:
            prev = ctx.current_exc
            ctx.current_exc = exc
            hs.alive = True
            # frames of callees that raised are irrelevant here
            if h.name:
                self.bind(h.name, exc, hs, fid)
            hg = hs.g
            self.block(h.body, hs, fid, ctx)
            ctx.current_exc = prev
            if acc.alive and hs.alive:
                acc = self.merge(self.rel(hg, g0), hs, acc)
            elif hs.alive:
                acc = hs
        if s.finalbody:
            if acc.alive:
                self.block(s.finalbody, acc, fid, ctx)
        st.adopt(acc)

    s_TryStar = s_Try

    def rel(self, g, g0):
        return g

    def gate_new_returns(self, ctx, pre, keep):
        for n, (rs, v) in enumerate(ctx.returns):
            if id(rs) not in ctx.seen_returns:
                if n >= ctx.try_mark:
                    rs.g = rs.g * keep
                ctx.seen_returns.add(id(rs))

    def exc_site(self, s, ev0):
        names = [e.name for e in self.events[ev0:] if e.kind == "call"]
        return (self.loc[-1].split(":")[-1], names[0] if names else "", len(self.active_loops), self.excn)

    def handler_types(self, h, st, fid):
        if h.type is None:
            return []
        t = self.ev(h.type, st, fid)
        return list(t) if isinstance(t, tuple) else [t]

    def matches(self, exc, types, st):
        if not types:
            return True
        name = self.exc_name(exc, st)
        for t in types:
            tn = t.name if isinstance(t, Ext) else (t.qual if isinstance(t, Cls) else "?")
            if tn in ("Exception", "BaseException") or tn == name or tn.split(".")[-1] == name.split(".")[-1]:
                return True
            if isinstance(exc, Ref):
                c = st.heap.get(exc.id)
                if isinstance(c, ObjC) and isinstance(c.cls, Cls) and c.cls.isa(tn):
                    return True
            bt = getattr(_b, tn, None)
            be = getattr(_b, name, None)
            if isinstance(bt, type) and isinstance(be, type) and issubclass(be, bt):
                return True
        return False

    def s_With(self, s, st, fid, ctx):
        c = s.items[0].context_expr
        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and ast.unparse(c.func).split(".")[-1] == "suppress":
            f = self.ev(c.func, st, fid)
            if isinstance(f, Ext) and f.name == "contextlib.suppress":
                return self.s_Try(self.as_try(s, c), st, fid, ctx)
        for it in s.items:
            cm = self.ev(it.context_expr, st, fid)
            v = self.lib.enter(self, st, cm, it)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid)
        self.block(s.body, st, fid, ctx)
        if st.alive:
            self.lib.exit_(self, st, cm, s)

    def as_try(self, s, c):
        """with suppress(X): body, as a try statement."""
        if not hasattr(s, "_as_try"):
            body = s.body if len(s.items) == 1 else [ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)]
            h = ast.ExceptHandler(type=ast.Tuple(elts=list(c.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
            s._as_try = ast.fix_missing_locations(ast.copy_location(ast.Try(body=body, handlers=[h], orelse=[], finalbody=[]), s))
        return s._as_try

    def s_Break(self, s, st, fid, ctx):
        ctx.breaks[-1].append(st.fork())
        st.alive = False

    def s_Continue(self, s, st, fid, ctx):
        ctx.continues[-1].append(st.fork())
        st.alive = False

    def s_For(self, s, st, fid, ctx):
        it = self.ev(s.iter, st, fid)
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= 400:
            broke = []
            for x in items:
                if not st.alive:
                    break
                ctx.breaks.append([])
                ctx.continues.append([])
                if isinstance(x, Maybe):
                    sk = st.fork()
                    sk.g = st.g * (P.ONE - x.g)
                    st.g = st.g * x.g
                    self.assign(s.target, x.v, st, fid)
                    self.block(s.body, st, fid, ctx)
                    if st.alive:
                        st.adopt(self.merge(x.g, st, sk))
                    else:
                        st.adopt(sk)
                else:
                    self.assign(s.target, x, st, fid)
                    self.block(s.body, st, fid, ctx)
                for c in ctx.continues.pop():
                    st.adopt(self.merge(c.g, c, st) if st.alive else c)
                broke += ctx.breaks.pop()
            if s.orelse and st.alive:
                self.block(s.orelse, st, fid, ctx)
            for b in broke:
                st.adopt(self.merge(b.g, b, st) if st.alive else b)
            return
        self.abstract_loop(s, st, fid, ctx, "for", it)

    def s_While(self, s, st, fid, ctx):
        # bounded concrete iteration first
        c = self.decide(self.cond(s.test, st.fork(), fid), st)
        if c.is_zero():
            return
        if c.is_one() and self.unrolls(s, st, fid, ctx, True) is not None:
            st.adopt(self.unrolls(s, st, fid, ctx, False))
            return
        self.abstract_loop(s, st, fid, ctx, "while", None)

    def unrolls(self, s, st, fid, ctx, muted):
        """State after a loop of which every test is decided, else None."""
        trial = st.fork()
        rets, excn = list(ctx.returns), self.excn
        if muted:
            self.muted += 1
            self.raises.append([])
        try:
            for _ in range(64):
                if not trial.alive:
                    return trial
                c = self.decide(self.cond(s.test, trial, fid), trial)
                if c.is_zero():
                    if s.orelse:
                        self.block(s.orelse, trial, fid, ctx)
                    return trial
                if not c.is_one():
                    return None
                ctx.breaks.append([])
                ctx.continues.append([])
                try:
                    self.block(s.body, trial, fid, ctx)
                except Dead:
                    trial.alive = False
                cs, bs = ctx.continues.pop(), ctx.breaks.pop()
                for k in cs:
                    trial.adopt(self.merge(k.g, k, trial) if trial.alive else k)
                if bs and trial.alive:
                    return None
                if bs:
                    for b in bs:
                        trial.adopt(self.merge(b.g, b, trial) if trial.alive else b)
                    return trial
            return None
        finally:
            if muted:
                self.muted -= 1
                self.raises.pop()
                self.excn = excn
                ctx.returns[:] = rets

    # loops ----------------------------------------------------------------
    def iter_elem(self, it, st, lid):
        return self.lib.iter_elem(self, st, it, lid)

    def abstract_loop(self, s, st, fid, ctx, kind, it):
        self.loopn += 1
        lid = f"loop{self.loopn}"
        rec = LoopRec(lid, self.where_am_i(), kind)
        rec.iter = it
        rec.fid = fid
        rec.init = st.fork()
        K = P.sym("K", lid, nonneg=True)
        P.INT.add(P.ATOM_ID[("sym", "K", lid)])
        rec.K = K
        mod: dict = {}
        ind: dict = {}
        self.active_loops.append(lid)
        nloop = self.loopn
        ret0, brk = len(ctx.returns), None

        def one(muted):
            self.loopn = nloop
            head = st.fork()
            self.apply_mu(head, rec.init, mod, ind, lid, K)
            snap = head.fork()
            body = head
            if muted:
                self.muted += 1
            excn = self.excn
            self.raises.append([])
            rets = list(ctx.returns)
            ctx.breaks.append([])
            ctx.continues.append([])
            try:
                if kind == "while":
                    c = self.decide(self.cond(s.test, body, fid), body)
                else:
                    c = P.ONE
                    self.assign(s.target, self.iter_elem(it, body, lid), body, fid)
                rec.test = c
                exit_st = body.fork()
                if not c.is_one():
                    body.g = body.g * c
                self.block(s.body, body, fid, ctx)
            except Dead:
                body.alive = False
            finally:
                if muted:
                    self.muted -= 1
                    self.excn = excn
            conts = ctx.continues.pop()
            brks = ctx.breaks.pop()
            rs = self.raises.pop()
            for c2 in conts:
                body.adopt(self.merge(c2.g, c2, body) if body.alive else c2)
            if muted:
                ctx.returns[:] = rets
            else:
                self.raises[-1].extend(rs)
            return snap, body, brks

        for _ in range(7):
            snap, end, brks = one(True)
            ends = [e for e in [end] + brks if e.alive]
            new = {}
            for e in ends:
                for k, v in self.changed(snap, e).items():
                    if k not in mod:
                        new[k] = v
            if not new:
                break
            mod.update(new)
        # induction variables
        if end.alive:
            for cell in list(mod):
                iv = self.induction(cell, rec.init, snap, end, lid, mod)
                if iv is not None:
                    ind[cell] = iv
        ctx.try_mark = len(ctx.returns)
        snap, end, brks = one(False)
        rec.head, rec.end = snap, end
        rec.mod = mod
        rec.ind = ind
        if not self.muted:
            self.loops.append(rec)
        self.active_loops.pop()
        out = snap.fork()
        out.g = rec.init.g
        if kind == "for":
            # the target keeps its last value
            pass
        out.alive = True
        if kind == "while" and rec.test.is_one():
            # left by break only
            out.alive = False
            for b in brks:
                out.adopt(self.merge(P.sym("broke", lid, boolean=True), b, out) if out.alive else b)
                out.g = rec.init.g
            brks = []
        for b in brks:
            out = self.merge(P.sym("broke", lid, boolean=True), b, out)
            out.g = rec.init.g
        st.adopt(out)
        if s.orelse:
            self.block(s.orelse, st, fid, ctx)

    def changed(self, a: State, b: State):
        """Cells that differ between two states."""
        out = {}
        for i, ca in sorted(a.heap.items(), key=lambda z: z[0]):
            cb = b.heap.get(i)
            if cb is None or cb is ca:
                continue
            if isinstance(ca, FrameC):
                for k in list(ca.v) + [k for k in cb.v if k not in ca.v]:
                    x, y = ca.v.get(k, UNBOUND), cb.v.get(k, UNBOUND)
                    if x is y:
                        continue
                    if k not in ca.v:
                        continue  # first bound inside the loop
                    if self.same(x, y):
                        continue
                    out[("local", i, k)] = x
            elif isinstance(ca, ObjC):
                for k in list(ca.f) + [k for k in cb.f if k not in ca.f]:
                    x, y = ca.f.get(k, UNBOUND), cb.f.get(k, UNBOUND)
                    if x is not y and not self.same(x, y):
                        out[("field", i, k)] = x
            elif isinstance(ca, NdC):
                if ca.arr is not cb.arr and ca.arr.fp() != cb.arr.fp():
                    out[("nd", i)] = ca
            elif isinstance(ca, VarC):
                if ca.nd != cb.nd:
                    out[("var", i)] = ca
            elif isinstance(ca, DsC):
                if ca.vars != cb.vars:
                    for n, x in ca.vars.items():
                        y = cb.vars.get(n)
                        if x != y and not isinstance(x, Maybe):
                            out[("ds", i, n)] = ca
            elif isinstance(ca, ListC):
                if ca.items != cb.items:
                    out[("list", i)] = ca
            elif isinstance(ca, DictC):
                if ca.d != cb.d:
                    out[("dict", i)] = ca
        return out

    def same(self, x, y):
        try:
            return type(x) is type(y) and x == y
        except Exception:
            return False

    def apply_mu(self, st, init, mod, ind, lid, K):
        for cell, v in mod.items():
            if cell[0] in ("local", "field"):
                _, i, k = cell
                if cell in ind:
                    base, step = ind[cell]
                    nv = Sc(base.p + K * step.p, k=base.k)
                else:
                    nv = self.mu_value(v, st, f"{k}@{lid}")
                c = st.heap[i]
                if isinstance(c, FrameC):
                    st.heap[i] = FrameC({**c.v, k: nv})
                else:
                    st.heap[i] = ObjC(c.cls, {**c.f, k: nv})
            elif cell[0] == "nd":
                c = st.heap[cell[1]]
                st.heap[cell[1]] = NdC(self.mu_arr(c.arr, f"mu{cell[1]}@{lid}"), c.base, c.labels)
            elif cell[0] == "var":
                c = st.heap[cell[1]]
                arr = self.mu_arr(st.heap[c.nd].arr, f"muvar{cell[1]}@{lid}")
                nid = self.memo_consts.setdefault(("munid", cell, lid), self.new_id())
                st.heap[nid] = NdC(arr)
                st.heap[cell[1]] = VarC(nid, c.attrs, c.labels)
            elif cell[0] == "ds":
                c = st.heap[cell[1]]
                v0 = init.heap[cell[1]].vars[cell[2]]
                vc = init.heap[v0]
                old = init.heap[vc.nd].arr
                arr = self.mu_arr(old, f"mu{cell[1]}.{cell[2]}@{lid}")
                nid = self.memo_consts.setdefault(("munid", cell, lid), self.new_id())
                vid = self.memo_consts.setdefault(("muvid", cell, lid), self.new_id())
                st.heap[nid] = NdC(arr)
                st.heap[vid] = VarC(nid, vc.attrs, vc.labels)
                st.heap[cell[1]] = DsC({**c.vars, cell[2]: vid}, c.coords, c.attrs, c.rest, c.labels)
            elif cell[0] == "list":
                c = st.heap[cell[1]]
                st.heap[cell[1]] = ListC(c.items, c.kind, Abs(Opaque(("mu", lid, cell[1])), ("mu", lid)))
            elif cell[0] == "dict":
                c = st.heap[cell[1]]
                st.heap[cell[1]] = DictC(
                    {k: Opaque(("mu", lid, cell[1], str(k))) for k in c.d}, Opaque(("mu", lid, cell[1])))

    def mu_arr(self, arr, name):
        return A.symbol_array(name, arr.dims, arr.shape, arr.kind)

    def mu_value(self, v, st, name):
        if isinstance(v, bool):
            return Sc(P.sym("mu", name, boolean=True), k="bool")
        if isinstance(v, (int, float)):
            return Sc(P.sym("mu", name))
        if isinstance(v, Sc):
            return Sc(P.sym("mu", name, boolean=v.k == "bool"), k=v.k)
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, NdC):
                return self.alloc(st, NdC(self.mu_arr(c.arr, name)))
            if isinstance(c, DaC):
                arr = st.heap[st.heap[c.var].nd].arr
                nd = self.alloc(st, NdC(self.mu_arr(arr, name)))
                at = self.alloc(st, DictC({}))
                var = self.alloc(st, VarC(nd.id, at.id))
                return self.alloc(st, DaC(var.id, c.coords, c.name))
            return v
        if isinstance(v, (Fn, Cls, Ext)):
            return v
        return Opaque(("mu", name))

    def induction(self, cell, init, snap, end, lid, mod):
        if cell[0] not in ("local", "field"):
            return None
        _, i, k = cell
        get = lambda s: (s.heap[i].v if isinstance(s.heap[i], FrameC) else s.heap[i].f).get(k, UNBOUND)
        v0, v1, v2 = get(init), get(snap), get(end)
        num = (int, float, Sc)
        if not all(isinstance(x, num) and not isinstance(x, bool) for x in (v0, v1, v2)):
            return None
        v0, v1, v2 = self.sc(v0), self.sc(v1), self.sc(v2)
        step = v2.p - v1.p
        for a in P.all_atoms(step):
            key = P.ATOMS[a]
            if key[0] == "sym" and key[1] == "mu":
                return None
            if key[0] == "sym" and any(isinstance(x, str) and x.endswith("@" + lid) for x in key[1:]):
                return None
        if step.is_zero():
            return None
        return (v0, Sc(step))

    # --------------------------------------------------------------- iteration
    def concrete_items(self, v, st):
        """Elements of a statically known collection, else None."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Opaque) and v.key[0] == "items":
            return list(v.key[1])
        if isinstance(v, (self.lib.VarsV, self.lib.CoordsV)):
            c = st.heap.get(v.owner.id)
            if isinstance(c, DsC) and (c.rest is None or isinstance(v, self.lib.CoordsV)):
                m = c.vars if isinstance(v, self.lib.VarsV) else c.coords
                return [Maybe(x.g, k) if isinstance(x, Maybe) else k for k, x in m.items()]
            if isinstance(c, DaC):
                return [Maybe(x.g, k) if isinstance(x, Maybe) else k for k, x in c.coords.items()]
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if isinstance(c, ListC) and c.tail is None:
                return list(c.items)
            if isinstance(c, DictC) and c.rest is None:
                return [Maybe(x.g, k) if isinstance(x, Maybe) else k for k, x in c.d.items()]
            if isinstance(c, DsC) and c.rest is None:
                return [Maybe(x.g, k) if isinstance(x, Maybe) else k for k, x in c.vars.items()]
            if isinstance(c, ObjC) and isinstance(c.cls, Cls) and c.cls.isa("typing.NamedTuple"):
                return [c.f[k] for k in c.cls.all_fields()]
            if isinstance(c, (NdC, DaC)):
                arr = c.arr if isinstance(c, NdC) else st.heap[st.heap[c.var].nd].arr
                if arr.ndim == 1 and arr.shape[0].sym is None:
                    return [arr.at((("L", k),)) for k in range(arr.shape[0].c)]
        return None

    # ------------------------------------------------------------- expressions
    def ev(self, node, st, fid):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.note(f"unsupported expression {type(node).__name__}", node)
            return Opaque(("?" + type(node).__name__, id(node)))
        return m(node, st, fid)

    def e_Constant(self, n, st, fid):
        v = n.value
        if isinstance(v, (bytes, complex)):
            return Opaque(("const", repr(v)))
        return v

    def e_Name(self, n, st, fid):
        v = self.lookup(n.id, st, fid, n)
        if isinstance(v, Choice):
            full = self.guard(st)
            while isinstance(v, Choice):  # what it is on this path
                if (full * (P.ONE - v.g)).is_zero():
                    v = v.a
                elif (full * v.g).is_zero():
                    v = v.b
                else:
                    break
        return v

    def e_Tuple(self, n, st, fid):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fid)
                items = self.concrete_items(v, st)
                if items is None:
                    return self.unknown("starred", v, st=st)
                out += items
            else:
                out.append(self.ev(e, st, fid))
        return tuple(out)

    def e_List(self, n, st, fid):
        t = self.e_Tuple(n, st, fid)
        if isinstance(t, Opaque):
            return t
        return self.alloc(st, ListC(t))

    def e_Set(self, n, st, fid):
        t = self.e_Tuple(n, st, fid)
        if isinstance(t, Opaque):
            return t
        return self.alloc(st, ListC(t, "set"))

    def e_Dict(self, n, st, fid):
        d = {}
        rest = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, st, fid)
                c = st.heap.get(x.id) if isinstance(x, Ref) else None
                if isinstance(c, DictC):
                    d.update(c.d)
                    rest = rest or c.rest
                else:
                    rest = self.unknown("dictstar", x, st=st)
                continue
            kk = self.lib.hashable(self, self.ev(k, st, fid), st)
            d[kk] = self.ev(v, st, fid)
        return self.alloc(st, DictC(d, rest))

    def e_Slice(self, n, st, fid):
        f = lambda x: None if x is None else self.lib.constify(self.ev(x, st, fid))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Attribute(self, n, st, fid):
        o = self.ev(n.value, st, fid)
        return self.getattr(o, n.attr, st, n)

    def getattr(self, o, name, st, node=None):
        return self.dist(st, [o], lambda s, a: self.lib.getattr_(self, s, a[0], name, node))

    def e_Subscript(self, n, st, fid):
        o = self.ev(n.value, st, fid)
        k = self.ev(n.slice, st, fid)
        return self.dist(st, [o, k], lambda s, a: self.lib.getitem(self, s, a[0], a[1], n))

    def e_BinOp(self, n, st, fid):
        a = self.ev(n.left, st, fid)
        b = self.ev(n.right, st, fid)
        op = BINOPS[type(n.op)]
        return self.dist(st, [a, b], lambda s, x: self.lib.binop(self, s, op, x[0], x[1], n))

    def e_UnaryOp(self, n, st, fid):
        v = self.ev(n.operand, st, fid)
        if isinstance(n.op, ast.Not):
            if isinstance(v, (bool, int, float, str, tuple, type(None))):
                return not v
            return Sc(P.ONE - self.truth(v, st), k="bool")
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(n.op)]
        return self.dist(st, [v], lambda s, a: self.lib.unop(self, s, op, a[0], n))

    def e_BoolOp(self, n, st, fid):
        is_and = isinstance(n.op, ast.And)

        def rec(i, s):
            v = self.ev(n.values[i], s, fid)
            if i == len(n.values) - 1:
                return v
            c = self.decide(self.truth(v, s), s)
            if c.is_one():
                return rec(i + 1, s) if is_and else v
            if c.is_zero():
                return v if is_and else rec(i + 1, s)
            vb = v if not (isinstance(v, Sc) and v.k == "bool") else (
                Sc(P.ZERO, k="bool") if is_and else Sc(P.ONE, k="bool"))
            if is_and:
                return self.fork_on(s, c, lambda q: rec(i + 1, q), lambda q: vb)
            return self.fork_on(s, c, lambda q: vb, lambda q: rec(i + 1, q))

        return rec(0, st)

    def e_Compare(self, n, st, fid):
        left = self.ev(n.left, st, fid)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st, fid)
            r = self.dist(
                st, [left, right], lambda s, x: self.lib.compare(self, s, op, x[0], x[1], n)
            )
            if acc is None:
                acc = r
            else:
                ta, tb = self.truth(acc, st), self.truth(r, st)
                x = ta * tb
                acc = True if x.is_one() else (False if x.is_zero() else Sc(x, k="bool"))
            left = right
        return acc

    def e_IfExp(self, n, st, fid):
        c = self.decide(self.cond(n.test, st, fid), st)
        return self.fork_on(
            st, c, lambda s: self.ev(n.body, s, fid), lambda s: self.ev(n.orelse, s, fid)
        )

    def e_NamedExpr(self, n, st, fid):
        v = self.ev(n.value, st, fid)
        self.assign(n.target, v, st, fid)
        return v

    def e_Lambda(self, n, st, fid):
        return self.make_fn(n, st, fid, Ctx(fid))

    def e_JoinedStr(self, n, st, fid):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st, fid)
                spec = ""
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, st, fid)
                    spec = sv if isinstance(sv, str) else (sv.lit() or "?")
                conv = "" if v.conversion in (-1, None) else chr(v.conversion)
                parts.append(self.lib.format_value(self, st, x, spec, conv))
        r = mkstr(parts)
        l = r.lit()
        return l if l is not None else r

    def e_FormattedValue(self, n, st, fid):
        return self.e_JoinedStr(ast.JoinedStr(values=[n]), st, fid)

    def e_Starred(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def e_Await(self, n, st, fid):
        return self.ev(n.value, st, fid)

    def comp(self, n, st, fid, produce):
        """Evaluate comprehension generators; produce(st, frame) per element."""
        cf = self.new_id()
        st.heap[cf] = FrameC({})
        self.parent[cf] = fid
        out = []
        tail = [None]

        def rec(i, s):
            if i == len(n.generators):
                out.append(produce(s, cf))
                return
            gen = n.generators[i]
            it = self.ev(gen.iter, s, cf if i else fid)
            items = self.concrete_items(it, s)
            if items is None and isinstance(it, Choice):
                items = None
            if items is None:
                self.loopn += 1
                lid = f"comp{self.loopn}"
                el = self.lib.iter_elem(self, s, it, lid)
                self.assign(gen.target, el, s, cf)
                g = P.ONE
                for c in gen.ifs:
                    g = g * self.cond(c, s, cf)
                k = len(out)
                rec(i + 1, s)
                for j in range(k, len(out)):
                    tail[0] = Abs(out[j], ("comp", self.fp(it, s), self.fp(out[j], s)))
                del out[k:]
                return
            for x in items:
                g = P.ONE
                if isinstance(x, Maybe):
                    g, x = x.g, x.v
                self.assign(gen.target, x, s, cf)
                for c in gen.ifs:
                    g = g * self.cond(c, s, cf)
                    if g.is_zero():
                        break
                if g.is_zero():
                    continue
                k = len(out)
                rec(i + 1, s)
                if not g.is_one():
                    for j in range(k, len(out)):
                        y = out[j]
                        out[j] = Maybe(g * y.g, y.v) if isinstance(y, Maybe) else Maybe(g, y)

        rec(0, st)
        return out, tail[0]

    def e_ListComp(self, n, st, fid):
        out, tail = self.comp(n, st, fid, lambda s, f: self.ev(n.elt, s, f))
        return self.alloc(st, ListC(tuple(out), "list", tail))

    def e_SetComp(self, n, st, fid):
        out, tail = self.comp(n, st, fid, lambda s, f: self.ev(n.elt, s, f))
        return self.alloc(st, ListC(tuple(out), "set", tail))

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st, fid):
        out, tail = self.comp(
            n, st, fid, lambda s, f: (self.lib.hashable(self, self.ev(n.key, s, f), s), self.ev(n.value, s, f))
        )
        d = {}
        for x in out:
            if isinstance(x, Maybe):
                d[x.v[0]] = Maybe(x.g, x.v[1])
            else:
                d[x[0]] = x[1]
        rest = None
        if tail is not None:
            rest = Opaque(("abs", tail.key))
            self.memo_consts[("absdict", rest.key)] = tail.elem
        return self.alloc(st, DictC(d, rest))

    def e_Call(self, n, st, fid):
        f = self.ev(n.func, st, fid)
        args = []
        kw = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                items = self.concrete_items(v, st)
                if items is None:
                    args.append(Opaque(("?star", self.fp(v, st))))
                else:
                    args += [x.v if isinstance(x, Maybe) else x for x in items]
            else:
                args.append(self.ev(a, st, fid))
        for k in n.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                c = st.heap.get(v.id) if isinstance(v, Ref) else None
                if isinstance(c, DictC):
                    for kk, x in c.d.items():
                        kw[kk if isinstance(kk, str) else str(kk)] = x.v if isinstance(x, Maybe) else x
                    if c.rest is not None:
                        kw["**"] = c.rest
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.line = n.lineno
        return self.call(f, args, kw, st, n)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, st, node=None):
        self.callsites += 1
        if isinstance(f, Choice):
            return self.dist(st, [f], lambda s, a: self.call(a[0], args, kw, s, node))
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + args, {**dict(f.kw), **kw}, st, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, node)
        if isinstance(f, Cls):
            return self.lib.construct(self, st, f, args, kw, node)
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self] + args, kw, st, node)
            return self.dist(
                st, [f.self], lambda s, a: self.lib.method(self, s, a[0], f.fn, args, kw, node)
            )
        if isinstance(f, Ext):
            return self.lib.call_ext(self, st, f.name, args, kw, node)
        if isinstance(f, Ref):
            c = st.heap.get(f.id)
            if isinstance(c, ObjC) and isinstance(c.cls, Cls):
                m = c.cls.lookup("__call__")
                if isinstance(m, Fn):
                    return self.call_fn(m, [f] + args, kw, st, node)
        return self.lib.call_opaque(self, st, f, args, kw, node)

    def call_fn(self, f: Fn, args, kw, st: State, node=None):
        hook = self.hooks.get(f.qual)
        if hook is not None:
            self.called[f.qual] = self.called.get(f.qual, 0) + 1
            e = self.event("stub", f.qual, st, args, kw, node)
            r = hook(self, st, args, kw, node)
            return r
        if self.depth > 40:
            self.note(f"call depth exceeded at {f.qual}", node)
            return self.unknown("deep:" + f.qual, *args, st=st)
        self.called[f.qual] = self.called.get(f.qual, 0) + 1
        a = f.node.args
        fid = self.new_id()
        frame = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        for n, name in enumerate(names):
            if n < len(args):
                frame[name] = args[n]
            elif name in kw:
                frame[name] = kw[name]
            elif n >= len(names) - nd:
                frame[name] = f.defaults[n - (len(names) - nd)]
            else:
                self.note(f"missing argument {name} of {f.qual}", node)
                self.event("badcall", f.qual, st, args, kw, node, extra=f"missing {name}")
                frame[name] = Opaque(("?missing", name))
        if len(args) > len(names):
            if a.vararg:
                frame[a.vararg.arg] = tuple(args[len(names):])
            else:
                self.event("badcall", f.qual, st, args, kw, node, extra="too many arguments")
        elif a.vararg:
            frame[a.vararg.arg] = ()
        known = set(names)
        for x in a.kwonlyargs:
            known.add(x.arg)
            if x.arg in kw:
                frame[x.arg] = kw[x.arg]
            elif x.arg in f.kw_defaults:
                frame[x.arg] = f.kw_defaults[x.arg]
        extra = {k: v for k, v in kw.items() if k not in known}
        if a.kwarg:
            frame[a.kwarg.arg] = self.alloc(st, DictC(extra))
        elif extra and "**" not in extra:
            self.event("badcall", f.qual, st, args, kw, node, extra=f"unexpected {sorted(extra)}")
        st.heap[fid] = FrameC(frame)
        self.parent[fid] = f.env
        ctx = Ctx(fid)
        saved_g = st.g
        line = self.line
        self.outer.append(saved_g)
        st.g = P.ONE
        self.raises.append([])
        self.loc.append(f"{f.qual}")
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, fid)
                ctx.returns.append((st.fork(), v))
                st.alive = False
            else:
                gen = is_generator(f.node)
                if gen:
                    raise Unsupported("generator function")
                self.block(f.node.body, st, fid, ctx)
        except Unsupported as e:
            self.note(f"unsupported in {f.qual}: {e}", node)
            ctx.returns.append((st.fork(), self.unknown("call:" + f.qual, *args, st=st)))
            st.alive = False
        except Dead:
            st.alive = False
        finally:
            self.depth -= 1
            self.loc.pop()
            self.outer.pop()
            self.line = line
            recs = self.raises.pop()
        for r in recs:
            r.g = saved_g * r.st.g
            r.st.g = r.g
            r.st.heap.pop(fid, None)
        self.raises[-1].extend(recs)
        rets = list(ctx.returns)
        if st.alive:
            rets.append((st.fork(), None))
        if not rets:
            st.alive = False
            st.g = saved_g
            raise Dead()
        acc, val = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            g2 = s2.g
            out = self.merge(g2, s2, acc)
            val = self.merge_val(g2, v2, val, s2, acc, out)
            acc = out
        st.adopt(acc)
        st.alive = True
        st.g = saved_g * st.g
        if not has_closure(f.node):
            st.heap.pop(fid, None)
        if f.cached:
            self.lib.label_cached(self, st, val, f.qual)
        if f.kind == "property":
            return val
        return val

    # top-level API ---------------------------------------------------------
    def run(self, qual, args=(), kw=None, st=None):
        f = self.lookup_qual(qual)
        if f is None:
            raise AnalysisError(f"anchor {qual} not found")
        st = st or self.start()
        try:
            v = self.call(f, list(args), dict(kw or {}), st)
        except Dead:
            v = None
        return v, st


class Ctx:
    """Per-function control context."""

    def __init__(self, fid):
        self.fid = fid
        self.returns: list = []
        self.breaks: list = []
        self.continues: list = []
        self.current_exc = None
        self.seen_returns: set = set()
        self.try_mark = 0


_gen: dict = {}


def is_generator(node):
    r = _gen.get(id(node))
    if r is None:
        r = False
        stack = list(getattr(node, "body", []))
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _gen[id(node)] = r
    return r


_clo: dict = {}


def has_closure(node):
    r = _clo.get(id(node))
    if r is None:
        body = node.body if isinstance(node.body, list) else [node.body]
        r = any(
            isinstance(x, (ast.FunctionDef, ast.Lambda))
            for b in body for x in ast.walk(b)
        )
        _clo[id(node)] = r
    return r
