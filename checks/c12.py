"""Cached data.  Data handed out by a cache are never changed in place, so every
read of the same time yields what the file holds, and runs do not depend on what
was computed from the data before."""

import ast
import os

from engine import poly as P
from engine.arr import DefiniteError, Sc, Unsupported
from engine.interp import AnalysisError, Dead
from engine.values import DaC, DsC, Maybe, NdC, Ref, VarC
from engine.world import FLUX_VARS, STATE_VARS, World, path_sym, tracking_world

from .c11 import Load, model_io, time_values
from .common import ds_arr
from .prep import Prep


def reach(st, v):
    """Mutable objects reachable from a value."""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        ids = []
        if isinstance(x, Ref):
            ids = [x.id]
        elif isinstance(x, int) and x in st.heap:
            ids = [x]
        for i in ids:
            if i in out:
                continue
            out.add(i)
            c = st.heap.get(i)
            if isinstance(c, DsC):
                todo += [y.v if isinstance(y, Maybe) else y for y in c.vars.values()]
            elif isinstance(c, DaC):
                todo.append(c.var)
            elif isinstance(c, VarC):
                todo.append(c.nd)
    return out


def cached_functions(w):
    """Functions of the package that keep what they return."""
    out = {}
    for mod, (path, tree) in w.project.sources.items():
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list:
                    f = d.func if isinstance(d, ast.Call) else d
                    name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                    if name in ("cache", "lru_cache", "cached_property"):
                        out[f"{mod}.{n.name}"] = (path, n, tree)
    return out


def changing_globals(tree):
    """Names of a module whose values may change after it was imported."""
    out = set()
    top = {t.id for s in tree.body if isinstance(s, (ast.Assign, ast.AnnAssign))
           for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        local = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        local |= {a.arg for a in f.args.args + f.args.kwonlyargs}
        glob = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
        out |= glob & {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(f):
            t = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "add", "update", "setdefault", "pop", "clear", "extend", "insert", "remove"):
                t = n.func.value
            if isinstance(t, ast.Name) and t.id in top and (t.id not in local or t.id in glob):
                out.add(t.id)
    return out


def hidden(w, mod, fn, seen=None):
    """Changing module state a function (and what it calls in its module) reads."""
    seen = set() if seen is None else seen
    path, tree = w.project.sources[mod]
    if fn.name in seen:
        return set()
    seen.add(fn.name)
    ch = changing_globals(tree)
    defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    local = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    local |= {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local:
            if n.id in ch:
                out.add(f"{n.id} ({os.path.basename(path)}:{n.lineno})")
            if n.id in defs:
                out |= hidden(w, mod, defs[n.id], seen)
    return out


def judge(rep, tag, w, seen):
    ev = [e for e in w.I.events if e.kind == "mutate"]
    n = 0
    for e in ev:
        if e.extra:
            n += 1
            k = (e.loc, e.name, tuple(sorted(e.extra)))
            if k not in seen:
                seen.add(k)
                rep.holds("shared", f"{tag}:{e.loc}", False,
                          f"{e.name} changes in place what {', '.join(sorted(e.extra))} keeps", e.loc)
    rep.holds("shared", f"{tag}:all", n == 0, f"{n} of {len(ev)} in-place changes reach cached data", tag)
    return len(ev)


def check(rep):
    rep.rule("shared", "no in-place change reaches an object a cached function returned")
    rep.rule("separate", "reading the same time twice yields separate objects")
    rep.rule("key", "a cached function reads nothing that changes between calls but its arguments (and files)")
    rep.rule("second", "reading t after another read (other time, variables, folder, domain) yields what reading t alone yields")
    w = World()
    cached = cached_functions(w)
    for q, (path, fn, _) in sorted(cached.items()):
        h = hidden(w, q.rsplit(".", 1)[0], fn)
        rep.holds("key", q, not h, "depends on " + ", ".join(sorted(h)), f"{path}:{fn.lineno}")
    seen = set()
    for module, direction in (("backtrack", "backward"), ("forwardtrack", "forward")):
        w = tracking_world(module, direction, False, io=model_io)
        rep.world(w)
        judge(rep, direction, w, seen)
    for src, lt, lv in (("ERA5", "pressure_levels", "All"), ("ERA5", "model_levels", [Sc(P.sym("lv", 0)), Sc(P.sym("lv", 1))]),
                        ("ARCO", "pressure_levels", [Sc(P.sym("lv", 0))]), ("CMIP", "pressure_levels", "All")):
        tag = f"{src}:{lt}"
        try:
            p = Prep(src, lt, lv)
            p.day() if src != "CMIP" else p.input_data()
        except (Dead, DefiniteError, Unsupported, AnalysisError, KeyError, AttributeError, TypeError, IndexError) as e:
            rep.undecided("shared", tag, f"not interpreted to the end: {type(e).__name__}: {e}"[:160])
        rep.world(p.w)
        judge(rep, tag, p.w, seen)
    for subset, names in (("fluxes", FLUX_VARS), ("states", STATE_VARS)):
        twice(rep, subset)
        second(rep, subset, names)


def twice(rep, subset):
    w = World()
    model_io(w)
    cfg = w.config()
    t = Sc(P.sym("K"), k="time")
    a, b = (w.call("wam2layers.tracking.io.load_data", [t, cfg, subset]) for _ in "ab")
    both = reach(w.st, a) & reach(w.st, b)
    both = {i for i in both if isinstance(w.st.heap[i], (DsC, NdC))}
    # grid coordinates are never assigned into
    shared = {i for i in both if not (isinstance(w.st.heap[i], NdC) and w.st.heap[i].arr.ndim <= 1)}
    rep.holds("separate", subset, isinstance(a, Ref) and isinstance(b, Ref) and not shared,
              "two reads of the same time share their data", "load_data")


def second(rep, subset, names):
    """What the first read was must not matter."""
    ref = Load(subset, False)
    other = Sc(P.sym("K2"), k="time")
    for what in ("time", "folder", "domain"):
        w = World()
        opened, selected, cuts = [], [], []
        model_io(w, opened, selected, cuts)
        cfg = w.config()
        t = Sc(P.sym("K"), k="time")
        first = {"time": cfg, "folder": w.config(preprocessed_data_folder=path_sym("cfg", "other_folder")),
                 "domain": w.config(tracking_domain="bbox")}[what]
        w.call("wam2layers.tracking.io.load_data", [other if what == "time" else t, first, subset])
        n = len(opened), len(cuts)
        out = w.call("wam2layers.tracking.io.load_data", [t, cfg, subset])
        rep.world(w)
        c, c0 = w.st.heap.get(out.id), ref.st.heap.get(ref.out.id)
        if not isinstance(c, DsC) or not isinstance(c0, DsC):
            rep.undecided("second", f"{subset}:{what}", "the result is not a dataset")
            continue
        for v in names:
            if v not in c.vars or v not in c0.vars:
                continue
            g = (("G", 0), ("G", 0))
            rep.equal("second", f"{subset}:after other {what}:{v}", ds_arr(w.st, c, v).at(g).p, ds_arr(ref.st, c0, v).at(g).p,
                      time_values, where="load_data", what=v, tries=20)
        rep.holds("second", f"{subset}:after other {what}:domain", len(cuts) == n[1],
                  "data are cut although no domain is set", "load_data")
