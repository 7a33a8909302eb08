"""Stability warnings.  A warning is given, and the field of correction factors
written, exactly when the horizontal fluxes of a layer are corrected at a cell more
than 10% more strongly than ever warned about, or else on more than 5% of the cells
and on at least 10% more than at the last such warning.  Files of this kind, and the
mask made of a shapefile, go to the debug folder of the run, which is made unless it
is there."""

import re
from fractions import Fraction as Fr

from engine import poly as P
from engine.arr import Arr, Ext as Len, Sc
from engine.arr import DefiniteError, Unsupported
from engine.interp import Dead
from engine.lib import mk_nd
from engine.values import DaC, DsC, NdC, Ref, StrT
from engine.world import World, region_file

from .common import ds_arr

NLAT, NLON = 4, 10
LEVELS = ("upper", "lower")
T = 3600
# steps: layer -> correction factors of the first cells (the others are not corrected)
SEQUENCES = {
    "area": [
        {}, {"upper": [".95"] * 2}, {"upper": [".95"] * 3}, {"lower": [".96"] * 3}, {"lower": [".95"] * 4}, {"upper": [".93"] * 4},
        {"lower": [".92"] * 40}, {"upper": [".92"] * 40}],
    "strength": [
        {"lower": [".92"]}, {"upper": [".9"]}, {"upper": [".85"]}, {"lower": [".83"]}, {"lower": [".8"]}, {"upper": [".79", ".6"]},
        {"lower": [".58", ".57"]}, {"lower": [".5"] * 40}, {"upper": [".47"] * 40}, {"upper": [".4"]}],
    "both": [
        {"lower": [".5"] * 3}, {"lower": [".5"] * 2}, {"lower": [".5"] * 3}, {"upper": [".3"] * 5}, {"upper": [".3"] * 4},
        {"lower": [".4"] * 3}],
    "calm cells": [{"upper": [None, ".95", None, ".95"]}, {"upper": [None] * 8 + [".95"] * 3}, {"lower": [None] * 30 + [".7"]}, {"upper": [None] * 40}],
}
FIELDS = ("e_track", "tagged_precip", "tagged_evap", "p_track_lower", "p_track_upper", "s_track_upper_restart", "s_track_lower_restart", "losses", "gains")
CORE = "wam2layers.tracking.core.stabilize_fluxes"
TRACKER = "wam2layers.utils.profiling.ProgressTracker"


class Run:
    """The stability correction of successive time steps with known fluxes."""

    def __init__(self, direction):
        self.w = w = World()
        w.fix(latitude=range(NLAT, 0, -1), longitude=range(NLON))
        I, st = w.I, w.st
        I.cfg["implicit_errors"] = False
        one = Sc(P.ONE)
        column = Arr(("latitude",), (Len(None, NLAT),), lambda ix: one)

        def grid(I, st, args, kw, node):
            return (mk_nd(I, st, column), one, mk_nd(I, st, column))
        w.cut("wam2layers.utils.grid.get_grid_info", grid)
        self.cfg = w.config(timestep=Sc(P.P(T)), tracking_direction=direction, tagging_region="bbox")
        zero = self.field([0] * (NLAT * NLON))
        self.tracker = w.call(TRACKER, [w.dataset(st, {n: zero for n in FIELDS})],
                              {"mode": "backtrack" if direction == "backward" else "forwardtrack", "periodic_x": False})

    @staticmethod
    def field(vals):
        vals = [Sc(P.P(Fr(v))) for v in vals]

        def pos(k, n):
            return k[1] if k[0] == "L" else n - 1 - k[1]
        return Arr(("latitude", "longitude"), (Len(None, NLAT), Len(None, NLON)), lambda ix: vals[pos(ix[0], NLAT) * NLON + pos(ix[1], NLON)])

    def step(self, factors, t):
        """Events of one step: (warnings, writes, folders made)."""
        w = self.w
        st = w.st
        F, S = {}, {}
        for l in LEVELS:
            c = factors.get(l, [])
            c = list(c) + ["1.25"] * (NLAT * NLON - len(c))
            S["s_" + l] = self.field([2] * (NLAT * NLON))
            F["fx_" + l] = self.field([0] * (NLAT * NLON))
            # at most half of the storage (of 2) moves in a step
            F["fy_" + l] = self.field([0 if x is None else (-1) ** n / Fr(x) / T for n, x in enumerate(c)])
        n = len(w.I.events)
        w.call(CORE, [w.dataset(st, F), w.dataset(st, S), self.tracker, self.cfg, t])
        return w.I.events[n:]


class Criteria:
    """The criteria as documented."""

    def __init__(self):
        self.factor, self.percent = Fr(1), Fr(0)

    def warns(self, fs):
        fs = [Fr(x) for x in fs if x is not None]
        strongest = min([x for x in fs if x < 1], default=Fr(1))
        percent = Fr(100 * len([x for x in fs if x < 1]), NLAT * NLON)
        if strongest < self.factor / Fr("1.1"):
            self.factor = strongest
            return True
        if percent > 5 and percent > self.percent * Fr("1.1"):
            self.percent = percent
            return True
        return False


def text(v):
    if not isinstance(v, (StrT, str)):
        return None
    return "".join(x if isinstance(x, str) else "{" + ":".join(map(str, x)) + "}" for x in (v.parts if isinstance(v, StrT) else (v,)))


def time_in(v):
    """Formats with which the time is in a path: [(time, format)]."""
    return [(x[1], x[2]) for x in getattr(v, "parts", ()) if isinstance(x, tuple) and x[0] in ("time", "strftime")]


def in_debug(rep, tag, e, made, where):
    """Is a file written to the debug folder, which is there by then?"""
    p = text(e.args[1] if len(e.args) > 1 else None)
    if p is None:
        rep.undecided("folder", tag, "the path is not followed")
        return
    rep.holds("folder", tag, p.startswith("{sym:cfg:output_folder}/") and "/debug/" in p and ".." not in p,
              f"written to {p}, not in the debug folder of the run", where)
    parent = p.rsplit("/", 1)[0]
    mine = [m for m in made if text(m.args[0]) == parent and m.seq < e.seq]
    safe = [m for m in mine if m.kw.get("exist_ok") is True or not (m.guard.is_const() and m.guard.const() == 1)]
    rep.holds("folder", tag + ":made", bool(mine), f"{parent} is not made", where)
    rep.holds("folder", tag + ":again", len(safe) == len(mine), "the run stops when the folder is already there", where)


def certain(e):
    return e.guard.const() if e.guard.is_const() else None


def warnings(rep):
    for direction in ("backward", "forward") if rep.tier == "thorough" else ("backward",):
        for name, seq in SEQUENCES.items():
            if direction == "forward":
                name += ":forward"
            try:
                r = Run(direction)
            except (Dead, DefiniteError) as e:
                rep.holds("goes on", name, False, f"the warnings cannot be set up: {e}", TRACKER)
                continue
            ref = Criteria()
            for k, factors in enumerate(seq):
                tag = f"{name}:{k}".replace(" ", "_")
                t = Sc(P.sym("t", k), k="time")
                try:
                    ev = r.step(factors, t)
                except (Dead, DefiniteError) as e:
                    rep.holds("goes on", tag, False, f"the run stops: {e}", CORE)
                    break
                want = [(l, factors.get(l, [])) for l in LEVELS if ref.warns(factors.get(l, []))]
                logs = [e for e in ev if e.kind == "log" and e.name.rsplit(".", 1)[-1] in ("warning", "warn")]
                files = [e for e in ev if e.kind == "to_netcdf"]
                if any(certain(e) is None for e in logs + files):
                    rep.undecided("warned", tag, "whether a warning is given is not followed")
                    break
                logs, files = ([e for e in x if certain(e) == 1] for x in (logs, files))
                made = [e for e in r.w.I.events if e.kind == "fs" and e.name in ("mkdir", "makedirs")]
                why = f"{len(factors)} corrected layer(s): {', '.join(f'{l} {len(c)} cells from {min([x for x in c if x], default=1)}' for l, c in factors.items())}"
                rep.holds("warned", tag, len(logs) == len(want), f"{len(logs)} warnings instead of {len(want)} after {why}", CORE)
                rep.holds("written", tag, len(files) == len(want), f"{len(files)} files instead of {len(want)} after {why}", CORE)
                if len(files) != len(want):
                    break
                for e, (l, c) in zip(files, want):
                    in_debug(rep, tag, e, made, e.loc)
                    own(rep, tag, e, t)
                    content(rep, tag, e, list(c) + [1] * (NLAT * NLON - len(c)))
            rep.world(r.w)


def own(rep, tag, e, t):
    ts = time_in(e.args[1])
    p = text(e.args[1]) or ""
    if not ts:
        if re.search(r"\{(?!sym:cfg)", p):
            rep.undecided("own", tag, f"the name {p} is not followed")
        else:
            rep.holds("own", tag, False, f"all steps write to {p}", e.loc)
        return
    fm = "".join(f for _, f in ts)
    date = all(re.search("%-?" + x, fm) for x in "Ymd") or "%F" in fm or re.search("%Y.*%j", fm) or "%c" in fm
    clock = all(re.search("%-?" + x, fm) for x in "HMS") or "%T" in fm or "%X" in fm or "%c" in fm or "%s" in fm
    rep.holds("own", tag, bool(date and clock or "%s" in fm), f"the name has the time as {fm} only", e.loc)


def content(rep, tag, e, want):
    st = e.extra
    c = st.heap.get(e.args[0].id) if isinstance(e.args[0], Ref) else None
    a = st.heap[st.heap[c.var].nd].arr if isinstance(c, DaC) else None
    if isinstance(c, DsC) and len(c.vars) == 1:
        a = ds_arr(st, c, next(iter(c.vars)))
    if a is None or sorted(a.dims) != ["latitude", "longitude"]:
        rep.undecided("content", tag, "what is written is not followed")
        return
    bad = []
    for n, x in enumerate(want):
        if x is None:
            continue
        ix = {"latitude": ("L", n // NLON), "longitude": ("L", n % NLON)}
        v = a.at(tuple(ix[d] for d in a.dims))
        if not v.p.is_const():
            rep.undecided("content", tag, "a value is not followed")
            return
        if v.p.const() != min(Fr(x), 1):
            bad.append((n, v.p.const()))
    rep.holds("content", tag, not bad, f"cell {bad[0][0] if bad else ''} has the factor {float(bad[0][1]) if bad else ''} instead of {want[bad[0][0]] if bad else ''}", e.loc)


def region(rep):
    w = World()
    path = region_file(w, "shp")
    I = w.I
    I.cfg["implicit_errors"] = False
    cfg = w.config(tagging_region=path)
    where = "load_tagging_region"
    f = w.st.heap[cfg.id].f
    w.st.heap[cfg.id] = type(w.st.heap[cfg.id])(w.st.heap[cfg.id].cls, {**f, "tracking_domain": None})
    try:
        r = w.call("wam2layers.tracking.io.load_tagging_region", [cfg])
    except (Dead, DefiniteError) as e:
        rep.holds("goes on", "shapefile", False, f"the mask of a shapefile stops the run: {e}", where)
        return
    rep.world(w)
    files = [e for e in I.events if e.kind == "to_netcdf"]
    made = [e for e in I.events if e.kind == "fs" and e.name in ("mkdir", "makedirs")]
    c = w.st.heap.get(r.id) if isinstance(r, Ref) else None
    got = w.st.heap[w.st.heap[c.var].nd].arr if isinstance(c, DaC) else None
    for n, e in enumerate(files):
        in_debug(rep, f"shapefile:{n}", e, made, e.loc)
        s = e.extra
        o = s.heap.get(e.args[0].id) if isinstance(e.args[0], Ref) else None
        a = s.heap[s.heap[o.var].nd].arr if isinstance(o, DaC) else ds_arr(s, o, next(iter(o.vars))) if isinstance(o, DsC) and o.vars else None
        if a is None or got is None or a.ndim != 2 or got.ndim != 2:
            rep.undecided("content", f"shapefile:{n}", "the mask is not followed")
            continue
        ix = {"latitude": ("G", 0), "longitude": ("G", 0)}
        rep.equal("content", f"shapefile:{n}", a.at(tuple(ix[d] for d in a.dims)).p, got.at(tuple(ix[d] for d in got.dims)).p,
                  None, where=e.loc, what="the mask written")


def check(rep):
    rep.rule("warned", "number of warnings of a step = number of layers that meet a criterion, in sequences of steps with known fluxes")
    rep.rule("written", "one file of correction factors per warning, none otherwise")
    rep.rule("content", "file = limited / original flux of the layer, at every cell; mask of the shapefile as used")
    rep.rule("folder", "files go to the debug folder of the output folder, made before, which may be there already")
    rep.rule("own", "the name of a file has the time to the second")
    rep.rule("goes on", "neither warnings nor a shapefile stop the run")
    try:
        warnings(rep)
    except (Unsupported, AttributeError, KeyError, TypeError, IndexError, ValueError) as e:
        rep.undecided("warned", "sequences", f"{type(e).__name__}: {e}"[:160])
    region(rep)
