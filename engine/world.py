"""Analysis contexts: symbolic configuration, symbolic input data, entry points."""

from __future__ import annotations

import ast
import time

from . import poly as P
from .report import AnchorLost
from . import arr as A
from .arr import Ext as Len, Sc, symbol_array
from .interp import Interp, Project
from .lib import mk_da, mk_ds, mk_nd, mk_var
from .lib2 import *  # noqa: F401,F403 (registers the library models)
from .values import (
    Choice, Cls, DaC, DictC, DsC, Ext, Fn, FrameC, ListC, Maybe, NdC, ObjC, Opaque, Ref, State, StrT, VarC, mkstr,
)

NY, NX = Len("latitude", 0), Len("longitude", 0)
GRID = ("latitude", "longitude")
LAST = (("H", 0),)


def psym(name, **k):
    return P.sym(name, **k)


def time_sym(name):
    return Sc(P.sym(name), k="time")


def path_sym(*name):
    return StrT((("sym",) + name,), True)


def str_sym(*name):
    return StrT((("sym",) + name,))


def constants(dim, values):
    """A coordinate of known values."""
    xs = [Sc(P.P(P.Fraction(v))) for v in values]

    def at(ix):
        b, k = ix[0]
        return xs[k] if b == "L" else xs[len(xs) - 1 - k] if b == "H" else A.select(ix[0], xs)
    return A.Arr((dim,), (Len(None, len(xs)),), at)


PARAMETERS = {
    "wam2layers.tracking.core.calculate_fz": ["F", "S0", "S1", "dt", "kvf", "periodic_x"],
    "wam2layers.tracking.core.stabilize_fluxes": ["F", "S", "progress_tracker", "config", "t"],
    "wam2layers.tracking.io.load_data": ["t", "config", "subset"],
    "wam2layers.utils.grid.get_grid_info": ["ds"],
    "wam2layers.tracking.io.input_path": ["date", "input_dir"],
    "wam2layers.tracking.io.output_path": ["date", "config"],
    "wam2layers.tracking.io.read_or_retry": ["filename"],
    "wam2layers.tracking.io.load_tagging_region": ["config", "t"],
    "wam2layers.utils.calendar.validate_calendar_type": ["config"],
    "wam2layers.utils.calendar.fix_deprecated_frequency": ["freq"],
    "wam2layers.utils.calendar.round_cftime": ["date", "freq", "how"],
    "wam2layers.utils.calendar.cftime_from_iso": ["timestamp", "calendar"],
    "wam2layers.utils.calendar.cftime_from_timestamp": ["timestamp", "calendar"],
    "wam2layers.utils.shapefile_mask.create_mask": ["ds", "shape"],
    "wam2layers.preprocessing.shared.preprocess": ["datetimes", "data_source", "config"],
    "wam2layers.tracking.shared.initialize_tagging_region": ["bbox", "lat", "lon"],
}


def parameters(f):
    a = f.node.args if isinstance(f, Fn) and isinstance(f.node, ast.FunctionDef) else None
    return None if a is None else [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class World:
    """One analysis context."""

    def __init__(self, project=None, hooks=None, cfg=None):
        self.project = project or Project()
        self.I = Interp(self.project, hooks, cfg)
        self.I.load_all()
        self.st = self.I.start()
        self.len = {"latitude": NY, "longitude": NX}
        self.loads = []
        self.values = {}

    def fix(self, **values):
        """Give coordinates known values."""
        for d, v in values.items():
            self.values[d] = list(v)
            self.len[d] = Len(None, len(v))

    # -- entry points and cuts --------------------------------------------
    def find(self, qual):
        """The function or class of that name; where it was moved, if it moved."""
        f = self.I.lookup_qual(qual)
        if isinstance(f, (Fn, Cls)):
            return f
        name = qual.split(".")[-1]
        found = []
        for mod in self.project.sources:
            g = self.I.lookup_qual(mod + "." + name)
            if isinstance(g, (Fn, Cls)) and g not in found:
                found.append(g)
        params = PARAMETERS.get(qual)
        if params is not None and len(found) == 1 and parameters(found[0]) != params:
            # another function of that name
            found = self.renamed(qual, params) or found
        if len(found) == 1:
            return found[0]
        found = self.renamed(qual, params)
        if len(found) == 1:
            return found[0]
        raise AnchorLost(f"{qual} is not defined in the package")

    def renamed(self, qual, params):
        """Functions of the module, or else the package, with the parameters of one that is gone."""
        if params is None:
            return []
        for scope in (qual.rsplit(".", 1)[0], ".".join(qual.split(".")[:2]) + "."):
            out = []
            for mod in self.project.sources:
                if mod.startswith(scope):
                    m = self.I.module(mod)
                    for v in self.I.base.heap[m.frame].v.values():
                        if v not in out and isinstance(v, Fn) and v.module == mod and parameters(v) == params:
                            out.append(v)
            if out:
                return out
        return []

    def cut(self, qual, hook):
        """Replace a function of the project by a model."""
        self.I.hooks[self.find(qual).qual] = hook

    def call(self, qual, args=(), kw=None, st=None):
        self.I.t0 = time.process_time()
        return self.I.call(self.find(qual), list(args), dict(kw or {}), st or self.st)

    # -- configuration ---------------------------------------------------
    def config(self, **over):
        I, st = self.I, self.st
        cls = I.lookup_qual("wam2layers.config.Config")
        bb = I.lookup_qual("wam2layers.config.BoundingBox")
        f = {}
        for name in cls.all_fields():
            if name == "model_config":
                continue
            f[name] = self.default_field(name)
        for k, v in over.items():
            if v == "bbox":
                v = self.bbox(k)
            f[k] = v
        self.cfgref = I.alloc(st, ObjC(cls, f))
        return self.cfgref

    def bbox(self, tag):
        I, st = self.I, self.st
        bb = I.lookup_qual("wam2layers.config.BoundingBox")
        return I.alloc(st, ObjC(bb, {k: Sc(P.sym("bbox", tag, k)) for k in ("west", "south", "east", "north")}))

    def default_field(self, name):
        if name.endswith("_date"):
            return time_sym(name)
        if name in ("preprocessed_data_folder", "output_folder"):
            return path_sym("cfg", name)
        if name == "filename_template":
            return str_sym("cfg", name)
        if name == "timestep":
            return Sc(P.sym("timestep", pos=True))
        if name == "kvf":
            return Sc(P.sym("kvf", nonneg=True))
        if name in ("restart", "periodic_boundary", "parallel_preprocess"):
            return Sc(P.sym("cfg", name, boolean=True), k="bool")
        if name in ("pressure_boundary_factor", "pressure_boundary_offset"):
            return Sc(P.sym(name, pos=True))
        if name == "level_layer_boundary":
            return Sc(P.sym(name, pos=True))
        if name == "parallel_processes":
            return None
        if name == "levels":
            return Opaque(("cfg", "levels"))
        if name == "tracking_domain":
            return None
        if name == "tagging_region":
            return self.bbox("tagging_region")
        return str_sym("cfg", name)

    # -- data ----------------------------------------------------------------
    def coord(self, name, ext=None):
        I, st = self.I, self.st
        if name in self.values:
            return mk_var(I, st, mk_nd(I, st, constants(name, self.values[name])).id)
        ext = ext or self.len.get(name) or Len(name, 0)
        arr = symbol_array(name, (name,), (ext,))
        nd = mk_nd(I, st, arr)
        return mk_var(I, st, nd.id)

    def grid_coords(self):
        if not hasattr(self, "_gc"):
            self._gc = {d: self.coord(d) for d in GRID}
        return dict(self._gc)

    def field(self, name, pos=False, nonneg=False, dims=GRID, shape=None):
        shape = shape or tuple(self.len.get(d) or Len(d, 0) for d in dims)
        return symbol_array(name, dims, shape, pos=pos, nonneg=nonneg)

    def dataset(self, st, fields, coords=None):
        """fields: name -> Arr."""
        I = self.I
        c = coords if coords is not None else self.grid_coords()
        vars = {}
        for k, a in fields.items():
            nd = mk_nd(I, st, a)
            vars[k] = mk_var(I, st, nd.id)
        return mk_ds(I, st, vars, c)


FLUX_VARS = ["fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip"]
STATE_VARS = ["s_upper", "s_lower"]


def load_data_stub(w: World):
    def hook(I, st, args, kw, node):
        vals = list(args) + list(kw.values())
        ts = [v for v in vals if isinstance(v, Sc)]
        t = kw.get("t") or (ts[0] if ts else vals[0])
        subset = next((v for v in vals if v in ("states", "fluxes")), "fluxes")
        tid = t.p.ident() if isinstance(t, Sc) else ("?", I.fp(t, st))
        w.loads.append({"t": t, "subset": subset, "tid": tid, "loops": tuple(I.active_loops), "g": I.guard(st),
                        "muted": bool(I.muted), "loc": I.where_am_i()})
        out = {}
        names = STATE_VARS if subset == "states" else FLUX_VARS
        for n in names:
            pos = n.startswith("s_")
            nn = n in ("evap", "precip")
            out[n] = w.field((n, tid), pos=pos, nonneg=nn)
        return w.dataset(st, out)

    return hook


def real_call(I, qual, args, kw, st, node):
    """Interpret the function itself although a hook is installed for it."""
    h = I.hooks.pop(qual)
    try:
        return I.call(I.lookup_qual(qual), list(args), dict(kw), st, node)
    finally:
        I.hooks[qual] = h


def flux_dataset(st, args, kw):
    """The dataset among the arguments that holds the fluxes."""
    for v in list(args) + list(kw.values()):
        c = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(c, DsC) and {"fx_upper", "fy_lower"} <= set(c.vars):
            return v
    raise AnchorLost("no dataset with the fluxes is passed to the stability correction")


def cut_stabilize(w: World):
    """Interpret the stability correction, then abstract the fluxes it leaves
    behind to fresh symbols (their values are decided separately)."""
    qual = w.find("wam2layers.tracking.core.stabilize_fluxes").qual

    def hook(I, st, args, kw, node):
        F = flux_dataset(st, args, kw)
        before = st.fork()
        ret = real_call(I, qual, args, kw, st, node)
        w.snap.setdefault("stabilize", []).append(
            {"before": before, "args": list(args), "kw": dict(kw), "after": st.fork(), "ret": ret, "F": F,
             "muted": bool(I.muted)})
        for x in {F, ret if isinstance(ret, Ref) else F}:
            fresh(I, st, x)
        return ret

    def fresh(I, st, F):
        c = st.heap[F.id]
        if not isinstance(c, DsC):
            return
        vars = dict(c.vars)
        for n in ("fx_upper", "fy_upper", "fx_lower", "fy_lower"):
            nd = mk_nd(I, st, w.field(("stab", n)))
            vars[n] = mk_var(I, st, nd.id)
        st.heap[F.id] = DsC(vars, c.coords, c.attrs, c.rest, c.labels)

    return hook


def cut_fz(w: World):
    """Interpret the vertical flux closure for its effects, abstract its value."""
    qual = w.find("wam2layers.tracking.core.calculate_fz").qual

    def hook(I, st, args, kw, node):
        before = st.fork()
        ret = real_call(I, qual, args, kw, st, node)
        w.snap.setdefault("fz", []).append(
            {"before": before, "args": list(args), "kw": dict(kw), "after": st.fork(), "ret": ret,
             "muted": bool(I.muted)})
        return mk_da(I, st, w.field("f_vert"), w.grid_coords())

    return hook


def region_file(w, kind):
    """A tagging region from a file: 'nc2' (lat, lon), 'nc3' (time, lat, lon), 'shp'."""
    I = w.I
    ext = ".shp" if kind == "shp" else ".nc"
    path = StrT((("sym", "cfg", "tagging_region"), "/region" + ext), True)
    w.region_loads = []
    gc, tc = w.grid_coords(), w.coord("time")

    def open_ds(I, st, p, name, kw, node):
        if isinstance(p, StrT) and p.parts == path.parts:
            w.region_loads.append(("open", name, tuple(I.active_loops)))
            if kind == "nc3":
                a = w.field("region", dims=("time",) + GRID)
                coords = {**gc, "time": tc}
                return mk_da(I, st, a, coords)
            return mk_da(I, st, w.field("region"), w.grid_coords())
        return None

    def sel(I, st, s, sel, kw, node):
        c = st.heap.get(s.id) if isinstance(s, Ref) else None
        if not isinstance(c, DaC) or set(sel) != {"time"}:
            return None
        a = st.heap[st.heap[c.var].nd].arr
        if a.dims != ("time",) + GRID:
            return None
        t = sel["time"]
        tid = t.p.ident() if isinstance(t, Sc) else ("?", I.fp(t, st))
        w.region_loads.append(("sel", t, kw.get("method"), tuple(I.active_loops)))
        return mk_da(I, st, w.field(("region", tid)), w.grid_coords())

    I.cfg["open_dataset"] = open_ds
    I.cfg["sel"] = sel

    def mask(I, st, args, kw, node):
        w.region_loads.append(("mask", [I.fp(a, st) for a in args], {k: I.fp(v, st) for k, v in kw.items()}))
        return mk_da(I, st, w.field("region"), w.grid_coords())

    w.cut("wam2layers.utils.shapefile_mask.create_mask", mask)
    return path


def tracking_world(module, direction, periodic, restart=False, region="bbox", cut=True, grid=None, progress=False, io=None, fixed=None, **over):
    """Interpret run_experiment of a tracking module with load_data abstracted
    (or with input access modelled by ``io``)."""
    w = World()
    if fixed:
        w.fix(**fixed)
    if grid:
        w.len = {"latitude": Len(None, grid[0]), "longitude": Len(None, grid[1])}
    I = w.I
    if io is None:
        w.cut("wam2layers.tracking.io.load_data", load_data_stub(w))
    else:
        io(w)
    if not progress:
        w.cut("wam2layers.utils.profiling.ProgressTracker", lambda I, st, args, kw, node: Opaque(("progress",), "progress"))
    w.snap = {}
    if cut:
        I.hooks[w.find("wam2layers.tracking.core.stabilize_fluxes").qual] = cut_stabilize(w)
        I.hooks[w.find("wam2layers.tracking.core.calculate_fz").qual] = cut_fz(w)
    if region == "bbox":
        over.setdefault("tagging_region", "bbox")
    else:
        over.setdefault("tagging_region", region_file(w, region))
    cfgref = w.config(tracking_direction=direction, periodic_boundary=periodic, restart=restart, **over)
    w.cut("wam2layers.config.Config.from_yaml", lambda I, st, args, kw, node: cfgref)
    I.cfg["calendar"] = over.get("calendar", "standard")
    w.opened = []
    if restart is not False and "open_dataset" not in I.cfg:
        names = ["s_track_upper_restart", "s_track_lower_restart"] + (
            ["e_track", "tagged_precip"] if direction == "backward" else
            ["p_track_upper", "p_track_lower", "tagged_evap"]) + ["losses", "gains"]
        one = Len(None, 1)
        gc, tc = w.grid_coords(), w.coord("time", one)

        def open_out(I, st, p, name, kw, node):
            if not (isinstance(p, StrT) and p.parts and p.parts[0] == ("sym", "cfg", "output_folder")):
                return None
            w.opened.append((p, tuple(I.active_loops)))
            dims = ("time",) + GRID
            shape = (one,) + tuple(w.len[d] for d in GRID)
            return w.dataset(st, {n: symbol_array(("restart", n), dims, shape) for n in names}, {**gc, "time": tc})

        I.cfg["open_dataset"] = open_out
    w.result = I.run(f"wam2layers.tracking.{module}.run_experiment", [path_sym("config_file")], {}, w.st)
    return w
