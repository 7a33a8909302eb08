"""What the tracking checks share: one symbolic time step of each tracker."""

from __future__ import annotations

from engine import poly as P
from engine.arr import Sc
from engine.report import AnchorLost
from engine.values import DaC, DictC, DsC, Maybe, NdC, ObjC, Ref, StrT, VarC
from engine.world import tracking_world

MODULE = {"backward": "backtrack", "forward": "forwardtrack"}
TAGGED = {"backward": "tagged_precip", "forward": "tagged_evap"}
TRACKED = {"backward": ["e_track"], "forward": ["p_track_upper", "p_track_lower"]}
STATES = ["s_track_upper_restart", "s_track_lower_restart"]
LAYERS = ["upper", "lower"]

ROWS = [("L", 0), ("L", 1), ("G", 0), ("H", 1), ("H", 0)]
COLS = [("L", 0), ("L", 1), ("G", 0), ("H", 1), ("H", 0)]
AREA = 1e10


def chooser(k, r):
    """Magnitudes that let every term of a budget matter (fluxes through faces
    are ~ storage x area); latitude decreasing, longitude increasing."""
    if k[0] == "sym":
        n = k[1]
        if n in ("latitude", "longitude") and len(k) == 3:
            _, b, i = k[2]
            if n == "latitude":
                return 60.0 - i if b == "L" else (41.0 - i if b == "G" else 21.0 + i)
            return 10.0 + 1.5 * i if b == "L" else (40.0 + 1.5 * i if b == "G" else 80.0 - 1.5 * i)
        if isinstance(n, tuple) and n[0] == "stab":
            x = r.choice([-2, -1, 0, 1, 2, 0.5, -0.5]) if r.random() < 0.6 else r.uniform(-2, 2)
            return x * AREA
        if isinstance(n, tuple) and n[0] in ("fx_upper", "fx_lower", "fy_upper", "fy_lower"):
            x = r.choice([-2, -1, 0, 1, 2]) if r.random() < 0.5 else r.uniform(-2, 2)
            return x * AREA / 1e5
        if n == "f_vert":
            return r.choice([-2, -1, 0, 1, 2]) if r.random() < 0.6 else r.uniform(-2, 2)
        if isinstance(n, str) and n.startswith("mu"):
            # previous tracked storages and accumulators are non-negative
            return r.choice([0, 0.5, 1, 2, 3, 5]) if r.random() < 0.6 else r.uniform(0, 5)
        if n == "bbox":
            return {"west": r.uniform(0, 70), "east": r.uniform(0, 90),
                    "south": r.uniform(15, 50), "north": r.uniform(30, 62)}.get(k[3], 0.0)
    return None


def free(k):
    """Fields and settings of any magnitude."""
    n = k[1]
    return isinstance(n, tuple) and n[0] in ("stab", "fx_upper", "fx_lower", "fy_upper", "fy_lower") or n == "f_vert" \
        or isinstance(n, str) and n.startswith("mu")


chooser.free = free


class Stops(AnchorLost):
    """Tracking cannot do a single time step."""

    def __init__(self, text, where):
        super().__init__(text)
        self.where = where


def main_loop(w):
    """The time loop: the innermost loop around the loading of input data."""
    lids = [l["loops"][-1] for l in w.loads if l["loops"] and not l["muted"]]
    if not lids:
        if w.loads and w.st.alive and not w.I.notes and not any("to_netcdf" in (e.kind, e.name) for e in w.I.events):
            raise Stops("no time step takes place, no output is written", "run_experiment")
        raise AnchorLost("no loop that loads input data in run_experiment")
    return next(r for r in w.I.loops if r.id == lids[-1])


def reachable_datasets(st, fid, names):
    """Datasets with the given variables, reachable from a frame first."""
    out = []
    fr = st.heap.get(fid)
    if fr is not None and hasattr(fr, "v"):
        for v in fr.v.values():
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), DsC) and names <= set(st.heap[v.id].vars):
                out.append(v.id)
    for i, c in st.heap.items():
        if isinstance(c, DsC) and names <= set(c.vars) and i not in out:
            out.append(i)
    return out


def ds_arr(st, ds, name):
    v = ds.vars.get(name, ds.coords.get(name))
    if v is None:
        return None
    if isinstance(v, Maybe):
        v = v.v
    return st.heap[st.heap[v].nd].arr


def ends(I, loop):
    """The exception with which every pass of a loop ends."""
    es = [e for e in I.events if e.kind == "raise" and loop.id in e.loops and not getattr(e, "caught", False)]
    late = [e for e in I.events if e.seq > es[-1].seq and loop.id in e.loops and e.kind != "log"] if es else []
    return es[-1] if es and not late else None


class Step:
    """One generic time step of a tracking run: terms before and after."""

    def __init__(self, direction, periodic, **kw):
        self.direction, self.periodic = direction, periodic
        self.w = w = tracking_world(MODULE[direction], direction, periodic, **kw)
        self.I = w.I
        self.loop = loop = main_loop(w)
        loads = [l for l in w.loads if l["loops"][-1:] == (loop.id,) and not l["muted"]]
        self.loads = loads
        sv = [l for l in loads if l["subset"] == "states"]
        fv = [l for l in loads if l["subset"] == "fluxes"]
        if not sv or not fv:
            raise AnchorLost("the time loop does not load states and fluxes")
        times = {}
        for l in sv:
            times.setdefault(l["tid"], l["t"])
        ts = list(times.items())
        early, late = ts[0], ts[-1]
        if len(ts) == 2:
            s = P.known_sign(ts[1][1].p - ts[0][1].p)
            if s == -1:
                early, late = ts[1], ts[0]
        self.early, self.late = early, late
        self.nstates = len(ts)
        old, new = (late, early) if direction == "backward" else (early, late)
        self.old, self.new = old, new
        self.flux = fv[0]
        self.fluxes = fv
        names = set(STATES)
        self.writes = [e for e in self.I.events if e.kind == "to_netcdf" and loop.id in e.loops
                       and isinstance(e.args[0], Ref) and isinstance(e.extra.heap.get(e.args[0].id), DsC)
                       and names <= set(e.extra.heap[e.args[0].id].vars)]
        cands = reachable_datasets(loop.head, loop.fid, names)
        if not cands:
            raise AnchorLost("no dataset with the tracked storages at the head of the time loop")
        self.outid = cands[0]
        if not self.writes:
            stop = ends(self.I, loop)
            if stop is not None:
                raise Stops(f"every time step stops: {stop.name} {stop.args[1:]}"[:200], stop.loc)
            raise AnchorLost("the time loop writes no output file")
        self.write = self.writes[0]
        self.wds = self.write.extra.heap[self.write.args[0].id]
        self.head_ds = loop.head.heap[self.outid]
        self.dt = w.st.heap[w.cfgref.id].f["timestep"].p
        self.kvf = w.st.heap[w.cfgref.id].f["kvf"].p
        self.where = loop.loc
        for l in (self.loop.head, self.write.extra):
            pass

    def names(self):
        return list(self.head_ds.vars)

    def before(self, name, j, i):
        return ds_arr(self.loop.head, self.head_ds, name).at((j, i))

    def after(self, name, j, i):
        a = ds_arr(self.write.extra, self.wds, name)
        if a.ndim == 3:
            return a.at((("L", 0), j, i))
        return a.at((j, i))

    def delta(self, name, j, i):
        return self.after(name, j, i).p - self.before(name, j, i).p

    # symbols of the loaded input --------------------------------------------
    def sym(self, name, role, j, i):
        tid = {"old": self.old[0], "new": self.new[0], "flux": self.flux["tid"]}[role]
        pos = name.startswith("s_")
        return P.sym((name, tid), ("latitude",) + j, ("longitude",) + i, pos=pos,
                     nonneg=name in ("evap", "precip"))

    def stab(self, name, j, i):
        return P.sym(("stab", name), ("latitude",) + j, ("longitude",) + i)

    def fvert(self, j, i):
        return P.sym("f_vert", ("latitude",) + j, ("longitude",) + i)

    def raw(self, name, j, i):
        """Old tracked storage of a layer."""
        return self.before(f"s_track_{name}_restart", j, i).p

    def rel(self, layer, j, i):
        return P.pmin(self.raw(layer, j, i) * P.inv(self.sym("s_" + layer, "old", j, i)), P.ONE)

    # indices -------------------------------------------------------------------
    def ext(self, axis):
        return self.w.len["latitude" if axis == 0 else "longitude"]

    def cells(self, thorough=False):
        for j in ROWS:
            for i in COLS:
                yield j, i

    def label(self, j, i):
        def one(x):
            b, k = x
            return f"{k}" if b == "L" else (f"{-1 - k}" if b == "H" else ("mid" if not k else f"mid{k:+d}"))
        return f"cell[{one(j)},{one(i)}]"

    def tag(self):
        return f"{MODULE[self.direction]}/{'periodic' if self.periodic else 'limited'}"


_steps: dict = {}


def step(direction, periodic, **kw):
    key = (direction, periodic, tuple(sorted(kw.items())))
    if key not in _steps:
        _steps[key] = Step(direction, periodic, **kw)
    return _steps[key]


def all_steps(rep, **kw):
    for d in ("backward", "forward"):
        for per in (False, True):
            s = step(d, per, **kw)
            rep.world(s.w)
            yield s


def chooser_grid(k, r):
    """As ``chooser`` with a whole small grid (all indices counted from 0)."""
    return chooser(k, r)


def grid_info(s):
    """(area(j), dy(j,i), dx(j,i)) of the grid as the code computes them."""
    if not hasattr(s, "_gi"):
        I = s.I
        st = s.loop.head.fork()
        f = s.w.find("wam2layers.utils.grid.get_grid_info")
        arr = s.w.field("probe")
        ds = s.w.dataset(st, {"probe": arr})
        v = I.call(f, [ds], {}, st)
        items = I.concrete_items(v, st)
        if items is None or len(items) != 3:
            raise AnchorLost("get_grid_info does not return (area, dy, dx)")
        s._gi = [as_cell(I, st, x) for x in items]
    return s._gi


def as_cell(I, st, v):
    """Access a scalar / column / field by (row, column)."""
    if isinstance(v, Ref):
        c = st.heap[v.id]
        a = st.heap[st.heap[c.var].nd].arr if isinstance(c, DaC) else c.arr
        if a.ndim == 0:
            return lambda j, i: a.at(()).p
        if a.ndim == 1:
            return lambda j, i: a.at((j,)).p
        return lambda j, i: a.at((("L", 0) if a.shape[0].one() else j, ("L", 0) if a.shape[1].one() else i)).p
    x = I.sc(v).p
    return lambda j, i: x


# --- the required terms ---------------------------------------------------------
def shift_ix(ix, d):
    from engine.arr import shift
    return shift(ix, d)


def neighbour(s, axis, ix, d):
    """Index d cells away along an axis; None outside, wrapped if periodic in x."""
    from engine.arr import at_or_above_end, below, shift
    e = s.ext(axis)
    j = shift(ix, d)
    if below(j, 0):
        if axis == 1 and s.periodic:
            return ("L", e.c - 1) if e.sym is None else ("H", -1 - j[1])
        return None
    if at_or_above_end(j, e, 0):
        if axis == 1 and s.periodic:
            return ("L", 0)
        return None
    return j


def on_edge(s, axis, ix):
    return ix == ("L", 0) or ix == (("L", s.ext(axis).c - 1) if s.ext(axis).sym is None else ("H", 0))


def is_boundary(s, j, i):
    return on_edge(s, 0, j) or (not s.periodic and on_edge(s, 1, i))


def face_x(s, layer, j, i, flux=None):
    """Flux through the face between (j, i) and its eastern neighbour."""
    flux = flux or s.stab
    if on_edge(s, 0, j):
        return P.ZERO
    e = neighbour(s, 1, i, 1)
    if e is None:
        return P.ZERO
    return (flux("fx_" + layer, j, i) + flux("fx_" + layer, j, e)) * P.Fraction(1, 2)


def face_y(s, layer, j, i, flux=None):
    """Northward flux through the face between (j, i) and its southern neighbour
    (latitude decreases with the row index)."""
    flux = flux or s.stab
    if not s.periodic and on_edge(s, 1, i):
        return P.ZERO
    n = neighbour(s, 0, j, 1)
    if n is None:
        return P.ZERO
    return (flux("fy_" + layer, j, i) + flux("fy_" + layer, n, i)) * P.Fraction(1, 2)


def donor(u, behind, ahead):
    """Amount carried by u: from the upwind side."""
    return P.where(P.gt0(u), u * behind, u * ahead)


def advection(s, layer, j, i, rel=None):
    """Net inflow into a cell by donor-cell upwind transport (not yet / area)."""
    rel = rel or s.rel
    sg = -1 if s.direction == "backward" else 1
    r = P.ZERO
    for axis in (1, 0):
        for side in (1, -1):
            if axis == 1:
                nb = neighbour(s, 1, i, side)
                if nb is None:
                    continue
                u = face_x(s, layer, j, i if side == 1 else nb) * sg
                other = rel(layer, j, nb)
                here = rel(layer, j, i)
                # u is eastward
                r = r - donor(u, here, other) if side == 1 else r + donor(u, other, here)
            else:
                nb = neighbour(s, 0, j, side)
                if nb is None:
                    continue
                v = face_y(s, layer, j if side == 1 else nb, i) * sg
                other = rel(layer, nb, i)
                here = rel(layer, j, i)
                # v is northward; side=+1 is the southern neighbour
                r = r + donor(v, other, here) if side == 1 else r - donor(v, here, other)
    return r


def vertical(s, j, i):
    """Exchange from the upper into the lower layer, per time."""
    f = s.fvert(j, i) * (-1 if s.direction == "backward" else 1)
    ru, rl = s.rel("upper", j, i), s.rel("lower", j, i)
    return P.where(P.ge0(f), f * ru, f * rl) + s.kvf * P.pabs(f) * (ru - rl)


def tracked(s, layer, j, i):
    """Tracked moisture leaving the given layer at the surface, per time."""
    if s.direction == "backward":
        return s.sym("evap", "flux", j, i) * s.rel("lower", j, i) if layer == "lower" else P.ZERO
    su, sl = s.sym("s_upper", "old", j, i), s.sym("s_lower", "old", j, i)
    own = su if layer == "upper" else sl
    return s.sym("precip", "flux", j, i) * own * P.inv(su + sl) * s.rel(layer, j, i)


def source(s, layer, j, i):
    """Newly tagged moisture entering a layer in one step (total as recorded)."""
    tot = s.delta(TAGGED[s.direction], j, i)
    if s.direction == "forward":
        return tot if layer == "lower" else P.ZERO
    su, sl = s.sym("s_upper", "old", j, i), s.sym("s_lower", "old", j, i)
    return tot * (su if layer == "upper" else sl) * P.inv(su + sl)


def updated(s, layer, j, i):
    """Tracked storage of a layer after the step, before any limit applies."""
    a = grid_info(s)[0](j, i)
    v = vertical(s, j, i)
    if layer == "upper":
        v = -v
    return s.raw(layer, j, i) + s.dt * (advection(s, layer, j, i) * P.inv(a) + v - tracked(s, layer, j, i)) \
        + source(s, layer, j, i)


def data_denominators(sc):
    """Denominators (with their guards) that involve data, not just the grid."""
    out = []
    for g, d in sc.d:
        syms = [P.ATOMS[a] for a in P.all_atoms(d) if P.ATOMS[a][0] == "sym"]
        if any(k[1] not in ("latitude", "longitude", "timestep", "kvf") for k in syms):
            out.append((g, d))
    return out


def last(w, name):
    xs = [x for x in w.snap.get(name, ()) if not x["muted"]]
    if not xs:
        raise AnchorLost(f"{name}: the function is not called in the time loop")
    return xs[-1]


def da_arr(st, v):
    c = st.heap[v.id]
    if isinstance(c, NdC):
        return c.arr
    return st.heap[st.heap[c.var].nd].arr


INTERIOR = [("L", 1), ("G", 0), ("H", 1)]


# --- time -----------------------------------------------------------------------
def time_chooser(k, r):
    if k[0] == "sym":
        n = k[1]
        if n == "timestep":
            return r.choice([1, 2])
        if n == "td":
            return r.choice([1, 2, 3, 4, 6])
        if n in ("tracking_start_date", "tagging_start_date"):
            return r.choice(range(0, 14))
        if n in ("tracking_end_date", "tagging_end_date"):
            return r.choice(range(2, 16))
        if n == "K":
            return r.choice(range(0, 9))
    return chooser(k, r)


TIMES = ("timestep", "td", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date")


def scale(k, seed):
    """The same relations of times in seconds, minutes, hours, half days."""
    return (1, 1800, 3600, 43200, 97, 25, 240)[seed % 7] if k[1] in TIMES else 1


time_chooser.scale = scale
time_chooser.free = chooser.free


def cfg_field(s, name):
    return s.w.st.heap[s.w.cfgref.id].f[name]


def loop_guard(s):
    """The iteration with number K takes place: required condition."""
    start, end = cfg_field(s, "tracking_start_date").p, cfg_field(s, "tracking_end_date").p
    if s.direction == "backward":
        return P.ge0(s.early[1].p - start)
    return P.ge0(end - s.late[1].p)


def write_guard(s):
    """After the step: output time, or the next step would leave the window."""
    t = s.new[1].p
    td = P.sym("td", s.I.fp(cfg_field(s, "output_frequency"), s.w.st), pos=True)
    at = P.eq0(t - td * P.fn("floor", t * P.inv(td)))
    start, end = cfg_field(s, "tracking_start_date").p, cfg_field(s, "tracking_end_date").p
    if s.direction == "backward":
        last_ = P.gt0(start - (s.early[1].p - s.dt))
    else:
        last_ = P.gt0(s.late[1].p + s.dt - end)
    return at + last_ - at * last_


def path_str(v):
    return "".join(x if isinstance(x, str) else "{" + ":".join(map(str, x)) + "}" for x in v.parts) \
        if isinstance(v, StrT) else str(v)


def stopped(w):
    """The exception with which a program that cannot go on stops: the last raised
    when every path has ended."""
    es = [e for e in w.I.events if e.kind == "raise" and not getattr(e, "caught", False)]
    return es[-1] if es else None
