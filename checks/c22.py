"""From preprocessing to tracking.  The file preprocessing writes for a time is the
one tracking opens for it; it holds every variable tracking reads, in time, latitude,
longitude, under that time; latitudes decrease, longitudes increase and lie within
[-180, 180], and every value stays at its own place."""

from engine import poly as P
from engine.arr import Sc
from engine.values import DsC, StrT
from engine.world import FLUX_VARS, GRID, STATE_VARS

from .c11 import Load, path_time
from .column import LABELS, errors
from .common import ds_arr
from .prep import Prep

DIMS = ("time",) + GRID
GRIDS = [([-10, 0, 10], [0, 90, 180, 270]), ([60, 50, 40], [-20, -10, 0, 10]), ([-30, -20, -10], [-180, -60, 60, 179]),
         ([20, 10, 0], [200, 210, 220, 230]), ([0, 10, 20], [0, 10, 20, 180]),
         ([30, 20, 10], [0, 90, -180, -90]), ([-40, -20, 0, 50], [20, 10, 0, -10]), ([5, 0, -5], [350, 0, 10, 20]), ([1, 0, -1], [170, 180, -170, -160]),
         ([10, -10, 0], [5, 15, 25])]
KINDS = [("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("ARCO", "pressure_levels", True),
         ("CMIP", "pressure_levels", False)]


def template(p):
    """A path with its time taken out, and that time."""
    if not isinstance(p, StrT):
        return None
    ids = {x[1] for x in p.parts if not isinstance(x, str) and x[0] == "time"}
    if len(ids) != 1:
        return None
    return tuple(x if isinstance(x, str) or x[0] != "time" else ("time",) + tuple(x[2:]) for x in p.parts), ids.pop()


def check(rep):
    rep.rule("file", "path written for time t (tracking opens that path for t)")
    rep.rule("time", "the data carry the time they are for")
    rep.rule("variables", "every variable tracking reads is written, in time, latitude, longitude")
    rep.rule("grid", "written latitudes decrease, longitudes increase within [-180, 180], the same places as in the input")
    rep.rule("place", "a written value depends on the input at its own place only")
    read = {}
    for subset in ("fluxes", "states"):
        L = Load(subset, False)
        rep.world(L.w)
        c = L.st.heap.get(getattr(L.out, "id", None))
        read[subset] = set(c.vars) if isinstance(c, DsC) else set(FLUX_VARS if subset == "fluxes" else STATE_VARS)
        paths = {t[0] for t in (template(p) for p, _ in L.opened) if t}
    names = sorted(read["fluxes"] | read["states"])
    for src, lt, listed in KINDS:
        cases = GRIDS if rep.tier == "thorough" or src == "ERA5" and lt == "pressure_levels" else GRIDS[:2]
        for lat, lon in cases:
            tag = f"{src}:{lt}:lat {lat[0]}..{lat[-1]}:lon {lon[0]}..{lon[-1]}"
            case(rep, tag, src, lt, listed, lat, lon, names, paths)


def values(st, ds, d):
    a = ds_arr(st, ds, d)
    if a is None or a.ndim != 1 or a.shape[0].sym is not None:
        return None
    xs = [a.at((("L", k),)).p for k in range(a.shape[0].c)]
    return [float(x.const()) for x in xs] if all(x.is_const() for x in xs) else None


def case(rep, tag, src, lt, listed, lat, lon, names, paths):
    lv = [Sc(P.P(x)) for x in LABELS[lt]] if listed else "All"
    p = Prep(src, lt, lv, nlev=None if listed else 3, grid=dict(latitude=lat, longitude=lon))
    try:
        writes = p.day()
    except errors() as e:
        rep.world(p.w)
        rep.undecided("file", tag, f"{type(e).__name__}: {e}"[:160])
        return
    rep.world(p.w)
    if not writes:
        rep.undecided("file", tag, "nothing is written")
        return
    e = writes[0]
    st = e.extra
    ds = st.heap.get(e.args[0].id)
    t = template(e.args[1])
    if t is None or not paths:
        rep.undecided("file", tag, f"path {e.args[1]!r}"[:150])
    else:
        rep.holds("file", tag, t[0] in paths and P.POLY_BY_ID(t[1]) == p.t.p,
                  f"writes {t[0]}, tracking reads {sorted(paths)}", e.loc)
    ta = ds_arr(st, ds, "time")
    if ta is None or ta.ndim != 1:
        rep.undecided("time", tag, "no time coordinate")
    else:
        rep.equal("time", tag, ta.at((("L", 0),)).p, p.t.p, where=e.loc, what="time written")
    for n in names:
        if n not in ds.vars:
            rep.holds("variables", f"{tag}:{n}", False, "not written", e.loc)
            continue
        a = ds_arr(st, ds, n)
        rep.holds("variables", f"{tag}:{n}", a.dims == DIMS, f"dimensions {a.dims}", e.loc)
    got = {d: values(st, ds, d) for d in GRID}
    if None in got.values():
        rep.undecided("grid", tag, "the written coordinates are not known numbers")
        return
    glat, glon = got["latitude"], got["longitude"]
    rep.holds("grid", tag + ":latitude", glat == sorted(set(lat), reverse=True), f"{lat} is written as {glat}", e.loc)
    rep.holds("grid", tag + ":longitude", glon == sorted(set(glon)) and all(-180 <= x <= 180 for x in glon)
              and {x % 360 for x in glon} == {x % 360 for x in lon} and len(glon) == len(lon), f"{lon} is written as {glon}", e.loc)
    bad, seen = [], 0
    for n in names:
        if n not in ds.vars:
            continue
        a = ds_arr(st, ds, n)
        if set(a.dims) != set(DIMS):
            continue
        for j in range(len(glat)):
            for i in range(len(glon)):
                if n not in ("evap", "precip") and (j, i) not in ((0, 0), (1, 2)):
                    continue
                x = a.at(tuple({"time": ("L", 0), "latitude": ("L", j), "longitude": ("L", i)}[d] for d in a.dims))
                for q in P.all_atoms(x.p):
                    k = P.ATOMS[q]
                    if k[0] != "sym" or not isinstance(k[1], tuple) or k[1][0] not in ("in", "stored"):
                        continue
                    ix = {z[0]: z[1:] for z in k[2:] if isinstance(z, tuple)}
                    try:
                        place = lat[pos(ix["latitude"], lat)], lon[pos(ix["longitude"], lon)]
                    except (KeyError, TypeError, IndexError):
                        continue
                    seen += 1
                    if place[0] != glat[j] or (place[1] - glon[i]) % 360:
                        bad.append(f"{n} at {glat[j]}, {glon[i]} holds the input at {place[0]}, {place[1]}")
    if seen:
        rep.holds("place", tag, not bad, "; ".join(bad[:3]), e.loc)
    else:
        rep.undecided("place", tag, "no input in the written values")


def pos(i, xs):
    if i[0] == "L":
        return i[1]
    if i[0] == "H":
        return len(xs) - 1 - i[1]
    raise KeyError(i)
