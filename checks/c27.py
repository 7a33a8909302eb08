"""Tagging masks.  A mask made around points or from named or drawn regions marks
exactly the grid cells it should, each at its own place and time; a mask made from an
outline on the fly gives every cell the fraction of it that lies inside."""

from fractions import Fraction as Fr

from engine import poly as P
from engine.arr import Arr, DefiniteError, Sc
from engine.arr import Ext as Len
from engine.interp import Dead
from engine.lib import mk_da, mk_nd, mk_var
from engine.report import AnchorLost
from engine.values import DaC, DsC, ListC, NdC, Opaque, Ref
from engine.world import World, constants, path_sym, str_sym

from .common import ds_arr

TAG = "wam2layers.utils.tagging_region."
GRIDS = {
    "north first": ([30, 20, 10, 0], [0, 10, 20]),
    "south first": ([-10, -5, 0, 5, 10], [350, 355, 360, 365]),
    "fine": ([Fr(1, 2), Fr(1, 4), 0, Fr(-1, 4)], [-1, 0, 1, 2, 3]),
}


def number(I, st, v):
    if isinstance(v, Ref):
        c = st.heap[v.id]
        a = c.arr if isinstance(c, NdC) else st.heap[st.heap[c.var].nd].arr if isinstance(c, DaC) else None
        v = a.at(()) if a is not None and not a.dims else v
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Fr)):
        return Fr(v)
    if isinstance(v, float):
        return Fr(v)
    if isinstance(v, Sc) and not v.d:
        return v.p.const() if v.p.is_const() else None
    return None


def world(grid, **more):
    la, lo = GRIDS[grid] if isinstance(grid, str) else grid
    w = World()
    w.fix(latitude=la, longitude=lo)

    def op(I, st, p, name, kw, node):
        return w.dataset(st, {"precip": w.field("precip")}, {d: w.coord(d) for d in ("latitude", "longitude")})
    w.I.cfg["open_dataset"] = op
    w.I.cfg["implicit_errors"] = False
    return w


def sc(v):
    return Sc(P.P(Fr(v)))


def written(w, out):
    for e in w.I.events:
        if e.kind == "to_netcdf" and e.extra is not None:
            c = e.extra.heap.get(e.args[0].id) if e.args and isinstance(e.args[0], Ref) else None
            if isinstance(c, (DsC, DaC)):
                return e.extra, c, e
    return None


def axes(rep, tag, st, ds, want, where):
    """The mask carries the reference grid."""
    for d, vals in want.items():
        a = ds_arr(st, ds, d)
        if a is None or len(a.dims) != 1 or a.shape[0].sym is not None:
            rep.undecided("grid", f"{tag}:{d}", "coordinate not followed")
            continue
        got = [a.at((("L", i),)).p.const() for i in range(a.shape[0].c)]
        rep.holds("grid", f"{tag}:{d}", got == [Fr(v) for v in vals], f"coordinates {got} instead of {list(map(str, vals))}", where)


def compare(rep, rule, tag, arr, dims, sizes, want, where):
    """want(indices...) -> polynomial, for every cell."""
    if arr is None:
        return rep.undecided(rule, tag, "mask not followed")
    if sorted(arr.dims) != sorted(dims):
        return rep.holds(rule, tag, False, f"the mask has dimensions {arr.dims} instead of {dims}", where)
    if any(s.sym is not None for s in arr.shape):
        return rep.undecided(rule, tag, "extent not known")
    n = dict(zip(arr.dims, (s.c for s in arr.shape)))
    if n != dict(zip(dims, sizes)):
        return rep.holds(rule, tag, False, f"the mask has sizes {n} instead of {dict(zip(dims, sizes))}", where)

    def go(k, ix):
        if k < len(dims):
            for i in range(sizes[k]):
                go(k + 1, ix + [i])
            return
        at = dict(zip(dims, ix))
        got = arr.at(tuple(("L", at[d]) for d in arr.dims))
        name = f"{tag}:{','.join(map(str, ix))}"
        if not isinstance(got, Sc):
            return rep.undecided(rule, name, "not a number")
        if got.d:
            return rep.holds(rule, name, False, "missing value in the mask", where)
        rep.equal(rule, name, got.p, P.P(want(*ix)), None, where=where, what="mask value", tries=40)
    go(0, [])


def around(rep, grid, fn, centres, radius):
    la, lo = GRIDS[grid]
    w = world(grid)
    tag = f"{fn}:{grid}:{[tuple(map(str, c)) for c in centres]}+-{radius}".replace("'", "")
    if fn == "mask_around_point":
        args = [tuple(map(sc, centres[0])), sc(radius), path_sym("ref"), path_sym("out"), False]
    else:
        n = len(centres)
        times = [Sc(P.sym("track time", i), k="time") for i in range(n)]
        args = [[tuple(map(sc, c)) for c in centres], times, sc(radius), path_sym("ref"), path_sym("out"), False]
        args = [w.I.alloc(w.st, ListC(tuple(a))) if isinstance(a, list) else a for a in args]
    where = w.find(TAG + fn).qual
    try:
        w.call(TAG + fn, args)
    except (DefiniteError, Dead) as e:
        rep.holds("square", tag, False, f"no mask is made: {e}", where)
        return w
    x = written(w, "out")
    if x is None:
        rep.undecided("square", tag, "no file written")
        return w
    st, ds, e = x
    rep.equal("made", tag, e.guard, P.ONE, None, where=where, what="whether the mask is written", tries=20)
    axes(rep, tag, st, ds, dict(latitude=la, longitude=lo), where)
    name = "tagging_region" if fn == "mask_around_point" else "source_region"
    if isinstance(ds, DsC) and name not in ds.vars:
        name = next(iter(ds.vars), name)
    inside = lambda c, j, i: int(abs(la[j] - c[0]) <= radius and abs(lo[i] - c[1]) <= radius)
    if fn == "mask_around_point":
        compare(rep, "square", tag, ds_arr(st, ds, name), ("latitude", "longitude"), (len(la), len(lo)),
                lambda j, i: inside(centres[0], j, i), where)
    else:
        compare(rep, "square", tag, ds_arr(st, ds, name), ("time", "latitude", "longitude"), (len(centres), len(la), len(lo)),
                lambda t, j, i: inside(centres[t], j, i), where)
        a = ds_arr(st, ds, "time")
        if a is None:
            rep.undecided("times", tag, "no time coordinate followed")
        elif a.shape[0] != (None, len(centres)):
            rep.holds("times", tag, False, f"{a.shape[0]} times for {len(centres)} centres", where)
        else:
            for t in range(len(centres)):
                rep.equal("times", f"{tag}:{t}", a.at((("L", t),)).p, P.sym("track time", t), None, where=where, what="time of the mask", tries=20)
    return w


def regions_hook(w, n, empty, seen):
    """A stack of region masks; unless told otherwise the library leaves out the
    regions no grid cell belongs to."""
    def mask(I, st, args, kw, node):
        drop = kw.get("drop", True)
        keep = list(range(n)) if drop is False else [k for k in range(n) if k not in empty]
        seen.append((args, kw))
        pol = [P.sym("inside", k, boolean=True) for k in range(n)]

        def at(ix):
            r = ix[0]
            cell = (("latitude",) + ix[1], ("longitude",) + ix[2])
            k = r[1] if r[0] == "L" else len(keep) - 1 - r[1] if r[0] == "H" else None
            if k is None or not 0 <= k < len(keep):
                raise DefiniteError("region outside of the list")
            k = keep[k]
            return Sc(P.ZERO if k in empty else P.sym("inside", k, *cell, boolean=True), k="bool")
        a = Arr(("region", "latitude", "longitude"), (Len(None, len(keep)), w.len["latitude"], w.len["longitude"]), at)
        co = {d: w.coord(d) for d in ("latitude", "longitude")}
        co["region"] = mk_var(I, st, mk_nd(I, st, constants("region", keep)).id)
        return mk_da(I, st, a, co)
    return mask


def selection(rep, tag, fn, first, regions, picks, n, empty=()):
    """mask_with_regionmask / mask_with_shapefile: the union of the chosen regions."""
    w = world("north first")
    la, lo = GRIDS["north first"]
    seen = []
    hook = regions_hook(w, n, set(empty), seen)

    def method(I, st, o, name, args, kw, node):
        if name in ("mask_3D",):
            return hook(I, st, args, kw, node)
    w.I.cfg["opaque_method"] = method
    I = w.I
    for q in ("regionmask.mask_3D_geopandas", "regionmask.core.mask.mask_3D_geopandas"):
        I.hooks["ext:" + q] = lambda I, st, args, kw, node: hook(I, st, args[1:], kw, node)
    for s in ("giorgi", "srex", "prudence", "ar6.all", "ar6.land", "ar6.ocean"):
        I.hooks[f"ext:regionmask.defined_regions.{s}.mask_3D"] = hook
    reg = I.alloc(w.st, ListC(tuple(regions))) if isinstance(regions, list) else regions
    where = w.find(TAG + fn).qual
    try:
        w.call(TAG + fn, [first, reg, path_sym("ref"), path_sym("out"), False])
    except (DefiniteError, Dead) as e:
        rep.holds("union", tag, False, f"no mask is made: {e}", where)
        return w
    x = written(w, "out")
    if x is None:
        rep.undecided("union", tag, "no file written")
        return w
    st, ds, e = x
    if not seen:
        rep.undecided("union", tag, "region library not called")
        return w
    rep.equal("made", tag, e.guard, P.ONE, None, where=where, what="whether the mask is written", tries=20)
    axes(rep, tag, st, ds, dict(latitude=la, longitude=lo), where)
    name = "tagging_region"
    if isinstance(ds, DsC) and name not in ds.vars:
        name = next(iter(ds.vars), name)

    def want(j, i):
        out = P.ONE
        for k in picks:
            if k not in empty:
                out = out * (P.ONE - P.sym("inside", k, ("latitude", "L", j), ("longitude", "L", i), boolean=True))
        return P.ONE - out
    compare(rep, "union", tag, ds_arr(st, ds, name), ("latitude", "longitude"), (len(la), len(lo)), want, where)
    return w


# -- masks made on the fly ------------------------------------------------------
def clip(r, s):
    x0, y0, x1, y1 = max(r[0], s[0]), max(r[1], s[1]), min(r[2], s[2]), min(r[3], s[3])
    return (x0, y0, x1, y1) if x0 < x1 and y0 < y1 else None


def meet(a, b):
    return tuple(c for r in a for s in b for c in [clip(r, s)] if c)


def area(a):
    return sum(((r[2] - r[0]) * (r[3] - r[1]) for r in a), Fr(0))


def geo(o):
    return o.key[1] if isinstance(o, Opaque) and o.key[:1] == ("rects",) else None


def geometry(w, polygon, decoy):
    """Shapes as unions of rectangles, so that areas are plain numbers."""
    mk = lambda rects: Opaque(("rects", tuple(tuple(map(Fr, r)) for r in rects)), "geometry")
    I = w.I

    def record(k):
        return Opaque(("record", k), "geometry record")

    def shape(I, st, args, kw, node):
        o = args[0]
        if isinstance(o, Opaque) and o.key[:1] == ("record",):
            return mk(polygon if o.key[1] == 0 else decoy)

    def box(I, st, args, kw, node):
        v = [number(I, st, a) for a in args]
        v += [number(I, st, kw[k]) for k in ("minx", "miny", "maxx", "maxy", "xmin", "ymin", "xmax", "ymax") if k in kw]
        if len(v) == 4 and None not in v:
            return mk([v]) if v[0] < v[2] and v[1] < v[3] else mk([(min(v[0], v[2]), min(v[1], v[3]), max(v[0], v[2]), max(v[1], v[3]))])

    def inter(I, st, args, kw, node):
        a, b = geo(args[0]), geo(args[1])
        if a is not None and b is not None:
            return Opaque(("rects", meet(a, b)), "geometry")

    def far(I, st, args, kw, node):
        a = geo(args[0])
        return sc(area(a)) if a is not None else None

    def bounds(a):
        return tuple(map(sc, (min(r[0] for r in a), min(r[1] for r in a), max(r[2] for r in a), max(r[3] for r in a))))

    def attr(I, st, o, name):
        a = geo(o)
        if a is None:
            return None
        return {"area": lambda: sc(area(a)), "bounds": lambda: bounds(a), "is_empty": lambda: not a,
                "is_valid": lambda: True}.get(name, lambda: None)()

    def method(I, st, o, name, args, kw, node):
        if isinstance(o, Opaque) and o.key == ("shapes file",):
            if name == "shape":
                k = number(I, st, args[0] if args else kw.get("i", 0))
                return record(int(k) if k is not None else 99)
            if name == "shapes":
                return I.alloc(st, ListC((record(0), record(1))))
        a = geo(o)
        if a is None:
            return None
        b = geo(args[0]) if args else None
        if name == "intersection" and b is not None:
            return Opaque(("rects", meet(a, b)), "geometry")
        if name in ("intersects", "overlaps") and b is not None:
            return bool(meet(a, b))
        if name == "contains" and b is not None:
            return area(meet(a, b)) == area(b)
        if name == "disjoint" and b is not None:
            return not meet(a, b)

    I.hooks["ext:shapefile.Reader"] = lambda I, st, args, kw, node: Opaque(("shapes file",), "shapes")
    for n in ("shapely.geometry.shape", "shapely.geometry.geo.shape"):
        I.hooks["ext:" + n] = shape
    for n in ("shapely.box", "shapely.geometry.box"):
        I.hooks["ext:" + n] = box
    I.hooks["ext:shapely.intersection"] = inter
    I.hooks["ext:shapely.area"] = far
    I.cfg["opaque_attr"], I.cfg["opaque_method"] = attr, method


L_SHAPE = [(5, 2, 12, 9), (5, 9, 7, 17)]
DECOY = [(-500, -500, 500, 500)]
FLY = {
    "corner shape": (([30, 20, 10, 0], [0, 10, 20, 30]), L_SHAPE),
    "south first": (([0, 10, 20, 30], [0, 10, 20, 30]), L_SHAPE),
    "longitude descending": (([30, 20, 10, 0], [30, 20, 10, 0]), L_SHAPE),
    "spacing differs": (([12, 9, 6, 3, 0], [0, 5, 10, 15]), [(4, 1, 11, 4), (6, 4, 8, 10)]),
    "spacing differs, south first": (([0, 3, 6, 9, 12], [-5, 0, 5, 10]), [(-4, 1, 3, 5)]),
    "inside one cell": (([30, 20, 10, 0], [0, 10, 20]), [(8, 18, 11, 22)]),
    "over the edge": (([30, 20, 10, 0], [0, 10, 20]), [(12, -20, 60, 8)]),
    "whole domain": (([10, 5, 0], [0, 5, 10]), [(-50, -50, 50, 50)]),
    "cell edges": (([30, 20, 10, 0], [0, 10, 20]), [(5, 5, 15, 25)]),
    "in the middle": (([20, 10, 0, -10, -20, -30], [0, 10, 20, 30, 40, 50]), [(18, -12, 23, -4)]),
}


def fly(rep, tag):
    (la, lo), poly = FLY[tag]
    w = world((la, lo))
    geometry(w, poly, DECOY)
    q = "wam2layers.utils.shapefile_mask.create_mask"
    where = w.find(q).qual
    ds = w.dataset(w.st, {"precip": w.field("precip")}, w.grid_coords())
    try:
        r = w.call(q, [ds, path_sym("shape")])
    except (DefiniteError, Dead) as e:
        rep.holds("fraction", tag, False, f"no mask is made: {e}", where)
        return w
    c = w.st.heap.get(r.id) if isinstance(r, Ref) else None
    if not isinstance(c, DaC):
        rep.undecided("fraction", tag, "mask not followed")
        return w
    a = w.st.heap[w.st.heap[c.var].nd].arr
    if a.dims != ("latitude", "longitude"):
        rep.holds("fraction", tag, False, f"dimensions {a.dims} instead of those of the data", where)
    dy, dx = abs(Fr(la[1]) - la[0]), abs(Fr(lo[1]) - lo[0])

    def want(j, i):
        cell = [(lo[i] - dx / 2, la[j] - dy / 2, lo[i] + dx / 2, la[j] + dy / 2)]
        return area(meet(cell, poly)) / area(cell)
    compare(rep, "fraction", tag, a, ("latitude", "longitude"), (len(la), len(lo)), want, where)
    return w


def check(rep):
    rep.rule("square", "mask value = 1 where |latitude - centre| <= radius and |longitude - centre| <= radius, else 0")
    rep.rule("times", "the k-th mask of a track carries the k-th time")
    rep.rule("union", "mask value = 1 where any of the chosen regions covers the cell, else 0")
    rep.rule("made", "the mask is written on every path")
    rep.rule("grid", "the mask has the coordinates of the reference file")
    rep.rule("fraction", "mask value = area of (cell and outline) / area of the cell; 0 away from the outline")
    cases = [("north first", [(10, 10)], 10), ("north first", [(25, 0)], 5), ("north first", [(12, 14)], 9),
             ("south first", [(0, 355)], 5), ("south first", [(-20, 100)], 3), ("fine", [(0, 1)], 1), ("fine", [(Fr(1, 4), 2)], Fr(1, 4))]
    first = None
    for g, c, r in cases:
        w = around(rep, g, "mask_around_point", c, r)
        first = first or w
    for g, c, r in [("north first", [(10, 10), (20, 0), (30, 20)], 10), ("fine", [(0, 0), (Fr(1, 2), 3)], 1)]:
        rep.world(around(rep, g, "mask_around_track", c, r))
    rep.world(first)
    names = [("giorgi", 21, 1), ("srex", 26, 1), ("prudence", 8, 1), ("ar6.all", 58, 0)]
    for s, n, base in names:
        for picks, empty in (([2], ()), ([0, 3], ()), ([n - 1], ()), ([3, 5, 1], (0, 2, 4)), ([4], (1,))):
            rep.world(selection(rep, f"{s}:{picks}:outside {list(empty)}", "mask_with_regionmask", s,
                                [k + base for k in picks], picks, n, empty))
    for regions, picks, empty in (([2], [2], ()), ([0, 3], [0, 3], ()), ([3], [3], (0, 1)), (False, [0], ()), (False, [0], (0, 1))):
        rep.world(selection(rep, f"shapefile:{regions}:outside {list(empty)}", "mask_with_shapefile", path_sym("shape"), regions, picks, 5, empty))
    for tag in FLY:
        rep.world(fly(rep, tag))
