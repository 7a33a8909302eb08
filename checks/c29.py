"""Tracking domain.  Limiting data to a bounding box keeps exactly the cells with
south <= latitude <= north and west <= longitude <= east (if west > east: longitude
<= east or >= west), edges included; values stay with their coordinates, and across
the dateline the kept columns are contiguous.  Input data and tagging region are
limited alike."""

from engine import arr as A
from engine import poly as P
from engine.arr import Sc
from engine.values import DaC, DsC, Maybe, NdC, Ref
from engine.world import GRID, World, path_sym, region_file

from .c11 import Load, set_box


def generic(I, st, v):
    """Term of an array value at an unspecified cell of its one dimension."""
    c = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(c, DaC):
        return st.heap[st.heap[c.var].nd].arr
    return c.arr if isinstance(c, NdC) else None


def kept(I, st, sel, coord, dec):
    """Predicate of a selection along one dimension, as a term of the coordinate."""
    if isinstance(sel, slice):
        if sel.step not in (None, 1):
            return None
        lo, hi = (sel.stop, sel.start) if dec else (sel.start, sel.stop)
        g = P.ONE
        if lo is not None:
            g = g * P.ge0(coord - I.sc(lo).p)
        if hi is not None:
            g = g * P.ge0(I.sc(hi).p - coord)
        return g
    a = generic(I, st, sel)
    if a is None or a.ndim != 1:
        return None
    p = a.generic().p
    return p if P.is_boolpoly(p) else None


def box_chooser(k, r):
    if k[0] == "sym" and k[1] == "bbox":
        return float(r.choice(range(-6, 7)))
    if k[0] == "sym" and k[1] in GRID or k[0] == "fn" and k[1] == "rolled":
        return float(r.choice(range(-8, 9)))
    return None


def inside(box, lat, lon, wrapped):
    la = P.ge0(lat - box["south"]) * P.ge0(box["north"] - lat)
    a, b = P.ge0(lon - box["west"]), P.ge0(box["east"] - lon)
    return la, (a + b - a * b) if wrapped else a * b


def judge(rep, tag, I, cuts, box):
    """Any grid, any box: where the cut is made by one selection of both dimensions.
    Data cut or joined in several steps are judged on known grids only."""
    seen = set()
    if any(set(x[2]) != set(GRID) for x in cuts) or any(e.kind == "concat" for e in I.events):
        rep.undecided("cells", tag, "cut in several steps")
        return
    apart = lambda v: v.poly(box["west"] - box["east"]) != 0.0
    for n, (g, s, sel, st, where) in enumerate(cuts):
        ds = st.heap[s.id]
        terms = {}
        for d in GRID:
            v = ds.coords.get(d)
            if v is None:
                continue
            terms[d] = st.heap[st.heap[v].nd].arr.generic().p
        key = (g.ident(), tuple(sorted((d, I.fp(x, st)) for d, x in sel.items())), tuple(x.ident() for x in terms.values()))
        if key in seen:
            continue
        seen.add(key)
        wr = P.gt0(box["west"] - box["east"])
        for wrapped in (False, True):
            on = wr if wrapped else P.ONE - wr
            c = f"{tag}:{n}:{'dateline' if wrapped else 'plain'}"
            lim = lambda v: apart(v) and v.poly(g * on) > 0.5
            if not any(lim(P.Valuation(k, box_chooser)) for k in range(300)):
                continue
            spec = inside(box, terms["latitude"], terms["longitude"], wrapped)
            for d, want in zip(GRID, spec):
                if d not in sel:
                    rep.add("cells", f"{c}:{d}", "undecided", f"no selection along {d}", where)
                    continue
                got = kept(I, st, sel[d], terms[d], d == "latitude")
                if got is None:
                    rep.undecided("cells", f"{c}:{d}", f"selection {sel[d]!r}", where)
                    continue
                rep.equal("cells", f"{c}:{d}", got, want, box_chooser, lim, where=where, what=f"{d} kept", tries=200)
            if wrapped:
                order(rep, c, I, st, ds, box, terms, where)


def order(rep, c, I, st, ds, box, terms, where):
    rolls = [e for e in I.events if e.kind == "roll" and "longitude" in e.kw]
    mine = [e for e in rolls if any(P.ATOMS[a][:2] == ("fn", "rolled") for a in P.all_atoms(terms["longitude"]))]
    if not rolls:
        rep.undecided("contiguous", c, "no roll")
        return
    rep.holds("contiguous", c + ":coordinates", bool(mine), "data are rolled but their longitudes are not", where)
    e = (mine or rolls)[0]
    sh = e.kw["longitude"]
    reds = {}
    for x in I.events:
        if x.kind == "reduce" and x.name in ("argmin", "argmax") and x.args:
            a = generic(I, e.extra or st, x.args[0]) if isinstance(x.args[0], Ref) else None
            if a is not None and a.ndim == 1:
                reds[P.fn("red_" + x.name, ("k", A.vn(a.fp()))).ident()] = (x.name, a)
    p = sh.p if isinstance(sh, Sc) else None
    if p is None:
        rep.undecided("contiguous", c, f"shift {sh!r}", where)
        return
    hit = next((reds[q.ident()] + (s,) for q, s in ((p, 1), (-p, -1)) if q.ident() in reds), None)
    if hit is None:
        rep.undecided("contiguous", c, f"shift {P.show(p)}", where)
        return
    name, a, sign = hit
    lon = P.sym("longitude", ("longitude",) + ("G", 0))
    got = a.generic().p
    orig = [P.ATOMS[x] for x in P.all_atoms(got) if P.ATOMS[x][0] == "sym" and P.ATOMS[x][1] == "longitude"]
    at = next(P.POLY_BY_ID(P.Poly({((x, 1),): P.Fraction(1)}).ident()) for x in P.all_atoms(got)
              if P.ATOMS[x][0] == "sym" and P.ATOMS[x][1] == "longitude") if orig else lon
    out = P.ONE - inside(box, P.ZERO, at, True)[1]
    want = out if name == "argmax" else P.ONE - out
    rep.equal("contiguous", c + ":from", got, want, box_chooser, lambda v: v.poly(box["west"] - box["east"]) > 0,
              where=where, what="column at which the roll starts", tries=200)
    rep.holds("contiguous", c + ":shift", sign == -1, "rolled the wrong way: the first column outside the box must come first", where)


GRIDS = {"globe": ([90, 60, 30, 0, -30, -60, -90], [-180, -135, -90, -45, 0, 45, 90, 135]),
         "part": ([45, 40, 35, 30], [-20, -15, -10, -5, 0, 5]),
         "half cells": ([57.5, 52.5, 47.5], [-177.5, -92.5, -2.5, 87.5, 172.5])}
BOXES = [("globe", (-90, -30, 45, 60)), ("globe", (-100, -31, 50, 61)), ("globe", (135, -60, -135, 30)), ("globe", (100, 0, -100, 80)),
         ("globe", (90, 0, 45, 60)), ("globe", (45, -30, -180, 0)), ("part", (-15, 30, 5, 40)), ("part", (-12, 33, 3, 47)),
         ("half cells", (172.5, 47.5, -92.5, 52.5)), ("half cells", (-100, 50, 100, 60)), ("half cells", (80, 40, -10, 60))]
MORE = [("globe", (a, -30, b, 30)) for a in (-180, -170, -45, 0, 91, 135, 180) for b in (-180, -136, -90, -1, 45, 135, 170) if a != b]


def known(st, ds, d):
    v = ds.coords.get(d)
    a = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr if v is not None else None
    if a is None or a.ndim != 1 or a.shape[0].sym is not None:
        return None
    xs = [a.at((("L", k),)).p for k in range(a.shape[0].c)]
    return [float(x.const()) for x in xs] if all(x.is_const() for x in xs) else None


def places(arr, lat, lon):
    """What the cells of an array hold: positions in the file, None if not clear."""
    out = {}
    for j in range(len(lat)):
        for i in range(len(lon)):
            at = {"latitude": ("L", j), "longitude": ("L", i)}
            x = arr.at(tuple(at.get(d, ("L", 0)) for d in arr.dims)).p
            hit = set()
            for q in P.all_atoms(x):
                k = P.ATOMS[q]
                ix = {z[0]: z[1:] for y in k[2:] for z in (y, y[1] if len(y) > 1 else ()) if isinstance(z, tuple) and z and z[0] in GRID} \
                    if k[0] in ("sym", "fn") and all(isinstance(y, tuple) for y in k[2:]) else {}
                if len(ix) == 2:
                    hit.add((ix["latitude"], ix["longitude"]))
                if k[0] == "fn" and k[1] in ("sel", "rolled") or str(k[1])[:1] == "?":
                    return None
            out[j, i] = hit
    return out


def at(ix, n):
    return ix[1] if ix[0] == "L" else n - 1 - ix[1] if ix[0] == "H" else None


def example(rep, tag, st, v, grid, box, where):
    """A known grid cut by a known box."""
    lat, lon = GRIDS[grid]
    west, south, east, north = box
    c = st.heap.get(v.id) if isinstance(v, Ref) else None
    name = f"{tag}:{grid}:{box}"
    if not isinstance(c, (DsC, DaC)):
        rep.undecided("cells", name, f"result is {v!r}"[:120])
        return
    glat, glon = known(st, c, "latitude"), known(st, c, "longitude")
    if glat is None or glon is None:
        rep.undecided("cells", name, "coordinates kept are not known numbers")
        return
    want = [x for x in lat if south <= x <= north], [x for x in lon if (west <= x <= east if west <= east else x <= east or x >= west)]
    rep.holds("cells", name + ":latitude", glat == want[0], f"kept {glat} instead of {want[0]}", where)
    rep.holds("cells", name + ":longitude", sorted(glon) == want[1], f"kept {glon} instead of {want[1]}", where)
    if sorted(glon) != want[1] or glat != want[0]:
        return
    if west < east:
        rep.holds("cells", name + ":order", glon == want[1], f"order is {glon}", where)
    else:
        first = [x for x in want[1] if x >= west] + [x for x in want[1] if x < west]
        # all columns kept: any start is as good
        ok = glon == first or len(want[1]) == len(lon) and any(glon == lon[k:] + lon[:k] for k in range(len(lon)))
        rep.holds("contiguous", name, ok, f"columns {glon} are not in order from west to east", where)
    arrs = [(n, st.heap[st.heap[x.v if isinstance(x, Maybe) else x].nd].arr) for n, x in c.vars.items()] if isinstance(c, DsC) else [("mask", st.heap[st.heap[c.var].nd].arr)]
    bad, seen, open_ = [], 0, 0
    for n, a in arrs:
        if not set(GRID) <= set(a.dims):
            continue
        got = places(a, glat, glon)
        if got is None:
            open_ += 1
            continue
        for (j, i), hit in got.items():
            for p in hit:
                seen += 1
                jj, ii = at(p[0], len(lat)), at(p[1], len(lon))
                if jj is None or ii is None or lat[jj] != glat[j] or lon[ii] != glon[i]:
                    bad.append(f"{n} at {glat[j]}, {glon[i]} holds the value of {p}")
    if not seen or open_:
        rep.undecided("place", name, "values not followed")
    else:
        rep.holds("place", name, not bad, "; ".join(bad[:3]), where)


def examples(rep):
    more = BOXES + (MORE if rep.tier == "thorough" else [])
    for n, (grid, box) in enumerate(more):
        fixed = dict(zip(GRID, GRIDS[grid]))
        L = Load("states" if n % 2 else "fluxes", True, fixed, box)
        if not n:
            rep.world(L.w)
        example(rep, "data", L.st, L.out, grid, box, "load_data")
    for kind in ("nc2", "shp"):
        for grid, box in BOXES[:: 1 if rep.tier == "thorough" else 4]:
            w = World()
            w.fix(**dict(zip(GRID, GRIDS[grid])))
            path = region_file(w, kind)
            cfg = w.config(tagging_region=path, tracking_domain="bbox")
            set_box(w, cfg, box)
            r = w.call("wam2layers.tracking.io.load_tagging_region", [cfg])
            example(rep, "region-" + kind, w.st, r, grid, box, "load_tagging_region")


def check(rep):
    rep.rule("cells", "kept iff south <= lat <= north and (west <= lon <= east; if west > east: lon <= east or lon >= west)")
    rep.rule("contiguous", "across the dateline: data and coordinates rolled together so that a column outside the box comes first")
    rep.rule("place", "on known grids: a kept cell holds the values of its own place")
    rep.rule("alike", "a tagging region from a file is limited to the tracking domain too")
    for subset in ("fluxes", "states"):
        L = Load(subset, True)
        rep.world(L.w)
        b = L.st.heap[L.st.heap[L.cfg.id].f["tracking_domain"].id].f
        box = {k: v.p for k, v in b.items()}
        judge(rep, subset, L.w.I, L.cuts, box)
    for kind in ("nc2", "shp"):
        w = World()
        I, st = w.I, w.st
        path = region_file(w, kind)
        cuts = []
        old = I.cfg.get("sel")

        def sel(I, st, s, sel, kw, node, old=old, cuts=cuts):
            if set(sel) & set(GRID):
                cuts.append((I.guard(st), s, dict(sel), st.fork(), I.where_am_i()))
                return None
            return old(I, st, s, sel, kw, node) if old else None
        I.cfg["sel"] = sel
        cfg = w.config(tagging_region=path, tracking_domain="bbox")
        w.call("wam2layers.tracking.io.load_tagging_region", [cfg])
        rep.world(w)
        box = {k: v.p for k, v in st.heap[st.heap[cfg.id].f["tracking_domain"].id].f.items()}
        rep.holds("alike", kind, bool(cuts), "the region is not limited to the tracking domain", "load_tagging_region")
        judge(rep, "region-" + kind, I, cuts, box)
    examples(rep)
