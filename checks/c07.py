"""Tagging and tracking bookkeeping.  The moisture tagged in a step is
dt * region mask * (precipitation backward / evaporation forward), only if the
time of the step (at the side the integration starts from) lies in the tagging
window, both ends included; the mask of a bounding box includes its edges and
may cross the dateline, the mask of a region file is used as given (selected at
the time of the step if it varies in time); the tracked moisture recorded is the
tagged fraction of the evaporation / precipitation of the layers it leaves."""

from engine import poly as P

from .common import INTERIOR, LAYERS, TAGGED, TRACKED, all_steps, cfg_field, chooser, step, time_chooser, tracked


def window(s):
    t = s.old[1].p
    a, b = cfg_field(s, "tagging_start_date").p, cfg_field(s, "tagging_end_date").p
    return P.le(a, t) * P.le(t, b)


def bbox_mask(s, j, i):
    b = s.w.st.heap[cfg_field(s, "tagging_region").id].f
    w, so, e, n = (b[k].p for k in ("west", "south", "east", "north"))
    lat, lon = P.sym("latitude", ("latitude",) + j), P.sym("longitude", ("longitude",) + i)
    inlat = P.le(so, lat) * P.le(lat, n)
    x, y = P.le(w, lon), P.le(lon, e)
    return inlat * P.where(P.gt0(w - e), x + y - x * y, x * y)


def flux(s, j, i):
    return s.sym("precip" if s.direction == "backward" else "evap", "flux", j, i)


def edges(k, r):
    """Also place box edges exactly on grid coordinates."""
    if k[0] == "sym" and k[1] == "bbox":
        lat, lon = [60.0, 59.0, 41.0, 22.0, 21.0], [10.0, 11.5, 40.0, 78.5, 80.0]
        if k[3] in ("west", "east") and r.random() < 0.3:
            return 40.0  # a box of one column, often enough
        if r.random() < 0.5:
            return r.choice(lat if k[3] in ("south", "north") else lon)
    return time_chooser(k, r)


def check(rep):
    rep.rule("tagged", "increment of the tagged moisture = dt * mask * flux inside the tagging window (both ends "
             "included), else 0")
    rep.rule("tracked", "increment of the tracked moisture = dt * flux share of the layer * min(tracked/total, 1)")
    rep.rule("region-time", "a time-dependent region is selected at the time the tagged flux is attributed to")
    rep.rule("region-static", "a region without time dimension is read once")
    for s in all_steps(rep):
        for j, i in s.cells():
            c = f"{s.tag()}:{s.label(j, i)}"
            rep.equal("tagged", c, s.delta(TAGGED[s.direction], j, i),
                      s.dt * bbox_mask(s, j, i) * flux(s, j, i) * window(s), edges, where=s.where, what="tagged moisture",
                      tries=400 if j == INTERIOR[0] else None)
            for n in TRACKED[s.direction]:
                layer = "upper" if n.endswith("upper") else "lower"
                rep.equal("tracked", f"{c}:{n}", s.delta(n, j, i), s.dt * tracked(s, layer, j, i), chooser,
                          where=s.where, what="tracked moisture")
    for d in ("backward", "forward"):
        for kind in ("nc2", "shp", "nc3"):
            s = step(d, False, region=kind)
            rep.world(s.w)
            for j in INTERIOR:
                i = ("G", 0)
                name = "region" if kind != "nc3" else ("region", s.old[0])
                mask = P.sym(name, ("latitude",) + j, ("longitude",) + i)
                rep.equal("tagged", f"{s.tag()}:{kind}:{s.label(j, i)}", s.delta(TAGGED[d], j, i),
                          s.dt * mask * flux(s, j, i) * window(s), time_chooser, where=s.where, what="tagged moisture")
            rl = s.w.region_loads
            if kind == "nc3":
                sel = [x for x in rl if x[0] == "sel"]
                ok = bool(sel) and all(x[2] in ("nearest", None) for x in sel)
                rep.holds("region-time", f"{s.tag()}:{kind}", ok, "the region is not selected in time", s.where)
            else:
                inloop = [x for x in rl if x[0] == "open" and x[2]]
                rep.holds("region-static", f"{s.tag()}:{kind}", not inloop, "the region is read again in the time loop",
                          s.where)
