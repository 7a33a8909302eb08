"""Grid geometry.  Cell areas are those of the spherical rectangles the cells cover (cut
off at the poles), so that cells tile the domain and a global grid tiles the sphere;
sides are arc lengths between neighbouring cell centres, zonal ones shrinking towards the
poles, whatever the order of the coordinates, their spacing and longitude convention."""

import math

from engine import poly as P
from engine.arr import Arr, DefiniteError, Ext as Len, Sc
from engine.interp import Dead  # noqa: F401 (import order)
from engine.lib import mk_nd, mk_var
from engine.report import AnchorLost
from engine.world import World

from .common import as_cell

R = 6.371e6
D = math.pi / 180


def grids(tier):
    def span(a, b, n):
        return [a + (b - a) * k / (n - 1) for k in range(n)]
    out = {
        "global 30x45": (span(90, -90, 7), span(-180, 135, 8)),
        "global 30x45 half cells": (span(75, -75, 6), span(-157.5, 157.5, 8)),
        "global south to north": (span(-90, 90, 7), span(0, 315, 8)),
        "quarter degree": (span(51, 50, 5), span(4, 5.5, 7)),
        "1x1.5 south": (span(-20, -25, 6), span(200, 206, 5)),
        "descending longitude": (span(30, 20, 6), span(20, 10, 6)),
        "two cells": ([10, 8], [4, 5]),
        "at the pole": (span(90, 88.5, 7), span(0, 1, 5)),
        "at the south pole": (span(-84, -90, 4), span(0, 3, 4)),
        "across zero": (span(4, -4, 9), span(-3, 3, 4)),
        "across the date line": (span(60, 40, 5), [150, 160, 170, -180, -170, -160]),
        "across the date line after one": (span(60, 40, 5), [170, -180, -170, -160]),
        "across the date line before one": (span(-10, -40, 4), [150, 160, 170, -180]),
        "across zero from 360": (span(10, 4, 4), [358.5, 0, 1.5, 3]),
    }
    if tier == "thorough":
        for n in (9, 13, 19):
            out[f"global {n}"] = (span(90, -90, n), span(-180, 180 - 360 / (2 * n), 2 * n))
            out[f"gauss-like {n}"] = (span(90 - 90 / n, -90 + 90 / n, n), span(0, 360 - 360 / n, n))
    return out


def check(rep):
    rep.rule("area", "cell area = R^2 * |dlon| * |sin(north edge) - sin(south edge)|, edges cut off at the poles")
    rep.rule("sphere", "the cells of a global grid together cover the sphere once")
    rep.rule("meridional", "meridional side = R * |dlat|")
    rep.rule("zonal", "zonal side = R * |dlon| * cos(latitude) (mean of both edges)")
    w0 = None
    for tag, (lat, lon) in grids(rep.tier).items():
        w = World()
        w0 = w0 or w
        w.fix(latitude=lat, longitude=lon)
        f = w.find("wam2layers.utils.grid.get_grid_info")
        ds = w.dataset(w.st, {"probe": w.field("probe")})
        try:
            v = w.I.call(f, [ds], {}, w.st)
        except DefiniteError as e:
            rep.holds("area", tag, False, f"the grid cannot be used: {e}", f.qual)
            continue
        items = w.I.concrete_items(v, w.st)
        if items is None or len(items) != 3:
            raise AnchorLost("get_grid_info does not return (area, dy, dx)")
        area, dy, dx = [as_cell(w.I, w.st, x) for x in items]
        ny, nx = len(lat), len(lon)
        dla, dlo = abs(lat[1] - lat[0]), abs(lon[1] - lon[0])
        dlo = min(dlo, 360 - dlo)
        total = P.ZERO
        cells = [(j, i) for j in range(ny) for i in sorted({0, nx // 2, nx - 1})]
        for j in range(ny):
            for i in range(nx):
                total = total + area(("L", j), ("L", i))
        strip = lambda la: (R ** 2 * dlo * D * (math.sin(min(90, la + dla / 2) * D) - math.sin(max(-90, la - dla / 2) * D)))
        for j, i in cells:
            jj, ii = ("L", j), ("L", i)
            at = f"{tag}:{lat[j]:g},{lon[i]:g}"
            rep.numeric("area", at, area(jj, ii), lambda v, j=j: strip(lat[j]), tries=1, what="cell area", tol=2e-3, where=f.qual)
            rep.numeric("meridional", at, dy(jj, ii), lambda v: R * dla * D, tries=1, what="meridional side", tol=2e-3, where=f.qual)
            z = lambda v, j=j: R * dlo * D * (math.cos((lat[j] + dla / 2) * D) + math.cos((lat[j] - dla / 2) * D)) / 2
            rep.numeric("zonal", at, dx(jj, ii), z, tries=1, what="zonal side", tol=2e-3, floor=1.0, where=f.qual)
        if tag.startswith("global"):
            for j in range(ny):
                rep.numeric("sphere", f"{tag}:row {lat[j]:g}", area(("L", j), ("L", 0)) * P.inv(total),
                            lambda v, j=j: strip(lat[j]) / (4 * math.pi * R ** 2), tries=1, what="share of the sphere", tol=1e-7, floor=1e-9, where=f.qual)
            rep.numeric("sphere", tag, total, lambda v: 4 * math.pi * R ** 2, tries=1, what="area of all cells", tol=2e-3, where=f.qual)
    again(rep)
    rep.world(w0)


def again(rep):
    """A grid after another of the same size: nothing of the first may be left."""
    w = World()
    f = w.find("wam2layers.utils.grid.get_grid_info")
    lat, lon = [60, 58, 56, 54], [0, 2, 4, 6, 8]
    for n, (la, lo) in enumerate((([20, 19, 18, 17], [0, 1, 2, 3, 4]), (lat, lon))):
        I, st = w.I, w.st
        known = lambda d, xs: mk_var(I, st, mk_nd(I, st, Arr((d,), (Len(None, len(xs)),), lambda ix: Sc(P.P(xs[ix[0][1] if ix[0][0] == "L" else len(xs) - 1 - ix[0][1]])))).id)
        probe = Arr(("latitude", "longitude"), (Len(None, len(la)), Len(None, len(lo))), lambda ix: Sc(P.ONE))
        ds = w.dataset(st, {f"probe{n}": probe}, {"latitude": known("latitude", la), "longitude": known("longitude", lo)})
        try:
            v = w.I.call(f, [ds], {}, w.st)
        except DefiniteError as e:
            rep.holds("area", "after another grid", False, f"the grid cannot be used: {e}", f.qual)
            return
    items = w.I.concrete_items(v, w.st)
    if items is None or len(items) != 3:
        return rep.undecided("area", "after another grid", "what is returned is not followed")
    area, dy, dx = [as_cell(w.I, w.st, x) for x in items]
    at = ("L", 1), ("L", 2)
    rep.numeric("area", "after another grid", area(*at), lambda v: R ** 2 * 2 * D * (math.sin(59 * D) - math.sin(57 * D)), tries=1, what="cell area", tol=2e-3, where=f.qual)
    rep.numeric("meridional", "after another grid", dy(*at), lambda v: R * 2 * D, tries=1, what="meridional side", tol=2e-3, where=f.qual)
    rep.numeric("zonal", "after another grid", dx(*at), lambda v: R * 2 * D * (math.cos(59 * D) + math.cos(57 * D)) / 2, tries=1, what="zonal side", tol=2e-3, where=f.qual)
