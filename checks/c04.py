"""Fluxes through cell faces.  Input fluxes per unit length are multiplied by
the length of the side they cross; the flux through a face is the mean of the
two cells it separates, no flux crosses the outer boundary, and with a periodic
domain the first and last column share a face.  Decided on the terms that reach
the stability correction, and on the written output of a step in which all
moisture is tagged (so that only the face fluxes matter)."""

from engine import poly as P

from .c01 import transport
from .common import LAYERS, all_steps, chooser, ds_arr, face_x, face_y, grid_info, last, neighbour


def check(rep):
    rep.rule("side-length", "eastward flux * meridional side, northward flux * zonal side of the same row, at th")
    rep.rule("face", "with relative storages 1, the exchange of a cell is dt/area * (inflow - outflow) over its faces, "
             "face flux = mean of the adjacent cells, outer faces closed, first/last column adjacent iff periodic")
    for s in all_steps(rep):
        a, dy, dx = grid_info(s)
        z = last(s.w, "stabilize")
        F = z["before"].heap[z["F"].id]
        for l in LAYERS:
            for comp, side in (("fx_", dy), ("fy_", dx)):
                arr = ds_arr(z["before"], F, comp + l)
                for j, i in [(("L", 0), ("L", 0)), (("G", 0), ("G", 0)), (("H", 0), ("H", 0))]:
                    rep.equal("side-length", f"{s.tag()}:{comp}{l}:{s.label(j, i)}", arr.at((j, i)).p,
                              s.sym(comp + l, "flux", j, i) * side(j, i), chooser, where=s.where,
                              what="flux through a cell side")
        for j, i in s.cells():
            t = transport(s, j, i)
            m = {}
            for k in (-1, 0, 1):
                for n in (-1, 0, 1):
                    jj, ii = neighbour(s, 0, j, k) if k else j, neighbour(s, 1, i, n) if n else i
                    if jj is None or ii is None:
                        continue
                    for l in LAYERS:
                        x = s.raw(l, jj, ii)
                        if len(x.t) == 1:
                            (mono, c), = x.t.items()
                            if len(mono) == 1 and mono[0][1] == 1 and c == 1:
                                m[mono[0][0]] = s.sym("s_" + l, "old", jj, ii)
            t = P.unlet(P.subst(t, m))
            sg = -1 if s.direction == "backward" else 1
            spec = P.ZERO
            for l in LAYERS:
                w = neighbour(s, 1, i, -1)
                n = neighbour(s, 0, j, -1)
                spec = spec - face_x(s, l, j, i) + (face_x(s, l, j, w) if w else P.ZERO)
                spec = spec + face_y(s, l, j, i) - (face_y(s, l, n, i) if n else P.ZERO)
            rep.equal("face", f"{s.tag()}:{s.label(j, i)}", t, spec * sg * s.dt * P.inv(a(j, i)), chooser,
                      where=s.where, what="net flux through the faces of the cell")
