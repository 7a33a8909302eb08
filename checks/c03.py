"""Horizontal transport is the donor-cell upwind scheme.  For every position
class of a cell (corners, edges, next to the edge, interior, seam) the moisture
exchanged with the neighbours, extracted from the written output of one step, is
compared with the upwind exchange through its four faces divided by the cell
area; time-reversed fluxes for backward tracking."""

from engine import poly as P

from .c01 import transport
from .common import advection, all_steps, chooser, grid_info


def check(rep):
    rep.rule("upwind", "storage change + losses - gains + tracked - tagged of a cell equals "
             "dt/area * (sum over its faces of flux * relative tracked storage of the upwind cell), for both layers")
    for s in all_steps(rep):
        for j, i in s.cells():
            a = grid_info(s)[0](j, i)
            spec = s.dt * P.inv(a) * (advection(s, "upper", j, i) + advection(s, "lower", j, i))
            rep.equal("upwind", f"{s.tag()}:{s.label(j, i)}", transport(s, j, i), spec, chooser, where=s.where,
                      what="moisture exchanged with the neighbouring cells")
