"""Moisture budget closure of one time step, for every cell class of both
trackers: the change of the two tracked storages plus the recorded losses minus
the recorded gains equals what was tagged minus what was tracked plus a
transport term; summed with the cell areas over a whole grid the transport term
vanishes identically, so nothing is created or destroyed unrecorded."""

from engine import poly as P

from .common import TAGGED, TRACKED, all_steps, chooser, chooser_grid, grid_info, step


def transport(s, j, i):
    t = P.ZERO
    for n in ("s_track_upper_restart", "s_track_lower_restart", "losses"):
        t = t + s.delta(n, j, i)
    t = t - s.delta("gains", j, i)
    for n in TRACKED[s.direction]:
        t = t + s.delta(n, j, i)
    return t - s.delta(TAGGED[s.direction], j, i)


def check(rep):
    rep.rule("budget", "sum over all cells of area * (storage change + losses - gains + tracked - tagged) "
             "is the zero term, on a generic 4 x 5 grid (every position class of a larger grid)")
    rep.rule("local", "the same combination in a cell depends only on the fluxes through its own faces: with no "
             "horizontal flux it is the zero term")
    for s in all_steps(rep):
        for j, i in s.cells():
            rep.equal("local", f"{s.tag()}:{s.label(j, i)}", no_flux(transport(s, j, i)), P.ZERO, chooser,
                      where=s.where, what="unrecorded change of moisture without horizontal flux")
    ny, nx = (4, 5) if rep.tier == "quick" else (6, 7)
    for d in ("backward", "forward"):
        for per in (False, True):
            s = step(d, per, grid=(ny, nx))
            rep.world(s.w)
            tot = P.ZERO
            for j in range(ny):
                a = grid_info(s)[0](("L", j), ("L", 0))
                for i in range(nx):
                    tot = tot + P.unlet(transport(s, ("L", j), ("L", i))) * a
            rep.equal("budget", s.tag(), tot, P.ZERO, chooser_grid, where=s.where,
                      what="area-weighted unrecorded moisture")


def no_flux(p):
    m = {a: P.ZERO for a in P.all_atoms(p) if P.ATOMS[a][0] == "sym" and isinstance(P.ATOMS[a][1], tuple)
         and P.ATOMS[a][1][0] == "stab"}
    return P.subst(p, m)
