"""Tracked storages stay physical.  For every position class: the storages the
next step starts from are at least zero and at most the total storage of the
layer at that time, losses and gains only grow, cells on the outer boundary are
emptied into the losses, and nothing is lost or gained while the layers together
have room."""

from engine import poly as P

from .common import LAYERS, all_steps, chooser, data_denominators, is_boundary, updated


def check(rep):
    rep.rule("lower-bound", "the tracked storage after a step is >= 0")
    rep.rule("upper-bound", "the tracked storage after a step is <= the total storage of that layer at the new time")
    rep.rule("finite", "no step of the computation can be 0/0 or x/0 for positive total storages")
    rep.rule("boundary-cleared", "tracked storage is 0 in cells on the open boundary after a step")
    rep.rule("monotone", "recorded losses and gains of an interior cell do not decrease within an output interval")
    rep.rule("no-spurious-loss", "in an interior cell, losses and gains do not change while both layers' tracked "
             "storages are >= 0 and their sum fits in the total column")
    for s in all_steps(rep):
        for j, i in s.cells():
            c = f"{s.tag()}:{s.label(j, i)}"
            for l in LAYERS:
                v = s.after(f"s_track_{l}_restart", j, i)
                total = s.sym("s_" + l, "new", j, i)
                rep.le("lower-bound", f"{c}:{l}", P.ZERO, v.p, chooser, where=s.where, what="tracked storage")
                rep.le("upper-bound", f"{c}:{l}", v.p, total, chooser, where=s.where, what="tracked storage")
                rep.holds("finite", f"{c}:{l}", not data_denominators(v), "division by a term that can be zero", s.where)
                if is_boundary(s, j, i):
                    rep.equal("boundary-cleared", f"{c}:{l}", v.p, P.ZERO, chooser, where=s.where,
                              what="tracked storage on the boundary")
            for n in ("losses", "gains"):
                if is_boundary(s, j, i):
                    continue
                rep.le("monotone", f"{c}:{n}", P.ZERO, s.delta(n, j, i), chooser, where=s.where, what=n)
            if not is_boundary(s, j, i):
                u, lo = updated(s, "upper", j, i), updated(s, "lower", j, i)
                tot = s.sym("s_upper", "new", j, i) + s.sym("s_lower", "new", j, i)

                def room(v, u=u, lo=lo, tot=tot):
                    x, y = v.poly(u), v.poly(lo)
                    return x > 1e-6 and y > 1e-6 and x + y < v.poly(tot) - 1e-6

                for n in ("losses", "gains"):
                    rep.equal("no-spurious-loss", f"{c}:{n}", s.delta(n, j, i), P.ZERO, chooser, room,
                              where=s.where, what=f"change of {n} although the column has room")
