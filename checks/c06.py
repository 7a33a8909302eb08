"""Vertical flux closure.  The vertical flux handed to the trackers closes the
moisture budget of the two layers: relative to its storage at the end of the
interval, the residual is the same in both layers, unless the flux is limited;
it never exceeds min(mean storages) / (1 + kvf) per time step, and is evaluated
forward in time for both tracking directions."""

from engine import poly as P

from .common import INTERIOR, LAYERS, all_steps, chooser, da_arr, grid_info, last, neighbour


def spec(s, j, i, area, seam_open=False, sources=True):
    S0 = {l: P.sym(("s_" + l, s.early[0]), ("latitude",) + j, ("longitude",) + i, pos=True) for l in LAYERS}
    S1 = {l: P.sym(("s_" + l, s.late[0]), ("latitude",) + j, ("longitude",) + i, pos=True) for l in LAYERS}
    mean = {l: (S0[l] + S1[l]) * P.Fraction(1, 2) for l in LAYERS}
    tot = mean["upper"] + mean["lower"]
    err = {}
    for l in LAYERS:
        e, w = neighbour(s, 1, i, 1), neighbour(s, 1, i, -1)
        n, so = neighbour(s, 0, j, -1), neighbour(s, 0, j, 1)
        div = (s.stab("fx_" + l, j, e) - s.stab("fx_" + l, j, w)) * P.Fraction(1, 2)
        if seam_open and i == ("L", 0):
            div = s.stab("fx_" + l, j, ("L", 1)) - s.stab("fx_" + l, j, i)
        if seam_open and i == ("H", 0):
            div = s.stab("fx_" + l, j, i) - s.stab("fx_" + l, j, ("H", 1))
        div = div - (s.stab("fy_" + l, so, i) - s.stab("fy_" + l, n, i)) * P.Fraction(1, 2)
        err[l] = S1[l] - S0[l] + s.dt * div * P.inv(area)
        if sources:
            err[l] = err[l] + s.dt * sources * (
                s.sym("precip", "flux", j, i) * mean[l] * P.inv(tot)
                - (s.sym("evap", "flux", j, i) if l == "lower" else P.ZERO))
    fz = err["lower"] - S1["lower"] * P.inv(S1["lower"] + S1["upper"]) * (err["lower"] + err["upper"])
    lim = P.pmin(mean["upper"], mean["lower"]) * P.inv(P.ONE + s.kvf)
    return P.psign(fz) * P.pmin(P.pabs(fz), lim) * P.inv(s.dt), lim


def check(rep):
    rep.rule("closure-transport", "without precipitation and evaporation: residual_lower/S_lower = residual_upper/S_upper "
             "at the later time after moving the flux downwards, limited by min(mean storages)/(1+kvf)")
    rep.rule("closure-sources", "as closure-transport, with precipitation split by storage and evaporation from the lower layer")
    rep.rule("source-shape", "precipitation and evaporation enter with the right sign, layer and share, up to a common "
             "geometric factor")
    rep.rule("flux-limit", "|flux| * dt <= min(mean storages) / (1 + kvf)")
    rep.rule("finite", "no division by a term that can be zero for positive storages")
    for s in all_steps(rep):
        z = last(s.w, "fz")
        arr = da_arr(z["after"], z["ret"])
        area = grid_info(s)[0]
        cols = INTERIOR + ([("L", 0), ("H", 0)] if s.periodic else [])
        for j in INTERIOR:
            for i in cols:
                c = f"{s.tag()}:{s.label(j, i)}"
                v = arr.at((j, i))
                a = area(j, i)
                src = {}
                for n in ("precip", "evap"):
                    x = s.sym(n, "flux", j, i)
                    src[next(iter(P.atoms_of(x)))] = x
                dry = P.subst(v.p, {k: P.ZERO for k in src})
                sp, lim = spec(s, j, i, a, sources=False)
                rep.equal("closure-transport", c, dry, sp, chooser, where="calculate_fz", what="vertical flux")
                rep.holds("finite", c, not [d for d in v.d if not grid_only(d[1])],
                          "division by a term that can be zero", "calculate_fz")
                rep.le("flux-limit", c, P.pabs(v.p) * s.dt, lim, chooser, where="calculate_fz",
                       what="moisture moved vertically in one step")
                full, _ = spec(s, j, i, a, sources=P.ONE)
                n, w = rep.sample(v.p, full, chooser, None, 40)
                if w is None:
                    rep.equal("closure-sources", c, v.p, full, chooser, where="calculate_fz", what="vertical flux")
                    continue
                if (j, i) == (("G", 0), ("G", 0)):
                    rep.equal("closure-sources", c, v.p, full, chooser, where="calculate_fz", what="vertical flux")
                scaled = P.subst(v.p, {k: x * a for k, x in src.items()})
                rep.equal("source-shape", c, scaled, full, chooser, where="calculate_fz", what="vertical flux")


def grid_only(d):
    syms = [P.ATOMS[a] for a in P.all_atoms(d) if P.ATOMS[a][0] == "sym"]
    return all(k[1] in ("latitude", "longitude", "timestep", "kvf") for k in syms)
