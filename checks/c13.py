"""Stability correction.  Within one time step the two flux components together
never move more than half of a cell's moisture: each component keeps its
direction, is reduced to at most half of the storage times its share of the
total, is unchanged when it already fits, is zero where both components are
zero, and is never undefined.  The storage is that of the cell the moisture
leaves from: the start of the step in the direction of integration."""

from engine import poly as P

from .common import LAYERS, all_steps, chooser, data_denominators, ds_arr, grid_info, last


def check(rep):
    rep.rule("limited", "flux = sign(f) min(|f|, 1/2 |f|/(|fx|+|fy|) storage*area/dt), 0 where both are 0")
    rep.rule("defined", "the corrected flux has no undefined (0/0) value")
    rep.rule("courant", "(|fx| + |fy|) dt <= 1/2 storage * area")
    rep.rule("only-fluxes", "the correction changes nothing but the four horizontal fluxes")
    cells = [(("L", 0), ("L", 0)), (("G", 0), ("G", 0)), (("H", 0), ("L", 1))]
    for s in all_steps(rep):
        z = last(s.w, "stabilize")
        area = grid_info(s)[0]
        b, a = z["before"], z["after"]
        Fb, Fa = b.heap[z["F"].id], a.heap[z["F"].id]
        if isinstance(getattr(z["ret"], "id", None), int) and hasattr(a.heap[z["ret"].id], "vars"):
            Fa = a.heap[z["ret"].id]
        for j, i in cells:
            for l in LAYERS:
                f = {c: ds_arr(b, Fb, c + l).at((j, i)).p for c in ("fx_", "fy_")}
                g = {c: ds_arr(a, Fa, c + l).at((j, i)) for c in ("fx_", "fy_")}
                store = s.sym("s_" + l, "old", j, i) * area(j, i)
                tot = P.pabs(f["fx_"]) + P.pabs(f["fy_"])
                nz = P.ONE - P.eq0(tot)
                for c in ("fx_", "fy_"):
                    cc = f"{s.tag()}:{c}{l}:{s.label(j, i)}"
                    lim = store * P.pabs(f[c]) * P.inv(tot) * P.inv(s.dt) * P.Fraction(1, 2)
                    sp = P.psign(f[c]) * P.pmin(P.pabs(f[c]), lim)
                    rep.equal("limited", cc, g[c].p, sp * nz, chooser, where="stabilize_fluxes", what="limited flux")
                    rep.holds("defined", cc, not data_denominators(g[c]),
                              "the flux is undefined (0/0) where both components are zero", "stabilize_fluxes")
                rep.le("courant", f"{s.tag()}:{l}:{s.label(j, i)}",
                       (P.pabs(g["fx_"].p) + P.pabs(g["fy_"].p)) * s.dt, store * P.Fraction(1, 2), chooser,
                       where="stabilize_fluxes", what="moisture leaving the cell")
        flux = {c + l for c in ("fx_", "fy_") for l in LAYERS}
        changed = []
        for n in Fb.vars:
            if n not in flux and ds_arr(b, Fb, n).fp() != (ds_arr(a, Fa, n) or ds_arr(b, Fb, "precip")).fp():
                changed.append(n)
        for k, c in b.heap.items():
            x = a.heap.get(k)
            if k != z["F"].id and type(c).__name__ == "NdC" and x is not c and x is not None and \
                    c.arr.fp() != x.arr.fp() and k not in own_buffers(b, Fb, flux):
                changed.append(f"array {k}")
        rep.holds("only-fluxes", s.tag(), not changed, f"also changes {changed}", "stabilize_fluxes")


def own_buffers(st, ds, names):
    return {st.heap[ds.vars[n]].nd for n in names if n in ds.vars}
