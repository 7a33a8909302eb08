"""Vertical exchange and sources per layer.  While no limit applies, each
layer's storage changes by its horizontal transport, plus or minus one common
vertical exchange (upwind in the vertical flux, positive downward, plus a
mixing term proportional to |flux| and the difference in tagged fraction), plus
its share of the newly tagged moisture, minus its share of the tracked
moisture."""

from engine import poly as P

from .common import LAYERS, all_steps, chooser, is_boundary, updated


def check(rep):
    rep.rule("layer-update", "new storage of a layer = old storage + transport +/- vertical exchange + tagged share "
             "- tracked share, where both layers stay within [0, total storage]")
    for s in all_steps(rep):
        for j, i in s.cells():
            if is_boundary(s, j, i):
                continue
            upd = {l: updated(s, l, j, i) for l in LAYERS}
            cap = {l: s.sym("s_" + l, "new", j, i) for l in LAYERS}

            def calm(v):
                return all(1e-6 < v.poly(upd[l]) < v.poly(cap[l]) - 1e-6 for l in LAYERS)

            for l in LAYERS:
                rep.equal("layer-update", f"{s.tag()}:{s.label(j, i)}:{l}", s.after(f"s_track_{l}_restart", j, i).p,
                          upd[l], chooser, calm, where=s.where, what=f"tracked storage of the {l} layer")
