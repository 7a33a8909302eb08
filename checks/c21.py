"""Column integration.  Storages and fluxes are integrals over pressure (divided by
gravity) of humidity, and of humidity times wind, over layers between levels: from
the top of the atmosphere (no humidity) to the surface, with the values of the
surface there; levels below the surface do not count; the profile is linear between
levels and is split at the layer boundary.  With total column water, everything is
scaled so that the column holds that amount."""

from .column import FIELDS, KINDS, chooser, columns, modes


def check(rep):
    rep.rule("integral", "value = sum over the layers between levels of (mid humidity [* mid wind]) * pressure thickness / g "
             "[* total column water / sum of mid humidity * thickness / g]")
    for c in columns(rep, "integral", KINDS if rep.tier == "thorough" else [k for k in KINDS if k[1:] != ("model_levels", False)]):
        for mode, tcw in modes(c):
            ch = chooser(c, tcw)
            for n in FIELDS:
                rep.numeric("integral", f"{c.tag}:{mode}:{n}", c.field(n), lambda v: (c.expected(v, tcw) or {}).get(n), ch,
                            where="preprocess", what=n, tries=120 if rep.tier == "thorough" else 60)
