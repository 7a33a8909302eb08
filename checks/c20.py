"""Surface water.  Evaporation and precipitation are written as non-negative rates in
kg m-2 s-1: evaporation is the upward part of the input's vapour flux at the surface,
precipitation is the input's precipitation plus the downward part of that flux."""

from engine import poly as P

from .column import Column, chooser

KINDS = [("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("ARCO", "pressure_levels", True),
         ("CMIP", "pressure_levels", False)]
HEAT = 2.45e6


def period(c, v):
    st = c.p.w.st
    return v.atom(P.atom(("sym", "td", c.p.w.I.fp(st.heap[c.p.cfg.id].f["input_frequency"], st)), pos=True))


def raw(c, v):
    """(precipitation, upward vapour flux) of the input as rates."""
    if c.source == "CMIP":
        mean = lambda role: 0.5 * sum(c.sfc(v, role, h) for h in ("-9/2", "-3/2"))
        return max(mean("tp"), 0.0), mean("e") / HEAT
    s = 1000.0 / period(c, v)
    return s * max(c.sfc(v, "tp"), 0.0), -s * c.sfc(v, "e")


def check(rep):
    rep.rule("evap", "evaporation = upward part of the vapour flux, as a rate")
    rep.rule("precip", "precipitation = precipitation of the input + downward part of the vapour flux, as a rate")
    rep.rule("sign", "neither is negative")
    for src, lt, listed in KINDS:
        c = Column(src, lt, listed)
        rep.world(c.p.w)
        if c.error:
            rep.undecided("evap", c.tag, c.error)
            continue
        base = chooser(c)

        def ch(k, r):
            if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "in" and k[1][1] == "hfls":
                return r.choice([0.0, 120.0, -40.0, 300.0, -100.0, r.uniform(-200, 200)])
            if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "in" and k[1][1] == "pr":
                return r.choice([0.0, 1e-4, 3e-5, r.uniform(0, 1e-3)])
            if k[:2] == ("sym", "td"):
                return r.choice([3600.0, 10800.0, 21600.0, 86400.0, 129600.0, 900.0, 5400.0])
            return base(k, r)
        ch.free = base.free
        for n, want in (("evap", lambda v: max(raw(c, v)[1], 0.0)), ("precip", lambda v: raw(c, v)[0] + max(-raw(c, v)[1], 0.0))):
            if n not in c.ds.vars:
                rep.holds(n, c.tag, False, "not written", "preprocess")
                continue
            f = c.field(n)
            rep.numeric(n, c.tag, f, want, ch, where="get_input_data", what=n, tries=120, floor=1e-7)
            rep.nonneg("sign", f"{c.tag}:{n}", f, ch, where="get_input_data", what=n, tries=120)
