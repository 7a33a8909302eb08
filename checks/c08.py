"""Time stepping.  Every iteration uses the states at two times exactly one
timestep apart and the fluxes midway between them; the first iteration starts at
the tracking start (forward) or end (backward) date, successive iterations are
contiguous, and iterations go on exactly as long as they stay inside the
tracking window, so that the number of steps is finite."""

from engine import poly as P

from .common import MODULE, Stops, cfg_field, loop_guard, step, time_chooser


def check(rep):
    rep.rule("interval", "the two state times differ by exactly one timestep")
    rep.rule("midpoint", "fluxes are loaded halfway between the state times")
    rep.rule("march", "the k-th iteration starts at start + k dt (forward) or end - k dt (backward)")
    rep.rule("window", "iteration k takes place iff its whole interval lies in [start, end]")
    rep.rule("complete", "states at both ends and fluxes are loaded once per iteration")
    rep.rule("goes on", "with valid input no time step stops with an exception on every path")
    for d, per in [(d, per) for d in ("backward", "forward") for per in (False, True)]:
        c = f"{MODULE[d]}/{'periodic' if per else 'limited'}"
        try:
            s = step(d, per)
        except Stops as e:
            rep.holds("goes on", c, False, str(e), e.where)
            continue
        rep.world(s.w)
        rep.holds("goes on", c, True)
        rep.holds("complete", c, s.nstates == 2 and len(s.fluxes) == 1,
                  f"{s.nstates} state times and {len(s.fluxes)} flux times per iteration", s.where)
        rep.equal("interval", c, s.late[1].p - s.early[1].p, s.dt, time_chooser, where=s.where, what="length of a step")
        for n, f in enumerate(s.fluxes):
            rep.equal("midpoint", f"{c}:{n}", f["t"].p, (s.late[1].p + s.early[1].p) * P.Fraction(1, 2), time_chooser,
                      where=s.where, what="time of the fluxes")
        K = s.loop.K
        if s.direction == "backward":
            first = cfg_field(s, "tracking_end_date").p - K * s.dt
        else:
            first = cfg_field(s, "tracking_start_date").p + K * s.dt
        rep.equal("march", c, s.old[1].p, first, time_chooser, where=s.where, what="start of the k-th step")
        for l in s.loads:
            rep.equal("window", f"{c}:{l['subset']}:{'late' if l['tid'] == s.late[0] else 'early' if l['tid'] == s.early[0] else 'mid'}",
                      l["g"], loop_guard(s), time_chooser, where=l["loc"], what="whether the step takes place")
