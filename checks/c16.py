"""Validation of the configuration.  Settings are accepted exactly when dates come in
order, bounding boxes lie on the globe and options are among those documented; whether
they are given at once or changed later."""

import random

from engine import poly as P
from engine.arr import Sc
from engine.values import ObjC

from .schema import DATES, Schema, box, settings

PAIRS = [(a, b) for a, b in zip(DATES[::2], DATES[1::2])]
SIDES = ("west", "south", "east", "north")
LIMIT = {"west": 180, "east": 180, "south": 80, "north": 80}
ALL = dict(restart=True, periodic_boundary=True, level_type="pressure_levels", tracking_direction="forward", calendar="noleap",
           parallel_preprocess=True, kvf=0, timestep=3600)


def dates_chooser(key, rng):
    if key[0] == "sym" and key[1] == "date":
        return float(rng.choice([0, 1, 2, 3, 5, 8]) + (2 if key[2] in DATES[1::2] else 0)) + DATES.index(key[2]) * 1e-3
    return None


def box_chooser(key, rng):
    if key[0] == "sym" and key[1] == "side":
        m = LIMIT[key[2]]
        return float(rng.choice([-m, m, -m - 1, m + 1, 0, rng.uniform(-m, m), rng.uniform(-m, m), rng.uniform(-m, m), rng.uniform(-m, m), 1e4]))
    return None


def verdict(rep, rule, construct, g, ok, detail, where):
    """Accepted (ok) or refused, with no condition left open."""
    if g.is_const():
        rep.holds(rule, construct, g.is_one() if ok else g.is_zero(), detail, where)
    else:
        rep.undecided(rule, construct, f"accepted when {P.show(g)}"[:160])


def check(rep):
    rep.rule("order", "accepted <=> tracking, tagging and preprocessing each start before they end")
    rep.rule("box", "a bounding box is accepted <=> |longitudes| <= 180, |latitudes| <= 80, south < north")
    rep.rule("option", "accepted values are exactly those documented")
    rep.rule("required", "settings without default cannot be left out")
    rep.rule("assign", "changing a setting later is validated like giving it at first")
    first = None
    # order of dates
    s = first = Schema()
    g, o, why = s.accepted(settings(s))
    where = s.cls.qual

    def ordered(v):
        t = {d: v.poly(P.sym("date", d)) for d in DATES}
        if any(t[a] == t[b] for a, b in PAIRS):
            return None  # a period of no length: either way
        return float(all(t[a] < t[b] for a, b in PAIRS))
    rep.numeric("order", "all dates", g, ordered, chooser=dates_chooser, where=where, what="accepted", tries=max(rep.tries, 200))
    for a, b in PAIRS:
        s = Schema()
        late = {d: Sc(P.P(n), k="time") for n, d in enumerate(DATES)}
        late[a], late[b] = late[b], late[a]
        g, o, why = s.accepted(settings(s, **late))
        rep.equal("order", f"{b} before {a}", g, P.ZERO, None, where=where, what="accepted", tries=10)
    for tag, other in [("restarting", dict(restart=True)), ("forward", dict(tracking_direction="forward")),
                       ("all options", ALL)]:
        s = Schema()
        g, o, why = s.accepted(settings(s, **other))
        rep.numeric("order", f"all dates, {tag}", g, ordered, chooser=dates_chooser, where=where, what="accepted", tries=max(rep.tries, 200))
    rep.world(first.w)
    # regions
    for field in ("tagging_region", "tracking_domain"):
        s = Schema()
        sides = [Sc(P.sym("side", k)) for k in SIDES]
        fixed = {d: Sc(P.P(n), k="time") for n, d in enumerate(DATES)}
        g, o, why = s.accepted(settings(s, **fixed, **{field: box(s.w, *sides)}))

        def inside(v):
            x = {k: v.poly(P.sym("side", k)) for k in SIDES}
            return float(all(-LIMIT[k] <= x[k] <= LIMIT[k] for k in SIDES) and x["south"] < x["north"])
        rep.numeric("box", field, g, inside, chooser=box_chooser, where=where, what="accepted", tries=max(rep.tries, 300))
        s2 = Schema()
        g2, _, _ = s2.accepted(settings(s2, **fixed, **ALL, **{field: box(s2.w, *sides)}))
        rep.numeric("box", f"{field}, all options", g2, inside, chooser=box_chooser, where=where, what="accepted", tries=max(rep.tries, 300))
        if o is not None:
            c = s.st.heap[s.st.heap[o.id].f[field].id]
            for k in SIDES:
                rep.equal("box", f"{field}:{k} kept", s.I.sc(c.f[k]).p if isinstance(c, ObjC) else P.ZERO, P.sym("side", k), box_chooser, where=where, what=k, tries=20)
        rep.world(s.w)
        for tag, vals, ok in [("across the dateline", (170, -10, -170, 10), True), ("upside down", (0, 20, 10, 10), False),
                              ("flat", (0, 20, 10, 20), False), ("at the limits", (-180, -80, 180, 80), True), ("beyond the pole", (0, 0, 10, 81), False),
                              ("0 to 360", (0, 0, 350, 10), False), ("three numbers", (0, 0, 10), False)]:
            s = Schema()
            g, o, why = s.accepted(settings(s, **fixed, **{field: box(s.w, *vals)}))
            verdict(rep, "box", f"{field}:{tag}", g, ok, why or f"{'refused' if ok else 'accepted'} {vals}", where)
    # options
    fixed = {d: Sc(P.P(n), k="time") for n, d in enumerate(DATES)}

    def option(name, value, ok, tag=None):
        s = Schema()
        v = s.I.alloc(s.st, value) if not isinstance(value, (str, int, float, bool, type(None))) and value is not ... else value
        g, o, why = s.accepted(settings(s, **{**fixed, name: v}))
        verdict(rep, "required" if value is ... else "option", f"{name}={'left out' if value is ... else tag or value!r}", g, ok,
                f"{'refused: ' + why if ok else 'accepted'}", where)
        return s
    from engine.values import ListC
    for v, ok in (("forward", True), ("backward", True), ("sideways", False), ("Backward", False)):
        option("tracking_direction", v, ok)
    for v, ok in (("model_levels", True), ("pressure_levels", True), ("levels", False)):
        option("level_type", v, ok)
    for v, ok in (("All", True), ("all", True), ("some", False)):
        option("levels", v, ok)
    option("levels", ListC((20, 40, 60)), True, "[20, 40, 60]")
    for c in ("standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day", "julian", "all_leap", "366_day"):
        option("calendar", c, True)
    for c in ("lunar", "Standard", "365"):
        option("calendar", c, False)
    option("tracking_domain", None, True)
    option("calendar", ..., True)
    for name in ("tracking_direction", "tagging_region", "output_folder", "preprocessed_data_folder", "filename_template", "input_frequency",
                 "output_frequency", "timestep", "level_type", "levels", "restart", "periodic_boundary", "kvf"):
        option(name, ..., False)
    for d in DATES:
        option(d, ..., False)
    for name in ("parallel_preprocess", "parallel_processes", "level_layer_boundary", "pressure_boundary_factor", "pressure_boundary_offset"):
        option(name, ..., True)
    s = Schema()
    rep.holds("assign", "configuration class", s.option("validate_assignment") is True or s.option("frozen") is True, "assignments are not validated", where)
