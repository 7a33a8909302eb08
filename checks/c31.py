"""Data checks.  The checks of input data warn about exactly what is wrong: values
outside the range of their variable, coordinates that are not uniformly spaced or do
not run the right way, and missing or other units; they say nothing of good data."""

from engine import poly as P
from engine.arr import Arr, Ext as Len, Sc
from engine.report import AnchorLost
from engine.lib import mk_da, mk_ds, mk_nd, mk_var
from engine.values import DictC, Fn, ListC, Ref, StrT
from engine.world import World, constants, symbol_array

from engine.interp import Dead

from .column import errors

Q = "wam2layers.analysis.checks."
RATE, STATE, FLUX = "kg m-2 s-1", "kg m-2", "kg m-1 s-1"
UNITS = dict(evap=RATE, precip=RATE, s_upper=STATE, s_lower=STATE, fx_upper=FLUX, fx_lower=FLUX, fy_upper=FLUX, fy_lower=FLUX)
SIGNED = {"fx_upper", "fx_lower", "fy_upper", "fy_lower"}
TYPICAL = dict(evap=(0, "0.0001"), precip=(0, "0.003"), s_upper=(2, 15), s_lower=(1, 40))  # ordinary values
ABSURD = dict(evap=5, precip=50, s_upper=10**5, s_lower=10**5)
DIMS = ("time", "latitude", "longitude")
COORDS = dict(latitude=[10, 5, 0], longitude=[0, 5, 10], time=[0, 3600])


class Data:
    """Input data: known unless asked for."""

    def __init__(self, rep, free=None, coords=None, units=None, over=None, dims=DIMS):
        self.w = w = World()
        I, st = w.I, w.st
        vals = {**COORDS, **(coords or {})}
        self.c = {}
        for d in DIMS:
            v = vals[d]
            arr = constants(d, v) if isinstance(v, list) else symbol_array(d, (d,), (Len(None, v),))
            self.c[d] = mk_var(I, st, mk_nd(I, st, arr).id)
        vars = {}
        for n, u in UNITS.items():
            sh = tuple(Len(None, len(vals[d]) if isinstance(vals[d], list) else vals[d]) for d in dims)
            if n == free:
                a = symbol_array(n, dims, sh)
            else:
                lo, hi = TYPICAL.get(n, (-100, 300))
                v = [P.P(P.Fraction(str(x))) for x in (over or {}).get(n, (lo, hi))]
                a = Arr(dims, sh, lambda ix, v=v: Sc(v[sum(i[1] for i in ix if i[0] == "L") % len(v)]), "num", set(range(len(dims))))
            u = (units or {}).get(n, u)
            vid = mk_var(I, st, mk_nd(I, st, a).id, I.alloc(st, DictC({"units": u} if u else {})).id)
            vars[n] = vid
        self.ds = mk_ds(I, st, vars, {d: v for d, v in self.c.items() if d in dims})
        self.failed = False
        try:
            w.call(Q + "check_input", [self.ds])
        except Dead:
            self.failed = True  # an error is a report as well
        rep.world(w)

    def warned(self, about=None):
        """The condition on which something (about a variable) is reported."""
        if self.failed:
            return P.ONE
        g = P.ZERO
        for e in self.w.I.events:
            if e.kind == "log" or e.kind == "raise":
                t = " ".join(text(a) for a in e.args)
                if about is None or about in t:
                    g = g + e.guard - g * e.guard
        return g

    def messages(self):
        return [" ".join(text(a) for a in e.args) for e in self.w.I.events if e.kind == "log" and not e.guard.is_zero()]


def text(a):
    if isinstance(a, str):
        return a
    return "".join(x if isinstance(x, str) else repr(x) for x in a.parts) if isinstance(a, StrT) else repr(a)


def sure(p):
    return None if not p.is_const() else bool(p.const())


def check(rep):
    rep.rule("quiet", "good data are not reported")
    rep.rule("range", "a variable is reported exactly if a value lies outside of its range; storages, evaporation and precipitation are not negative")
    rep.rule("coordinates", "a coordinate is reported exactly if it is not uniformly spaced or does not increase (latitude: decrease)")
    rep.rule("units", "a variable is reported if its units are missing or others than those the preprocessing writes")
    rep.rule("dimensions", "a variable is reported if it lacks a dimension")
    rep.rule("single", "each check by itself reports exactly the data that do not satisfy it")
    for f in (quiet, ranges, coordinates, units, dimensions, singles):
        try:
            f(rep)
        except errors() + (AnchorLost,) as e:
            rep.undecided(f.__name__, "check_input", f"{type(e).__name__}: {e}"[:160])


def quiet(rep):
    d = Data(rep)
    known(rep, "quiet", "good data", d.warned(), False, f"reports {d.messages()[:3]}")
    d = Data(rep, coords=dict(latitude=[2, 1, 0]))
    known(rep, "quiet", "fine grid", d.warned(), False, f"reports {d.messages()[:3]}")


def known(rep, rule, tag, cond, want, detail):
    s = sure(cond)
    if s is None:
        rep.undecided(rule, tag, "condition not known: " + P.show(cond)[:120])
    else:
        rep.holds(rule, tag, s is want, detail, "check_input")


def ranges(rep):
    table = limits()
    for n in UNITS:
        for what, over in ((("below", -ABSURD[n]), ("above", ABSURD[n])) if n in ABSURD else (("below", -10**6), ("above", 10**6))):
            lo, hi = TYPICAL.get(n, (-100, 300))
            d = Data(rep, over={n: (lo, hi, over)})
            known(rep, "range", f"{n}:{what}", d.warned(n), True, f"{n} of {over} is not reported")
        if n not in SIGNED:
            d = Data(rep, over={n: (TYPICAL[n][1], "-0.0001")})
            known(rep, "range", f"{n}:negative", d.warned(n), True, f"negative {n} is not reported")
        if n not in table:
            continue
        lo, hi = table[n]
        rep.holds("range", f"{n}:table", (lo >= 0) == (n not in SIGNED) and lo < hi, f"the range of {n} is {lo} to {hi}", "VARIABLES")
        d = Data(rep, free=n, coords=dict(latitude=[5, 0], longitude=[0, 5]))
        def ch(k, r, lo=float(lo), hi=float(hi), n=n):
            if k[:2] != ("sym", n):
                return None
            if r.random() < 0.9:
                return r.choice([lo, hi, (lo + hi) / 2, lo + (hi - lo) / 3])
            return r.choice([lo - (hi - lo) / 7, hi + (hi - lo) / 9])

        def want(v, n=n, lo=float(lo), hi=float(hi)):
            xs = [v.atom(P.atom(("sym", n) + tuple((dim, "L", k) for dim, k in zip(DIMS, ix)))) for ix in
                  ((i, j, k) for i in range(2) for j in range(2) for k in range(2))]
            return 1.0 if min(xs) < lo or max(xs) > hi else 0.0
        rep.numeric("range", f"{n}:any", d.warned(n), want, ch, where="check_input", what=f"{n} is reported", tries=60)


def limits():
    """Declared ranges."""
    w = World()
    t = w.I.lookup_qual(Q + "VARIABLES")
    c = w.st.heap.get(t.id) if isinstance(t, Ref) else None
    c = c or (w.I.base.heap.get(t.id) if isinstance(t, Ref) else None)
    heap = {**w.I.base.heap, **w.st.heap}
    out = {}
    for n, v in (c.d if isinstance(c, DictC) else {}).items():
        x = heap.get(v.id) if isinstance(v, Ref) else None
        r = x.d.get("range") if isinstance(x, DictC) else None
        r = heap.get(r.id) if isinstance(r, Ref) else None
        its = [w.I.sc(y).p for y in r.items] if isinstance(r, ListC) and r.tail is None else []
        if len(its) == 2 and all(p.is_const() for p in its):
            out[n] = tuple(p.const() for p in its)
    return out


def coordinates(rep):
    for dim in ("latitude", "longitude", "time"):
        d = Data(rep, coords={dim: 4})
        sign = -1 if dim == "latitude" else 1

        def ch(k, r, dim=dim, sign=sign):
            if k[:2] != ("sym", dim):
                return None
            i = k[2][2]
            return float(sign * i * 2) if r.random() < 0.8 else r.choice([-4.0, 0.0, 1.0, 4.0])

        def want(v, dim=dim, sign=sign):
            x = [v.atom(P.atom(("sym", dim, (dim, "L", k)))) for k in range(4)]
            steps = [b - a for a, b in zip(x, x[1:])]
            if not any(steps):
                return None
            return 1.0 if max(steps) - min(steps) > 1e-9 or sign * steps[0] < 0 else 0.0
        rep.numeric("coordinates", dim, d.warned(dim), want, ch, where="check_coords", what=f"{dim} is reported", tries=80)


def units(rep):
    for n, u in UNITS.items():
        for what, bad in (("missing", None), ("other", "m"), ("flux" if u != FLUX else "rate", FLUX if u != FLUX else RATE)):
            d = Data(rep, units={n: bad})
            known(rep, "units", f"{n}:{what}", d.warned(n), True, f"{n} in units {bad!r} is not reported")
        for bad in sorted(set(UNITS.values()) - {u}) + ["kg", "1", "mm"]:
            d = Data(rep, units={n: bad})
            known(rep, "units", f"{n}:{bad}".replace(" ", "_"), d.warned(n), True, f"{n} in units {bad!r} is not reported")


def dimensions(rep):
    d = Data(rep, dims=("latitude", "longitude"))
    known(rep, "dimensions", "time", d.warned(None), True, "data without times are not reported")


ORDERED = ("level",)
SINGLE = {  # function -> arguments, what is wrong with four values
    "check_positive": ((), lambda x: min(x) < 0),
    "check_nonnegative": ((), lambda x: min(x) < 0),
    "check_negative": ((), lambda x: max(x) > 0),
    "check_range": (((0, 10),), lambda x: min(x) < 0 or max(x) > 10),
    "check_order_of_magnitude": ((0,), lambda x: min(x) < 1 or max(x) > 10),
    "check_uniform": ((), lambda x: max(steps(x)) != min(steps(x))),
    "check_monotonic_increase": ((), lambda x: min(steps(x)) < 0),
    "check_monotonic_decrease": ((), lambda x: max(steps(x)) > 0),
}


def steps(x):
    return [b - a for a, b in zip(x, x[1:])]


def singles(rep):
    for name, (args, wrong) in SINGLE.items():
        w = World()
        if not isinstance(w.I.lookup_qual(Q + name), Fn):
            rep.undecided("single", name, "not there")
            continue
        w.len["level"] = Len(None, 4)
        d = mk_da(w.I, w.st, symbol_array("x", ORDERED, (Len(None, 4),)), {"level": w.coord("level")}, "x")
        try:
            w.call(Q + name, [d] + [w.I.alloc(w.st, ListC(a)) if isinstance(a, tuple) else a for a in args])
        except errors() as e:
            rep.undecided("single", name, f"{type(e).__name__}: {e}"[:160])
            continue
        rep.world(w)
        g = P.ZERO
        for e in w.I.events:
            if e.kind in ("log", "raise"):
                g = g + e.guard - g * e.guard

        def ch(k, r):
            if k[:2] != ("sym", "x"):
                return None
            i = k[2][2]
            return float(r.choice((2 * i, 2 * i, 2 * i, 7 - 2 * i, -1, 0, 1, 5, 11)))

        def want(v, wrong=wrong):
            x = [v.atom(P.atom(("sym", "x", ("level", "L", k)))) for k in range(4)]
            return 1.0 if wrong(x) else 0.0
        for k, chooser in enumerate((ch, straight(1), straight(-1))):
            rep.numeric("single", f"{name}:{k}", g, want, chooser, where=name, what="data are reported", tries=60)


def straight(sign):
    """Values in even steps; now and then not."""
    def ch(k, r):
        if k[:2] != ("sym", "x"):
            return None
        return sign * (1.0 + 3 * k[2][2]) + (0.0 if r.random() < 0.85 else r.choice([-1.0, 1.0, -20.0, 20.0]))
    return ch
