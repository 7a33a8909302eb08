"""Progress report.  The reported percentages are the area-weighted amounts since
the start of the run (tracked, still in the atmosphere, lost inside, lost at the
boundary, gained) relative to everything tagged, and the reported closure is
their balance; resetting the accumulated fields after a write does not change the
report; reporting and the stability warning change nothing in the run."""

import re

from engine import arr as A
from engine import poly as P
from engine.arr import Sc, elementwise, symbol_array
from engine.arr import Unsupported
from engine.interp import Dead
from engine.values import Fn, ObjC, Ref, StrT
from engine.world import GRID
from engine.lib import CONST
from engine.lib2 import sum_arr

from .common import STATES, TAGGED, TRACKED, Step, ds_arr, step, time_chooser, write_guard, loop_guard

LABELS = {"tracked": "Tracked moisture", "atmosphere": "Tagged in atmosphere", "boundary": "Boundary transport",
          "lost": "Lost moisture", "gained": "Gained moisture", "closure": "Tagging closure"}
FIELDS = ["losses", "gains"] + STATES


def parts(e):
    """name -> reported number, of a logged progress message."""
    out = {}
    if not (e.args and isinstance(e.args[0], StrT)):
        return out
    prev = ""
    for x in e.args[0].parts:
        if isinstance(x, str):
            prev = x
            continue
        if x[0] == "fmt" and isinstance(x[1], tuple) and x[1][0] == "p":
            for n, lab in LABELS.items():
                if re.search(re.escape(lab) + r":?\s*$", prev):
                    out[n] = P.POLY_BY_ID(x[1][1])
    return out


def reports(I, start=0):
    return [e for e in I.events[start:] if e.kind == "log" and len(parts(e)) >= 3]


class Reported:
    def __init__(self, d, per):
        self.s = s = Step(d, per, progress=True)
        I = s.I
        evs = [e for e in reports(I) if s.loop.id in e.loops]
        self.e = evs[-1] if evs else None
        self.qual = self.e.loc if evs else ""
        self.fn = I.lookup_qual(self.qual) if evs else None

    def again(self, st, fields=None):
        """The numbers the report would have in another state of the run."""
        s, I = self.s, self.s.I
        cls = self.qual.rsplit(".", 1)[0]
        obj = [i for i, c in st.heap.items() if isinstance(c, ObjC) and getattr(c.cls, "qual", None) == cls]
        if len(obj) != 1 or not isinstance(self.fn, Fn):
            return None
        st = st.fork()
        ds = Ref(s.outid) if fields is None else s.w.dataset(st, fields)
        n = len(I.events)
        try:
            I.call(self.fn, [Ref(obj[0]), s.new[1], ds], {}, st)
        except (Dead, Unsupported, KeyError, AttributeError, TypeError, IndexError):
            return None
        ev = reports(I, n)
        return parts(ev[-1]) if ev else None


def totals(s, fields):
    """Area (cos latitude) weighted totals of the fields."""
    I = s.I
    lat = symbol_array("latitude", ("latitude",), (s.w.len["latitude"],))
    deg = CONST["numpy.pi"].p * P.P(P.Fraction(1, 180))

    def weighted(a):
        return elementwise(lambda x, y: A.s_mul(x, Sc(P.fn("cos", y.p * deg))), [a, lat], True)

    def whole(a):
        return sum_arr(I, weighted(a), [0, 1], True).at(()).p

    def inner(a):
        k = (slice(1, -1), slice(None) if s.periodic else slice(1, -1))
        return sum_arr(I, A.getitem(weighted(a), k), [0, 1], True).at(()).p
    d = s.direction
    return {"tagged": whole(fields[TAGGED[d]]), "tracked": sum((whole(fields[n]) for n in TRACKED[d]), P.ZERO),
            "storage": sum((whole(fields[n]) for n in STATES), P.ZERO), "gains": whole(fields["gains"]),
            "losses": whole(fields["losses"]), "inner": inner(fields["losses"])}


def spec(tot):
    """Percentages from the totals."""
    g = P.inv(tot["tagged"]) * 100
    out = {
        "tracked": tot["tracked"] * g, "atmosphere": tot["storage"] * g, "gained": tot["gains"] * g,
        "boundary": (tot["losses"] - tot["inner"]) * g, "lost": tot["inner"] * g}
    out["closure"] = (tot["tracked"] + tot["storage"] + tot["losses"] - tot["gains"]) * g
    return out


def check(rep):
    rep.rule("report", "percentage = 100 x weighted total of the field / weighted total tagged")
    rep.rule("kept", "the report after the reset of a written step equals the report before it")
    rep.rule("pure", "every field after a step is the same term with and without the progress tracker")
    for d in ("backward", "forward"):
        for per in (False, True):
            R = Reported(d, per)
            s = R.s
            rep.world(s.w)
            c = s.tag()
            f = {n: s.w.field("X" + n, nonneg=True) for n in s.names()}
            got = R.again(s.loop.init, f)
            if not got:
                rep.undecided("report", c, "the report cannot be evaluated")
            else:
                want = spec(totals(s, f))
                for n in LABELS:
                    if n not in got:
                        rep.undecided("report", f"{c}:{n}", "not reported")
                    else:
                        rep.equal("report", f"{c}:{n}", got[n], want[n], where=R.qual, what=LABELS[n])
            # in the time loop: report, then reset
            now, then = parts(R.e) if R.e else {}, R.again(s.loop.end)
            wg = write_guard(s) * loop_guard(s)
            for n in LABELS:
                if not then or n not in now or n not in then:
                    rep.undecided("kept", f"{c}:{n}", "not reported")
                    continue
                rep.equal("kept", f"{c}:{n}", now[n], then[n], time_chooser, lambda v: v.poly(wg) == 1.0,
                          where=R.qual, what=f"{LABELS[n]} before and after the reset")
            p = step(d, per)
            for n in p.names():
                a, b = ds_arr(s.write.extra, s.wds, n), ds_arr(p.write.extra, p.wds, n)
                j, i = ("G", 0), ("G", 0)
                ix = ((("L", 0),) if a.ndim == 3 else ()) + (j, i)
                x, y = rename(a.at(ix).p, s), rename(b.at(ix).p, p)
                rep.equal("pure", f"{c}:{n}", x, y, time_chooser, where=s.where, what=f"{n} with and without reporting")


def rename(p, s):
    """Loop states by the name of their field, so that terms of two runs compare."""
    m = {}
    for n in s.names():
        a = ds_arr(s.loop.head, s.head_ds, n).at((("G", 0), ("G", 0))).p
        b = P.all_atoms(a)
        for x in P.all_atoms(p):
            k = P.ATOMS[x]
            if k[0] == "sym" and isinstance(k[1], str) and k[1].startswith("mu"):
                for y in b:
                    if P.ATOMS[y][0] == "sym" and P.ATOMS[y][1] == k[1]:
                        m[x] = P.sym("old", n, *k[2:])
    return P.subst(p, m)
