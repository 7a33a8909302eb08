"""Figures.  The view of the input totals all moisture tagged in the tagging period; the
view of the output totals all moisture tracked in the whole run: nothing left out, nothing
counted twice, and data that are missing are an error."""

import datetime

from engine import poly as P
from engine.arr import Arr, DefiniteError, Ext as Len, Sc, select
from engine.interp import Dead
from engine.lib import constify, delit
from engine.report import AnchorLost
from engine.values import DaC, NdC, Opaque, Ref, StrT
from engine.world import World, load_data_stub, mk_da, mk_nd, mk_var

from .column import errors

VIEW = "wam2layers.analysis.visualization."
GRID_ = dict(latitude=[20, 10, 0], longitude=[0, 10, 20, 30])
EPOCH = datetime.datetime(1970, 1, 1)
REGION = "/data/region.nc"
IN = ("precip", "evap", "s_upper", "s_lower", "fx_upper", "fx_lower", "fy_upper", "fy_lower")
OUT = {"backward": ("e_track", "tagged_precip", "s_track_upper_restart", "s_track_lower_restart", "losses", "gains"),
       "forward": ("p_track_lower", "p_track_upper", "tagged_evap", "s_track_upper_restart", "s_track_lower_restart", "losses", "gains")}
UNIT = {"h": 3600, "min": 60, "D": 86400, "d": 86400, "s": 1}


def secs(*d):
    return int((datetime.datetime(*d) - EPOCH).total_seconds())


def date(p):
    """The date of a known time."""
    return EPOCH + datetime.timedelta(seconds=float(p.const())) if p.is_const() else None


def known(o, name):
    d = date(o.p)
    return getattr(d, name, None) if d is not None else None


def seconds(freq):
    n = freq.rstrip("hminDsd")
    return int(n or 1) * UNIT[freq[len(n):]]


def case(direction, tag, track, dt, every, out):
    return dict(direction=direction, tag=tag, track=track, timestep=dt, input=every, output=out)


D = secs
CASES = {
    "whole days": case("backward", (D(2021, 7, 2), D(2021, 7, 2, 23)), (D(2021, 6, 30), D(2021, 7, 3)), 3600, "1h", "1D"),
    "within a day": case("backward", (D(2021, 7, 2, 5), D(2021, 7, 2, 17)), (D(2021, 7, 1, 6), D(2021, 7, 2, 18)), 1800, "3h", "6h"),
    "over midnight": case("forward", (D(2021, 12, 30, 18), D(2022, 1, 1, 6)), (D(2021, 12, 30, 12), D(2022, 1, 2, 3)), 3600, "6h", "12h"),
    "from evening to morning": case("forward", (D(2021, 2, 27, 21), D(2021, 3, 1, 3)), (D(2021, 2, 27, 21), D(2021, 3, 2)), 7200, "3h", "1D"),
    "parts of steps": case("backward", (D(2021, 7, 1, 0, 20), D(2021, 7, 2, 0, 10)), (D(2021, 7, 1), D(2021, 7, 2, 5, 20)), 3600, "30min", "3h"),
    "parts of steps forward": case("forward", (D(2021, 7, 1), D(2021, 7, 2)), (D(2021, 7, 1, 1), D(2021, 7, 2, 5, 20)), 3600, "1h", "3h"),
}


class View:
    """One view of one case; ``lost``: (kind, date) of a file that is not there."""

    def __init__(self, c, lost=None, region="bbox"):
        self.c, self.lost, self.kind = c, lost, region
        self.rtimes = [c["tag"][0] + 1740 + 5 * 3600 * k for k in range(-1, 6)]
        self.w = w = World()
        w.fix(**GRID_)
        I, st = w.I, w.st
        I.cfg.update(time_parts=known, time_order=True, daterange=self.daterange, open_dataset=self.open, fs=self.fs,
                     implicit_errors=False, calendar="standard", glob=self.glob)
        names = zip(("tagging_start_date", "tagging_end_date", "tracking_start_date", "tracking_end_date"), c["tag"] + c["track"])
        self.cfg = w.config(tracking_direction=c["direction"], timestep=c["timestep"], input_frequency=c["input"], output_frequency=c["output"],
                            tagging_region="bbox" if region == "bbox" else StrT((REGION,), True), calendar="standard", **{k: Sc(P.P(v), k="time") for k, v in names})
        w.cut("wam2layers.config.Config.from_yaml", lambda I, st, args, kw, node: self.cfg)
        w.cut("wam2layers.tracking.shared.initialize_tagging_region", self.region)
        w.loads = []
        w.cut("wam2layers.tracking.io.load_data", load_data_stub(w))
        self.opened = []
        self.files = {}
        for d in range(min(c["track"][0], c["tag"][0]) // 86400, max(c["track"][1], c["tag"][1]) // 86400 + 1):
            self.files[self.path("input", d * 86400)] = ("input", d * 86400)
        for t in self.written():
            self.files[self.path("output", t)] = ("output", t)

    def path(self, kind, t):
        """Where the package keeps the data."""
        t = Sc(P.P(t), k="time")
        folder = self.w.st.heap[self.cfg.id].f["preprocessed_data_folder"]
        r = self.w.call("wam2layers.tracking.io.input_path", [t, folder]) if kind == "input" else self.w.call("wam2layers.tracking.io.output_path", [t, self.cfg])
        r = self.text(r)
        if r is None:
            raise AnchorLost(f"the path of {kind} files is not followed")
        return r

    # -- what a complete run writes and reads ---------------------------------
    def written(self):
        """Times at which output is written."""
        (a, b), dt, every = self.c["track"], self.c["timestep"], seconds(self.c["output"])
        n = (b - a) // dt
        ts = [a + k * dt for k in range(1, n + 1)] if self.c["direction"] == "forward" else [b - k * dt for k in range(1, n + 1)]
        return [t for t in ts if t % every == 0 or t == ts[-1]]

    def tagged(self):
        """Times of input in the tagging period."""
        (a, b), dt = self.c["tag"], seconds(self.c["input"])
        return [t for t in range(-(-a // dt) * dt, b + 1, dt)]

    # -- model -----------------------------------------------------------------
    def region(self, I, st, args, kw, node):
        return mk_nd(I, st, self.w.field("region", nonneg=True))

    def region_at(self, t):
        if self.kind != "varying":
            return self.w.field("region", nonneg=True)
        return self.w.field(("region", min(self.rtimes, key=lambda x: abs(x - t))), nonneg=True)

    def text(self, v):
        """A path with the known dates filled in."""
        v = delit(v) if not isinstance(v, StrT) else v
        if isinstance(v, str):
            return v
        if not isinstance(v, StrT):
            return None
        out = []
        for x in v.parts:
            if isinstance(x, str):
                out.append(x)
            elif x[0] == "time":
                d = date(P.POLY_BY_ID(x[1]))
                if d is None:
                    return None
                out.append(d.strftime(x[2]))
            else:
                out.append("{" + ":".join(map(str, x)) + "}")
        return "".join(out)

    def daterange(self, I, st, start, end, freq, incl, cal):
        from engine.lib2 import td_of_freq
        f = td_of_freq(I, st, freq)
        if not (isinstance(start, Sc) and isinstance(end, Sc) and start.p.is_const() and end.p.is_const() and f.is_const()):
            raise AnchorLost("a range of dates is not followed")
        a, b, f = start.p.const(), end.p.const(), f.const()
        out, t = [], a
        while t <= b:
            if not (t == a and incl in ("right", "neither") or t == b and incl in ("left", "neither")):
                out.append(Sc(P.P(t), k="time"))
            t += f
        return out

    def there(self, p):
        return p in self.files and self.files[p] != self.lost

    def fs(self, I, st, name, p, args, kw, node):
        t = self.text(p) if name in ("exists", "is_file") else None
        if t is None or not (t in self.files or t.endswith(".nc")):
            return None
        return self.there(t)

    def glob(self, I, st, p, pat, node):
        raise AnchorLost("files are searched for")

    def open(self, I, st, p, name, kw, node):
        t = self.text(p)
        if t is None:
            raise AnchorLost("a path that is opened is not followed")
        if t == REGION:
            if self.kind == "stationary":
                return mk_da(I, st, self.w.field("region", nonneg=True), self.w.grid_coords())
            a = stacked([self.w.field(("region", x), nonneg=True) for x in self.rtimes])
            return mk_da(I, st, a, dict(self.w.grid_coords(), time=clock(I, st, self.rtimes)))
        if not self.there(t):
            I.do_raise(st, Opaque(("exc", "FileNotFoundError", t)), node, "FileNotFoundError")
            st.alive = False
            raise Dead()
        kind, t0 = self.files[t]
        self.opened.append((kind, t0))
        times = [t0 + k for k in range(0, 86400, seconds(self.c["input"]))] if kind == "input" else [t0]
        names = IN if kind == "input" else OUT[self.c["direction"]]
        fields = {}
        for n in names:
            per = [self.w.field((n, P.P(x).ident()), pos=n.startswith("s_"), nonneg=n in ("precip", "evap") or kind == "output") for x in times]
            fields[n] = stacked(per)
        coords = dict(self.w.grid_coords(), time=clock(I, st, times))
        return self.w.dataset(st, fields, coords)

    # -- run ---------------------------------------------------------------------
    def run(self, view):
        """The name of the exception, or None."""
        try:
            self.w.call(VIEW + view, [StrT((("sym", "config_file"),), True)])
        except (Dead, DefiniteError) as e:
            return str(e) or next((x.name for x in reversed(self.w.I.events) if x.kind == "raise"), "error")
        return None

    def drawn(self):
        """Everything on the grid that is drawn: (array, event)."""
        out = []
        for e in self.w.I.events:
            if e.kind == "plot" and e.name not in ("contour", "hist", "line"):
                a = self.array(e.extra, e.args[0])
                out.append((a, e))
            elif e.kind == "method" and e.name == "plot" and isinstance(e.args[0], Opaque):
                out.append((None, e))
            elif e.kind == "method" and e.name in ("pcolormesh", "contourf", "imshow", "pcolor", "tricontourf"):
                st = self.w.st
                out.extend((a, e) for a in (self.array(st, v) for v in list(e.args) + list(e.kw.values())) if a is not None and a.ndim == 2)
        return out

    @staticmethod
    def array(st, v):
        c = st.heap.get(v.id) if isinstance(v, Ref) else None
        return c.arr if isinstance(c, NdC) else st.heap[st.heap[c.var].nd].arr if isinstance(c, DaC) else None


def clock(I, st, times):
    """A coordinate of known times."""
    xs = [Sc(P.P(t), k="time") for t in times]

    def at(ix):
        b, k = ix[0]
        return xs[k] if b == "L" else xs[len(xs) - 1 - k] if b == "H" else select(ix[0], xs)
    return mk_var(I, st, mk_nd(I, st, Arr(("time",), (Len(None, len(xs)),), at)).id)


def stacked(per):
    """Known times in front."""
    def at(ix):
        b, k = ix[0]
        if b == "G":
            raise AnchorLost("an unknown time of a file")
        return per[k if b == "L" else len(per) - 1 - k].at(ix[1:])
    return Arr(("time",) + per[0].dims, (Len(None, len(per)),) + tuple(per[0].shape), at)


def total(v, view, j, i):
    """What the view shows at a cell."""
    at = lambda n, t: v.w.field((n, P.P(t).ident()), nonneg=True).at((j, i)).p
    d = v.c["direction"]
    if view == "input":
        n = "precip" if d == "backward" else "evap"
        return sum((at(n, t) * v.region_at(t).at((j, i)).p for t in v.tagged()), P.ZERO) * P.P(seconds(v.c["input"]))
    names = ("e_track",) if d == "backward" else ("p_track_lower", "p_track_upper")
    return sum((at(n, t) for n in names for t in v.written()), P.ZERO)


VIEWS = {"visualize_input_data": ("input",), "visualize_output_data": ("output",), "visualize_both": ("input", "output")}


def unclear(p):
    return any(P.ATOMS[q][0] == "fn" and P.ATOMS[q][1] not in ("sum",) for q in P.all_atoms(p))


def check(rep):
    rep.rule("input", "cumulative input = input interval x tagged input at all times within the tagging period x region")
    rep.rule("output", "tracked moisture = sum over all output files of the run")
    rep.rule("works", "the view of a complete run is drawn and saved")
    rep.rule("folder", "the figure is written within the output folder, to a folder that is made unless it is there")
    rep.rule("missing", "a file that is not there is an error")
    for name, c in CASES.items():
        for f, parts in VIEWS.items():
            if f == "visualize_both" and rep.tier != "thorough" and name not in ("whole days", "over midnight"):
                continue
            for region in ("bbox", "stationary", "varying"):
                if region != "bbox" and rep.tier != "thorough" and name not in ("over midnight", "parts of steps"):
                    continue
                one(rep, f, parts, f"{f}:{name}" + (f":region:{region}" if region != "bbox" else ""), c, region)
    lost(rep)


def one(rep, f, parts, tag, c, region):
    try:
        v = View(c, region=region)
        err = v.run(f)
    except errors() + (AnchorLost,) as e:
        rep.undecided("works", tag, f"{type(e).__name__}: {e}"[:150])
        return
    rep.world(v.w)
    saved = [e for e in v.w.I.events if e.kind in ("method", "call") and e.name.split(".")[-1] == "savefig"]
    rep.holds("works", tag, err is None, f"fails: {err}", f)
    if err is not None:
        return
    drawn = v.drawn()
    if None in [a for a, _ in drawn] or not drawn:
        rep.undecided(parts[0], tag, "what is drawn is not followed")
        return
    rep.holds("works", f"{tag}:saved", any(s.seq > max(e.seq for _, e in drawn) for s in saved), "the figure is not saved after drawing", f)
    folder(rep, v, f, tag, saved)
    judge(rep, v, f, parts, tag, drawn)


def folder(rep, v, f, tag, saved):
    """The figure goes to a folder within the output folder that is there."""
    for s in saved:
        p = next((x for x in list(s.args) + list(s.kw.values()) if isinstance(x, (str, StrT))), None)
        t = v.text(p) if p is not None else None
        if t is None:
            rep.undecided("folder", tag, "the path of the figure is not followed", s.loc)
            continue
        out = "{sym:cfg:output_folder}"
        rep.holds("folder", f"{tag}:where", t.startswith(out + "/"), f"the figure is written to {t}", s.loc)
        if not t.startswith(out + "/"):
            continue
        need = t.rsplit("/", 1)[0]
        made = [e for e in v.w.I.events if e.kind == "fs" and e.name == "mkdir" and e.seq < s.seq and v.text(e.args[0]) == need]
        ok = need == out or any(e.kw.get("exist_ok") is True and (e.kw.get("parents") is True or need.rsplit("/", 1)[0] == out) for e in made)
        guarded = any(e.kw.get("exist_ok") is not True for e in made) and any(e.kind == "fs" and e.name in ("exists", "is_dir") and v.text(e.args[0]) == need for e in v.w.I.events)
        rep.holds("folder", f"{tag}:made", ok or guarded, "the folder of the figure may not be there, or may be there already", s.loc)


def judge(rep, v, f, parts, tag, drawn):
    cells = [(("L", 1), ("L", 2)), (("L", 0), ("H", 0))]
    for part in parts:
        want = [total(v, part, j, i) for j, i in cells]
        best = None
        for a, e in drawn:
            if set(a.dims) != {"latitude", "longitude"}:
                continue
            got = [a.at((j, i) if a.dims[0] == "latitude" else (i, j)).p for j, i in cells]
            syms = lambda p: {P.ATOMS[q][1][0] for q in P.all_atoms(p) if P.ATOMS[q][0] == "sym" and isinstance(P.ATOMS[q][1], tuple)}
            score = (got == want, len(syms(got[0]) & syms(want[0])))
            if best is None or score > best[0]:
                best = (score, got, e)
        if best is None:
            rep.undecided(part, tag, "nothing on the grid is drawn")
            continue
        if any(unclear(p) for p in best[1]):
            rep.undecided(part, tag, "a term is not followed")
            continue
        for (j, i), g, x in zip(cells, best[1], want):
            rep.equal(part, f"{tag}:{j[1]},{i[1]}", g, x, where=best[2].loc, what="what is drawn at a cell")


def lost(rep):
    for name in ("over midnight", "parts of steps"):
        c = CASES[name]
        for part, f in (("input", "visualize_input_data"), ("output", "visualize_output_data")):
            ts = View(c).written() if part == "output" else sorted({t // 86400 * 86400 for t in View(c).tagged()})
            for t in {ts[0], ts[-1]}:
                tag = f"{f}:{name}:{date(P.P(t))}".replace(" ", "T")
                try:
                    v = View(c, (part, t))
                    err = v.run(f)
                except errors() + (AnchorLost,) as e:
                    rep.undecided("missing", tag, f"{type(e).__name__}: {e}"[:150])
                    continue
                saved = any(e.kind in ("method", "call") and e.name.split(".")[-1] == "savefig" for e in v.w.I.events)
                rep.holds("missing", tag, err is not None or not saved, "a figure is made without the file", f)
