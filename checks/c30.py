"""Input files.  Every variable is read from the file its template names for the time
asked for (or from all files the template matches), and preprocessing goes on without a
file only where total column water is optional; any other failure to read stops it."""

import fnmatch

from engine import poly as P
from engine.arr import DefiniteError, Sc
from engine.interp import Dead
from engine.report import AnchorLost
from engine.values import Opaque, Ref, StrT

from .c24 import present
from .column import LABELS, NAME, errors
from .prep import Prep, key

GRID_ = dict(latitude=[20, 10, 0], longitude=[0, 10, 20, 30])
DATES = [(2020, 2, 9, 23, 30), (2020, 11, 30, 4, 0)]
PARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
TEMPLATES = ["/ERA5data/{year}/{month:02}/ERA5_{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc",
             "in/{variable}.nc", "/a{levtype}/{year}{month:02}{day:02}T{hour:02}{minute:02}/{variable}.nc",
             "/x/{variable}/{day}-{month}-{year}.{hour}h{minute:02}{levtype}.nc"]
FMT = {"%Y": lambda d: f"{d[0]:04}", "%m": lambda d: f"{d[1]:02}", "%d": lambda d: f"{d[2]:02}", "%H": lambda d: f"{d[3]:02}",
       "%M": lambda d: f"{d[4]:02}", "%S": lambda d: "00", "%y": lambda d: f"{d[0] % 100:02}"}
CMIP_T = ["/data/cmip/{variable}_*.nc", "cmip/{variable}_6hr*_r1i1p1.nc", "/data/{variable}/x_{variable}_[0-9]*.nc"]
LEVELS = {"ERA5": ("q", "u", "v")}
MOD = {"ERA5": "era5", "CMIP": "cmip", "ARCO": "arco"}


class Lookup(Prep):
    """Preprocessing of two times; the files that are opened; ``bad``: (variable, stage, exception)."""

    def __init__(self, source, level_type, listed, template=None, bad=None, files=(), two=True):
        lv = [Sc(P.P(x)) for x in LABELS[level_type]] if listed else "All"
        self.bad, self.files, self.hit = bad, list(files), False
        kw = dict(filename_template=template) if template else {}
        super().__init__(source, level_type, lv, nlev=None if listed else 3, grid=GRID_, **kw)
        I, st = self.w.I, self.w.st
        I.cfg["time_parts"] = self.known
        I.cfg["time_order"] = True
        I.cfg["implicit_errors"] = False
        if two:
            self.times.append(Sc(P.sym("T1"), k="time"))
        self.error = self.gap = None
        q = f"wam2layers.preprocessing.{MOD[source]}.get_input_data"
        self.ran = []
        for t in self.times:
            try:
                self.w.call(q, [t, self.cfg])
                self.ran.append(t)
            except (Dead, DefiniteError) as e:
                self.error = str(e) or next((x.name for x in reversed(I.events) if x.kind == "raise"), "error")
                break
            except (AnchorLost, *errors()) as e:
                self.gap = f"{type(e).__name__}: {e}"[:140]
                break

    def known(self, o, name):
        for t, d in zip(self.times, DATES):
            if o.p == t.p:
                return dict(zip(PARTS, d + (0, 0))).get(name)
        return None

    def text(self, v):
        """A path with the known dates filled in."""
        if isinstance(v, str):
            return v
        if not isinstance(v, StrT):
            return None
        out = []
        for x in v.parts:
            if isinstance(x, str):
                out.append(x)
            elif x == ("sym", "cwd"):
                out.append(".")
            elif x[0] == "time" and x[2] in FMT:
                d = next((d for t, d in zip(self.times, DATES) if t.p == P.POLY_BY_ID(x[1])), None)
                if d is None:
                    return None
                out.append(FMT[x[2]](d))
            else:
                return None
        r = "".join(out)
        while r.startswith("./"):
            r = r[2:]
        return r

    def fail(self, st, node):
        self.hit = True
        kind = self.bad[2]
        self.w.I.do_raise(st, Opaque(("exc", kind, "injected")), node, kind)
        st.alive = False
        raise Dead()

    def open(self, I, st, p, name, kw, node):
        v = self.var_of(p) if "zarr" not in name else "zarr"
        if v is None:
            raise AnchorLost("a path that is opened is not followed")
        if self.bad and self.bad[1] == "open" and v == self.bad[0]:
            self.fail(st, node)
        return super().open(I, st, p, name, kw, node)

    def sel(self, I, st, s, sel, kw, node):
        if self.bad and self.bad[1] == "time" and "time" in sel and not isinstance(sel["time"], slice):
            c = st.heap.get(s.id) if isinstance(s, Ref) else None
            names = {P.ATOMS[q][1][1] for a in self.arrays(st, s) for q in P.all_atoms(a.generic().p)
                     if P.ATOMS[q][0] == "sym" and isinstance(P.ATOMS[q][1], tuple) and P.ATOMS[q][1][0] == "stored"} if c is not None else set()
            if self.bad[0] in names:
                self.fail(st, node)
        return super().sel(I, st, s, sel, kw, node)

    def glob(self, I, st, p, pat, node):
        if not self.files or not isinstance(pat, str):
            return super().glob(I, st, p, pat, node)
        d = self.text(p)
        if d is None:
            return None
        full = f"{d}/{pat}" if d not in (".", "") else pat
        r = [StrT((f,), True) for f in self.files if fnmatch.fnmatchcase(f, full) and f.count("/") == full.count("/")]
        self.parts.update({key(q): x for q, x in zip(r, ("1", "2"))})
        return r


def variables(source, level_type):
    for role, n in NAME[source].items():
        if level_type == "model_levels" and role in ("us", "vs", "d2m"):
            continue
        yield role, n


def era5(rep):
    for lt, prefix in (("pressure_levels", "_pl"), ("model_levels", "_ml")):
        for tmpl in TEMPLATES:
            p = Lookup("ERA5", lt, lt == "model_levels", tmpl)
            rep.world(p.w)
            tag = f"ERA5:{lt}:{tmpl}"
            if p.gap or p.error:
                (rep.undecided("template", tag, p.gap) if p.gap else rep.holds("template", tag, False, f"fails: {p.error}", "load_data"))
                continue
            for role, n in variables("ERA5", lt):
                want = {tmpl.format(**dict(zip(PARTS, d)), levtype=prefix if role in LEVELS["ERA5"] else "", variable=n).replace("./", "")
                        for d in DATES}
                got = [p.text(x[1]) for x in p.opened if x[0] == n]
                if None in got:
                    rep.undecided("template", f"{tag}:{n}", "path not followed")
                else:
                    rep.holds("template", f"{tag}:{n}", set(got) == want, f"{sorted(want)} expected, {sorted(set(got))} opened", "load_data")


def cmip(rep):
    names = [n for _, n in variables("CMIP", "pressure_levels")]
    for tmpl in CMIP_T:
        mk = lambda n, k: tmpl.format(variable=n).replace("[0-9]*", f"{k}").replace("*", f"Lev_{k}")
        files = [mk(n, k) for n in names for k in (1, 2)]
        other = [mk("ta", 1), f"/data/cmip/old/{names[0]}_1.nc"] + [mk("x" + n, 1).replace(".nc", ".txt") for n in names]
        p = Lookup("CMIP", "pressure_levels", False, tmpl, files=sorted(files + other))
        rep.world(p.w)
        tag = f"CMIP:{tmpl}"
        if p.gap or p.error:
            (rep.undecided("template", tag, p.gap) if p.gap else rep.holds("template", tag, False, f"fails: {p.error}", "template_to_files"))
            continue
        for n in names:
            got = {p.text(x[1]) for x in p.opened if x[0] == n}
            if None in got:
                rep.undecided("template", f"{tag}:{n}", "path not followed")
                continue
            want = {mk(n, 1), mk(n, 2)}
            rep.holds("template", f"{tag}:{n}", got == want, f"{sorted(want)} expected, {sorted(got)} opened", "template_to_files")
        p = Lookup("CMIP", "pressure_levels", False, tmpl, files=other, two=False)
        rep.world(p.w)
        if p.gap:
            rep.undecided("stop", tag + ":none", p.gap)
        else:
            rep.holds("stop", tag + ":none", p.error is not None, "goes on without any input file", "open_var")


def check(rep):
    rep.rule("template", "the files opened for a variable are those the template names for the time and level type")
    rep.rule("stop", "a file that is absent or cannot be read, or lacks the time, stops preprocessing")
    rep.rule("optional", "without a file of total column water (ERA5) preprocessing goes on")
    era5(rep)
    cmip(rep)
    for src, lt, listed in (("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("CMIP", "pressure_levels", False), ("ARCO", "pressure_levels", True)):
        for role, n in variables(src, lt):
            cases = [("open", "FileNotFoundError"), ("time", "KeyError")]
            if role in ("tcw", "q", "ps", "e"):
                cases += [("open", "PermissionError"), ("open", "OSError"), ("open", "ValueError"), ("time", "IndexError")]
            for stage, exc in cases:
                v = n
                if src == "ARCO":
                    if role != "q":
                        continue
                    if stage == "open":
                        v = "zarr"
                p = Lookup(src, lt, listed, bad=(v, stage, exc), two=False)
                rep.world(p.w)
                tag = f"{src}:{lt}:{v}:{stage}:{exc}"
                if not p.hit:
                    rep.undecided("stop", tag, p.gap or "the failure is not reached")
                elif role == "tcw" and stage == "open" and exc == "FileNotFoundError" and src == "ERA5":
                    if p.gap:
                        rep.undecided("optional", tag, p.gap)
                    else:
                        rep.holds("optional", tag, p.error is None, f"fails: {p.error}", "get_input_data")
                elif p.gap:
                    rep.undecided("stop", tag, p.gap)
                else:
                    rep.holds("stop", tag, p.error is not None, f"goes on although {v} fails with {exc}", "get_input_data")
