"""Daily files.  All times from the configured start to end, at the input frequency,
are preprocessed; each is stored exactly once, in the file of its own day: the first
time of a day starts the file, every further time is appended behind what is stored,
every variable under its own name and times in the units of the file.  Working in
parallel does the same."""

from engine import poly as P
from engine.arr import Sc
from engine.interp import Dead
from engine.values import DaC, DictC, DsC, NdC, Opaque, Ref, StrT

from .column import LABELS, errors
from .common import ds_arr, stopped
from .prep import Files, Prep

DATES = [(2020, 12, 31, 18), (2021, 1, 1, 0), (2021, 1, 1, 6), (2021, 1, 1, 12), (2021, 1, 11, 0), (2021, 11, 1, 0),
         (2021, 11, 1, 6), (2022, 1, 1, 0)]
GRID_ = dict(latitude=[20, 10, 0], longitude=[0, 10, 20, 30])
FMT = {"%Y": lambda d: f"{d[0]:04}", "%m": lambda d: f"{d[1]:02}", "%d": lambda d: f"{d[2]:02}", "%H": lambda d: f"{d[3]:02}",
       "%M": lambda d: "00", "%S": lambda d: "00", "%j": lambda d: f"{(d[1] - 1) * 31 + d[2]:03}", "%y": lambda d: f"{d[0] % 100:02}"}


class Days:
    def __init__(self, source, level_type, listed, parallel, made):
        lv = [Sc(P.P(x)) for x in LABELS[level_type]] if listed else "All"
        self.p = p = Prep(source, level_type, lv, nlev=None if listed else 3, grid=GRID_, parallel_preprocess=parallel)
        made.append(p)
        I = p.w.I
        p.times = [p.t] + [Sc(P.sym(f"T{k}"), k="time") for k in range(1, len(DATES))]
        self.ranges = []
        I.cfg["time_parts"] = self.parts
        I.cfg["time_order"] = True
        I.cfg["daterange"] = self.daterange
        self.files = Files(p, self.have)
        p.w.cut("wam2layers.config.Config.from_yaml", lambda I, st, args, kw, node: p.cfg)
        p.w.call("wam2layers.preprocessing.shared.prep_experiment", [StrT((("sym", "config_file"),), True), source])

    def parts(self, o, name):
        for t, d in zip(self.p.times, DATES):
            if o.p == t.p:
                return dict(zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), d + (0, 0, 0))).get(name)
        return None

    def daterange(self, I, st, start, end, freq, incl, cal):
        self.ranges.append((start, end, freq, incl, cal))
        return list(self.p.times)

    def path(self, v):
        """A path with the known dates filled in."""
        if not isinstance(v, StrT):
            return None
        out = []
        for x in v.parts:
            if not isinstance(x, str) and x[0] == "time":
                k = self.index(P.POLY_BY_ID(x[1]))
                if k is None or x[2] not in FMT:
                    return None
                out.append(FMT[x[2]](DATES[k]))
            else:
                out.append(x if isinstance(x, str) else "{" + ":".join(map(str, x)) + "}")
        return "".join(out)

    def index(self, p):
        return next((k for k, t in enumerate(self.p.times) if t.p == p), None)

    def have(self, path):
        """Times stored in a file so far."""
        want, n, appended = self.path(path), 0, set()
        for e in self.p.w.I.events:
            if e.kind == "to_netcdf" and self.path(e.args[1]) == want:
                n = 1 if mode(e) == "w" else n
                appended = set()
            elif e.kind == "setitem" and isinstance(e.args[0], Opaque) and e.args[0].key[0] == "ncvar" \
                    and e.args[0].key[3] == "time" and self.path(self.files.opened[e.args[0].key[1]][0]) == want:
                appended.add(e.args[0].key[1])
        return n + len(appended)


def mode(e):
    m = e.kw.get("mode", e.args[2] if len(e.args) > 2 else "w")
    return m


def only(p):
    """Times (by number) whose input a value depends on."""
    out = set()
    for q in P.all_atoms(p):
        k = P.ATOMS[q]
        if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "in":
            tags = [x for x in k[1][2:] if isinstance(x, str) and x[:1] == "@"]
            out.add(int(tags[0][1:]) if tags else 0)
    return out


def first_time(p):
    """The term with the input of the first time in place of that of any other."""
    m = {}
    for q in P.all_atoms(p):
        k = P.ATOMS[q]
        if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "in" and any(isinstance(x, str) and x[:1] == "@" for x in k[1][2:]):
            m[q] = P.sym(tuple(x for x in k[1] if not (isinstance(x, str) and x[:1] == "@")), *k[2:])
    return P.subst(p, m) if m else p


def keyed(p):
    """Does the term name an unknown order or choice by what it was made from?"""
    return any(isinstance(x, tuple) and x[:1] == ("k",) for q in P.all_atoms(p) if P.ATOMS[q][0] == "fn" for x in P.ATOMS[q][2:])


def cellval(a, time_ix):
    return a.at(tuple({"time": time_ix, "latitude": ("L", 1), "longitude": ("L", 2)}.get(d, ("L", 0)) for d in a.dims))


def check(rep):
    rep.rule("period", "times = date range from preprocessing start to end (both included) at the input frequency in the calendar")
    rep.rule("day", "every time is stored once, in a file named after its day")
    rep.rule("start", "the first time of a day starts its file, no other time does")
    rep.rule("append", "every variable in time is appended under its own name at the first free place, holding that time's values")
    rep.rule("resolution", "times are stored in units of seconds or less, in a type that holds them")
    rep.rule("goes on", "with complete input preprocessing does not stop with an exception on every path")
    rep.rule("times", "appended times are in the units of the file")
    kinds = [("ERA5", "pressure_levels", False, False), ("ERA5", "pressure_levels", False, True), ("CMIP", "pressure_levels", False, False),
             ("ARCO", "pressure_levels", True, False)]
    if rep.tier == "thorough":
        kinds += [("ERA5", "model_levels", True, False), ("ARCO", "pressure_levels", True, True), ("CMIP", "pressure_levels", False, True)]
    for kind in kinds:
        tag = f"{kind[0]}:{kind[1]}{':parallel' if kind[3] else ''}"
        made = []
        try:
            D = Days(*kind, made)
        except errors() as e:
            stop = stopped(made[0].w) if made else None
            if isinstance(e, Dead) and stop is not None:
                rep.holds("goes on", tag, False, f"preprocessing of complete input stops: {stop.name} {stop.args[1:]}"[:200], stop.loc)
            else:
                rep.undecided("day", tag, f"{type(e).__name__}: {e}"[:160])
            continue
        rep.holds("goes on", tag, True)
        rep.world(D.p.w)
        judge(rep, tag, D)


def judge(rep, tag, D):
    p, I = D.p, D.p.w.I
    f = p.w.st.heap[p.cfg.id].f
    if D.ranges:
        s, e, fr, inc, cal = D.ranges[0]
        ok = isinstance(s, Sc) and isinstance(e, Sc) and s.p == f["preprocess_start_date"].p and e.p == f["preprocess_end_date"].p \
            and inc in ("both", None) and I.fp(fr, p.w.st) == I.fp(f["input_frequency"], p.w.st) and I.fp(cal, p.w.st) == I.fp(f["calendar"], p.w.st)
        rep.holds("period", tag, ok, f"from {s} to {e}, every {fr}, {inc}, calendar {cal}", "get_input_dates")
    else:
        rep.undecided("period", tag, "no date range is made")
        return
    day = lambda k: DATES[k][:3]
    stored = {}  # time -> [(path, how)]
    ref = {}
    starts = []
    for e in I.events:
        if e.kind != "to_netcdf":
            continue
        st = e.extra
        ds = st.heap.get(e.args[0].id)
        ta = ds_arr(st, ds, "time") if isinstance(ds, DsC) else None
        path = D.path(e.args[1])
        k = D.index(cellval(ta, ("L", 0)).p) if ta is not None else None
        if k is None or path is None:
            rep.undecided("day", f"{tag}:{e.loc}", f"file {e.args[1]!r}"[:150], e.loc)
            return
        if ta.ndim == 1 and (ta.shape[0].sym is not None or ta.shape[0].c != 1):
            rep.undecided("day", f"{tag}:{e.loc}", "several times at once")
            return
        stored.setdefault(k, []).append(path)
        starts.append((k, path, mode(e), e.loc))
        resolution(rep, f"{tag}:{DATES[k]}".replace(" ", ""), I, e)
        for n in list(ds.vars) + list(ds.coords):
            a = ds_arr(st, ds, n)
            if "time" in a.dims:
                ref.setdefault((path, n), (k, cellval(a, ("L", 0)).p, a.dims))
    groups = {}
    for e, no, n0, name, key, val in D.files.collect():
        groups.setdefault(no, []).append((e, n0, name, key, val))
    appended = []
    for no, items in groups.items():
        opath, omode, where = D.files.opened[no]
        path = D.path(opath)
        rep.holds("append", f"{tag}:{no}:mode", omode in ("a", "r+", "r+s", "as"), f"file opened with mode {omode!r}", where)
        tv = [x for x in items if x[2] == "time"]
        k = None
        if tv:
            c = value(tv[0][0].extra, tv[0][4])
            if c is not None:
                q = c.at(tuple(("L", 0) for _ in c.dims)).p
                own = [P.ATOMS[a] for a in P.all_atoms(q) if P.ATOMS[a][:2] == ("fn", "own units")]
                unk = any(P.ATOMS[a][:2] == ("fn", "?encoded") for a in P.all_atoms(q))
                if own:
                    rep.holds("times", f"{tag}:{no}", False, "stored in units of their own, not those of the file", tv[0][0].loc)
                    q = P.POLY_BY_ID(own[0][2][1])
                elif not unk:
                    rep.holds("times", f"{tag}:{no}", True)
                k = D.index(q)
        if k is None or path is None:
            rep.undecided("append", f"{tag}:{no}", "time appended not recognised", where)
            return
        stored.setdefault(k, []).append(path)
        appended.append((k, path))
        names = {x[2] for x in items}
        need = {n for (pp, n) in ref if pp == path}
        rep.holds("append", f"{tag}:{no}:all", need <= names, f"not appended: {sorted(need - names)}", where)
        for e, n0, name, key, val in items:
            r = ref.get((path, name))
            if r is None:
                continue
            dims = r[2]
            ks = key if isinstance(key, tuple) else (key,)
            sl = ks[dims.index("time")] if len(ks) > dims.index("time") else None
            lo, hi = bounds(I, sl)
            if lo is None:
                rep.undecided("append", f"{tag}:{no}:{name}", f"place {sl!r}", e.loc)
            else:
                rep.holds("append", f"{tag}:{no}:{name}:place", lo == n0 and hi in (n0 + 1, None),
                          f"written at {lo}:{hi}; {n0} times are stored", e.loc)
            a = value(e.extra, val)
            if a is None or name == "time":
                continue
            x = cellval(a, ("L", 0)).p if all(a.dims) else None
            if x is None:
                x = a.at(tuple({"time": ("L", 0), "latitude": ("L", 1), "longitude": ("L", 2)}.get(d, ("L", 0)) for d in dims)).p
            if not (keyed(x) or keyed(r[1])):
                rep.equal("append", f"{tag}:{no}:{name}:value", first_time(x), first_time(r[1]), where=e.loc, what=name, tries=4)
            ts = only(x)
            if ts:
                rep.holds("append", f"{tag}:{no}:{name}:time", ts == {k}, f"holds the data of {[DATES[t] for t in ts]}, stored as {DATES[k]}", e.loc)
    byday = {}
    for k in range(len(DATES)):
        ps = stored.get(k, [])
        rep.holds("day", f"{tag}:{DATES[k]}".replace(" ", ""), len(ps) == 1, f"stored {len(ps)} times", "preprocess")
        for q in ps:
            byday.setdefault(q, set()).add(day(k))
    for q, ds_ in byday.items():
        rep.holds("day", f"{tag}:{q[-30:]}", len(ds_) == 1, f"one file holds {sorted(ds_)}", "preprocess")
    for d in sorted({day(k) for k in stored}):
        qs = {q for k, ps in stored.items() for q in ps if day(k) == d}
        rep.holds("day", f"{tag}:{d}:file".replace(" ", ""), len(qs) == 1, f"its times are in {sorted(qs)}", "preprocess")
    seen = {}
    for k, path, m, loc in starts:
        rep.holds("start", f"{tag}:{DATES[k]}".replace(" ", ""), m == "w" and path not in seen and k == min(x for x in stored if day(x) == day(k)),
                  f"file started with mode {m!r} at {DATES[k]}", loc)
        seen[path] = k
    for k, path in appended:
        rep.holds("start", f"{tag}:{DATES[k]}:appended".replace(" ", ""), path in seen and seen[path] < k,
                  f"appended to {path[-30:]}, which no earlier time has started", "preprocess")


UNITS = ("second", "millisecond", "microsecond", "nanosecond")


def resolution(rep, con, I, e):
    """Are times at any second stored as they are?"""
    st = e.extra

    def sub(v, key):
        c = st.heap.get(v.id) if isinstance(v, Ref) else None
        return c.d.get(key, False) if isinstance(c, DictC) and c.rest is None else None
    enc = e.kw.get("encoding")
    t = sub(enc, "time") if enc is not None else False
    u, d = (False, False) if t is False else (None, None) if t is None else (sub(t, "units"), sub(t, "dtype"))
    sets = [x for x in I.events if x.kind in ("encoding", "setitem", "method") and "encoding" in f"{x.kind} {x.args[:1]!r}" and x.loc == e.loc]
    if u is None or (u is False and sets) or d is None:
        rep.undecided("resolution", con, "the encoding of times is not followed")
        return
    if isinstance(u, StrT):
        u = u.parts[0] if u.parts and isinstance(u.parts[0], str) else None
        if u is None:
            rep.undecided("resolution", con, "the units of times are not followed")
            return
    ok = isinstance(u, str) and u.split(" ")[0].rstrip("s") in UNITS
    rep.holds("resolution", con, ok, f"times are stored in {u or 'units made up for the first time only'}", e.loc)
    name = d if isinstance(d, str) else getattr(d, "name", None) or (str(d) if d is not False else "")
    if d is not False:
        rep.holds("resolution", con + ":type", not any(x in name for x in ("32", "16", "int8")), f"times are stored as {name}", e.loc)


def value(st, v):
    c = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(c, DaC):
        return st.heap[st.heap[c.var].nd].arr
    return c.arr if isinstance(c, NdC) else None


def bounds(I, sl):
    from engine.lib import constify
    if isinstance(sl, slice):
        if sl.step not in (None, 1):
            return None, None
        lo, hi = constify(sl.start), constify(sl.stop)
        lo = 0 if lo is None else lo
        return (lo, hi) if isinstance(lo, int) and (hi is None or isinstance(hi, int)) else (None, None)
    k = constify(sl)
    return (k, k + 1) if isinstance(k, int) else (None, None)
