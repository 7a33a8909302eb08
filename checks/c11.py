"""Input access.  The data used at a time are the file's data at that time if it
is a multiple of the input frequency, else the linear interpolation between the
two surrounding multiples; each is read from the file of its own day, at that
time, limited to the tracking domain iff one is set; all fluxes or all storages,
nothing else; a read that keeps failing raises."""

from engine import poly as P
from engine.arr import Arr, Sc
from engine.interp import Dead
from engine.lib import mk_nd, mk_var
from engine.values import Choice, DsC, Opaque, Ref, StrT
from engine.world import FLUX_VARS, GRID, STATE_VARS, World

from .common import ds_arr


def path_time(path):
    """(time the name of a file refers to, fields) or None."""
    if not isinstance(path, StrT):
        return None
    ids = {x[1] for x in path.parts if not isinstance(x, str) and x[0] == "time"}
    if len(ids) != 1:
        return None
    return P.POLY_BY_ID(ids.pop()), {x[2] for x in path.parts if not isinstance(x, str) and x[0] == "time"}


def key_time(v):
    if isinstance(v, Sc):
        return v.p, None
    return path_time(v)


def field_fn(name, tf, ts, dims, shape, source=None):
    """The data of a time; source: what is in the file, with time first."""
    def at(ix):
        key = tuple((d,) + i for d, i in zip(dims, ix))
        p = source.at((("L", 0),) + tuple(ix)).p if source is not None else None
        for x in P.atoms_of(p) if p is not None else ():
            k = P.ATOMS[x]
            if k[0] == "sym" and p.ident() == P.apoly(x).ident():
                key = tuple(z for z in k[2:] if isinstance(z, tuple) and z[0] in dims)
        return Sc(P.fn(("data", name), tf, ts, *key, pos=name.startswith("s_")))
    return Arr(dims, shape, at)


def model_io(w, opened=None, selected=None, cuts=None, nearest=None):
    """Model the opening of files and the selection of a time."""
    I = w.I
    gc = w.grid_coords()
    tc = w.coord("time")
    opened = [] if opened is None else opened
    selected = [] if selected is None else selected
    cuts = [] if cuts is None else cuts
    nearest = [] if nearest is None else nearest

    def open_ds(I, st, p, name, kw, node):
        known = [i for i, (q, _) in enumerate(opened) if I.fp(q, st) == I.fp(p, st)]
        if not known:
            opened.append((p, dict(kw)))
        i = known[0] if known else len(opened) - 1
        f = {n: w.field(("raw", i, n), dims=("time",) + GRID) for n in FLUX_VARS + STATE_VARS + ["other"]}
        return w.dataset(st, f, {**gc, "time": tc})

    def sel(I, st, s, sel, kw, node):
        c = st.heap.get(s.id) if isinstance(s, Ref) else None
        if set(sel) & set(GRID):
            cuts.append((I.guard(st), s, dict(sel), st.fork(), I.where_am_i()))
            return None
        if set(sel) != {"time"} or not isinstance(c, DsC):
            return None
        kt = key_time(sel["time"])
        out = {}
        for n in c.vars:
            a = ds_arr(st, c, n)
            sy = [P.ATOMS[x] for x in P.all_atoms(a.generic().p) if P.ATOMS[x][0] == "sym"]
            raw = [k[1] for k in sy if isinstance(k[1], tuple) and k[1][0] == "raw"]
            pt = path_time(opened[raw[0][1]][0]) if len(raw) == 1 else None
            if kw.get("method") is not None:
                nearest.append((kw["method"], I.where_am_i()))
            if pt is None or kt is None or len(a.shape) != 3:
                out[n] = w.field(("?read", n))
                continue
            out[n] = field_fn(raw[0][2], P.fn("day", pt[0]), kt[0], GRID, a.shape[1:], a)
            selected.append((pt, kt))
        coords = {d: v for d, v in c.coords.items() if d in GRID}
        if kw.get("drop") is not True and "time" in c.coords:
            coords["time"] = mk_var(I, st, mk_nd(I, st, Arr((), (), lambda ix: sel["time"] if isinstance(sel["time"], Sc) else Sc(P.fn("read time", kt[0] if kt else P.ZERO), k="time"))).id)
        return w.dataset(st, out, coords)

    I.cfg["open_dataset"] = open_ds
    I.cfg["sel"] = sel


def set_box(w, cfg, box):
    """Give the tracking domain known limits."""
    f = w.st.heap[w.st.heap[cfg.id].f["tracking_domain"].id].f
    for k, v in zip(("west", "south", "east", "north"), box):
        f[k] = Sc(P.P(P.Fraction(v)))


class Load:
    """load_data interpreted down to the opening of files."""

    def __init__(self, subset, domain, fixed=None, box=None):
        self.w = w = World()
        w.fix(**(fixed or {}))
        self.opened, self.selected, self.cuts, self.nearest = [], [], [], []
        self.cfg = w.config(**({"tracking_domain": "bbox"} if domain else {}))
        if box:
            set_box(w, self.cfg, box)
        self.t = Sc(P.sym("K"), k="time")
        model_io(w, self.opened, self.selected, self.cuts, self.nearest)
        self.out = w.call("wam2layers.tracking.io.load_data", [self.t, self.cfg, subset])
        self.st = w.st


def time_values(k, r):
    if k[0] == "sym" and k[1] == "K":
        return r.choice(range(0, 25)) * 0.5
    if k[0] == "sym" and k[1] == "td":
        return r.choice([1, 2, 3, 6])
    return None


time_values.scale = lambda k, seed: (1, 1800, 10800, 86400, 25)[seed % 5] if k[1] in ("K", "td") else 1


def check(rep):
    rep.rule("value", "field(t) = f(t) on a multiple of the input frequency, else f(t0) + (t-t0)/(t1-t0) (f(t1)-f(t0)) "
             "with t0, t1 the surrounding multiples; f(x) is read from the file of x's day at x")
    rep.rule("variables", "fluxes: both components of both layers, evaporation and precipitation; states: both storages")
    rep.rule("file", "file name: input folder, year, month, day of the time read")
    rep.rule("instant", "the time of day is part of the key the data are selected by")
    rep.rule("domain", "the tracking domain is applied to what is read iff it is set")
    rep.rule("retry", "reading never yields nothing: after the last attempt the failure is raised")
    for subset, names in (("fluxes", FLUX_VARS), ("states", STATE_VARS)):
        L = Load(subset, False)
        rep.world(L.w)
        I, st = L.w.I, L.st
        c = st.heap.get(L.out.id) if isinstance(L.out, Ref) else None
        if not isinstance(c, DsC):
            rep.undecided("variables", subset, f"load_data returns {L.out!r}")
            continue
        have = set(c.vars)
        rep.holds("variables", subset, have == set(names), f"returns {sorted(have)}", "load_data")
        rep.holds("domain", f"{subset}:unset", not L.cuts, "data are cut although no domain is set", "load_data")
        t = L.t.p
        td = P.sym("td", I.fp(st.heap[L.cfg.id].f["input_frequency"], st), pos=True)
        q = P.fn("floor", t * P.inv(td)) * td
        q1 = -P.fn("floor", -(t * P.inv(td))) * td
        for n in names:
            if n not in c.vars:
                continue
            a = ds_arr(st, c, n)
            for j, i in ((("L", 0), ("G", 0)), (("G", 0), ("G", 0)), (("G", 0), ("H", 0))):
                def f(x):
                    return P.fn(("data", n), P.fn("day", x), x, ("latitude",) + j, ("longitude",) + i, pos=n.startswith("s_"))
                on = P.eq0(t - q)
                spec = P.where(on, f(t), f(q) + (t - q) * P.inv(q1 - q) * (f(q1) - f(q)))
                rep.equal("value", f"{subset}:{n}:{j}{i}".replace(" ", ""), a.at((j, i)).p, spec, time_values,
                          where="load_data", what=n, tries=40)
        for k, (p, kw) in enumerate(L.opened):
            pt = path_time(p)
            c_ = f"{subset}:{k}"
            if pt is None:
                rep.undecided("file", c_, f"path {p!r}")
                continue
            rep.holds("file", c_, p.parts[0] == ("sym", "cfg", "preprocessed_data_folder") and
                      ({"%Y", "%m", "%d"} <= pt[1]), f"path {p}", "input_path")
        for k, (pt, kt) in enumerate(L.selected[:: max(1, len(names))]):
            rep.holds("instant", f"{subset}:{k}", kt[1] is None or {"%Y", "%m", "%d", "%H", "%M", "%S"} <= kt[1],
                      f"data selected by {kt[1]}", "load_slice")
        rep.holds("instant", f"{subset}:exactly", not L.nearest, f"a time that is not in the file gives the data of another one: method={L.nearest[:1]}", "load_slice")
        D = Load(subset, True)
        rep.world(D.w)
        g = sum((x[0] for x in D.cuts), P.ZERO)
        # one cut on every path of every read
        rep.holds("domain", f"{subset}:set", bool(D.cuts), "the tracking domain is not applied", "load_data")
    retry(rep)


def nothing(x):
    return nothing(x.a) or nothing(x.b) if isinstance(x, Choice) else x is None


def retry(rep):
    """Whatever fails, and however often, data are read or an error ends the run."""
    for kind, fails in (("IndexError", None), ("OSError", None), ("IndexError", 3), ("IndexError", 8)):
        w = World()
        I = w.I
        count = []
        model_io(w)
        real = I.cfg["open_dataset"]

        def opener(I, st, p, name, kw, node):
            count.append(1)
            if fails is None or len(count) <= fails:
                I.do_raise(st, Opaque(("exc", kind, "reading failed")), node, kind)
                st.alive = False
                raise Dead()
            return real(I, st, p, name, kw, node)
        I.cfg["open_dataset"] = opener
        tag = f"{kind}:{'always' if fails is None else fails}"
        try:  # the reader by itself, where there is one
            reader = w.find("wam2layers.tracking.io.read_or_retry") if fails is None else None
        except Exception:
            reader = None
        if reader is not None:
            try:
                got = I.call(reader, [StrT((("sym", "file"),))], {}, w.st.fork())
                if not I.loops:
                    rep.holds("retry", f"{tag}:reader", False, f"reading fails every time, yet {got!r} is returned"[:150], "read_or_retry")
            except Dead:
                rep.holds("retry", f"{tag}:reader", True)
            count.clear()
        try:
            out = w.call("wam2layers.tracking.io.load_data", [Sc(P.sym("K"), k="time"), w.config(), "states"])
        except Dead:
            out = Dead
        rep.world(w)
        if I.loops:
            rep.undecided("retry", tag, "a loop of unknown length is followed by its summary only")
            continue
        rep.holds("retry", f"{tag}:attempts", len(count) >= 1, "no attempt is made", "load_data")
        if out is Dead:
            rep.holds("retry", tag, True)
            continue
        c = w.st.heap.get(out.id) if isinstance(out, Ref) else None
        if nothing(out) or isinstance(c, DsC):
            ok = fails is not None and isinstance(c, DsC) and set(c.vars) == set(STATE_VARS)
            rep.holds("retry", tag, ok, f"reading fails {'every time' if fails is None else f'{fails} times'}, load_data returns "
                      f"{sorted(c.vars) if isinstance(c, DsC) else out}"[:200], "load_data")
        else:
            rep.undecided("retry", tag, f"load_data returns {out!r}"[:150])
