"""Preprocessing interpreted with symbolic input data."""

from __future__ import annotations

from engine import arr as A
from engine import poly as P
from engine.arr import Arr, Sc
from engine.lib import mk_da, mk_nd, mk_var
from engine.values import DaC, DictC, DsC, ListC, Maybe, NdC, Opaque, Ref, StrT
from engine.lib2 import MISSING
from engine.world import GRID, World, str_sym

from .common import ds_arr

LEVEL_VARS = {"q", "u", "v"}
CMIP = {"hus": "q", "hfls": "e", "pr": "tp", "ps": "ps", "ua": "u", "va": "v", "huss": "qs", "uas": "us", "vas": "vs"}
ARCO = {
    "u_component_of_wind": "u", "v_component_of_wind": "v", "specific_humidity": "q", "10m_u_component_of_wind": "us",
    "10m_v_component_of_wind": "vs", "surface_pressure": "ps", "2m_temperature": "t2m", "2m_dewpoint_temperature": "d2m",
    "total_column_water": "tcw", "total_precipitation": "tp", "evaporation": "e"}
THREE_HOURLY = ("pr", "hfls")
NHALF = 138
PARTS = ("1", "2")
LDIMS = ("level",) + GRID


def raw(name, ix, dims, tag=()):
    """Value of an input variable at the time asked for."""
    pos = name in ("sp", "ps", "t2m", "d2m")
    return P.sym(("in", name) + tag, *[(d,) + i for d, i in zip(dims, ix)], pos=pos, nonneg=name in ("q", "qs", "tcw"))


def at_label(key, label):
    """The symbol of an input variable on the level of that label."""
    return P.sym(key[1], *[("level", "at", label.ident()) if x[0] == "level" else x for x in key[2:]],
                 nonneg=key[1][1] in ("q", "specific_humidity", "hus"))


def key(p):
    """A path as text as far as it is known."""
    out = []
    for x in p.parts if isinstance(p, StrT) else (p,):
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    if out and isinstance(out[0], str):
        while out[0].startswith("./"):
            out[0] = out[0][2:]
    return tuple(out)


def part(k):
    """Mark of a value that is taken from a part of the period only."""
    return ("only part " + k[1][2],) if k[1][2] in PARTS else ()


def all_parts(x):
    m = {}
    for q in P.all_atoms(x.p):
        k = P.ATOMS[q]
        if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "stored" and k[1][2] in PARTS:
            m[q] = P.sym(k[1][:2] + (None,) + k[1][3:], *k[2:], nonneg=q in P.NONNEG, pos=q in P.POS)
    return Sc(P.subst(x.p, m), x.d, x.k) if m else x


def stored(w, name, lvl, time=True, k=None):
    """Array of an input variable as stored: in time (and level), latitude, longitude."""
    dims = (("time",) if time else ()) + (LDIMS if lvl else GRID)
    shape = tuple(w.len.get(d) or A.Ext(d, 0) for d in dims)
    return w.field(("stored", name, k), dims=dims, shape=shape)


class Prep:
    def __init__(self, source="ERA5", level_type="pressure_levels", levels="All", tcw=True, cut=None, nlev=None, names=None, grid=None, **over):
        self.source, self.level_type = source, level_type
        self.w = w = World()
        I, st = w.I, w.st
        self.opened, self.selected = [], []
        self.parts = {}  # paths of files holding a part of the period
        self.holes = None  # (variable, function of an array): missing values
        self.names = names or {}
        if grid:
            w.fix(**grid)
        w.len["level"] = A.Ext(None, nlev) if nlev else A.Ext("level", 0)
        tmpl = "{levtype}/{variable}/{year}-{month}-{day}.nc" if source != "CMIP" else "{variable}_*.nc"
        over.setdefault("filename_template", tmpl)
        over.setdefault("calendar", "proleptic_gregorian")
        if levels == "All":
            over["levels"] = "All"
        elif isinstance(levels, list):
            over["levels"] = I.alloc(st, ListC(tuple(levels), "list"))
        over.setdefault("parallel_preprocess", False)
        self.cfg = w.config(level_type=level_type, **over)
        self.t = Sc(P.sym("T"), k="time")
        self.times = [self.t]
        self._at = {}
        self.tcw = tcw
        self._c = {d: w.coord(d) for d in ("time", "level")}
        self._c.update(w.grid_coords())
        I.cfg["open_dataset"] = self.open
        I.cfg["sel"] = self.sel
        I.cfg["concat"] = self.concat
        I.cfg["read_csv"] = self.table
        I.cfg["glob"] = self.glob
        I.cfg["calendar"] = over["calendar"]
        if cut:
            cut(self)

    # -- input files -------------------------------------------------------
    def coords(self, lvl):
        return {d: v for d, v in self._c.items() if lvl or d != "level"}

    def var_of(self, path):
        """Variable named in a path."""
        if not isinstance(path, StrT):
            path = StrT((path,)) if isinstance(path, str) else None
        if path is None:
            return None
        lits = "".join(x if isinstance(x, str) else repr(x) for x in path.parts)
        import re
        known = sorted(list(CMIP) + ["q", "u", "v", "sp", "d2m", "u10", "v10", "e", "tp", "tcw"], key=len, reverse=True)
        for n in known:
            if re.search(r"(^|[/_'])" + n + r"([/_.]|$)", lits):
                return n
        return None

    def open(self, I, st, p, name, kw, node):
        v = self.var_of(p) if "zarr" not in name else "zarr"
        self.opened.append((v, p, name, dict(kw), I.guard(st)))
        w = self.w
        if v == "zarr":
            f = {n: self.stored(n, ARCO[n] in LEVEL_VARS) for n in ARCO}
            d = w.dataset(st, f, self.coords(True))
            ref = st.heap[d.id].attrs
            at = {"valid_time_start": str_sym("valid", "start"), "valid_time_stop": str_sym("valid", "stop")}
            st.heap[ref] = DictC(at)
            return d
        if v is None:
            return None
        lvl = v in LEVEL_VARS or CMIP.get(v) in LEVEL_VARS
        part = self.parts.get(key(p))
        if v in THREE_HOURLY:
            return self.three_hourly(st, v, part)
        a = self.stored(v, lvl, part)
        if "dataarray" in name:
            return mk_da(I, st, a, self.coords(lvl), v)
        return w.dataset(st, {v: a}, self.coords(lvl))

    def stored(self, name, lvl, part=None):
        """The variable as stored, with holes where wanted."""
        a = stored(self.w, name, lvl, k=part)
        if not self.holes or self.holes[0] != name:
            return a
        hole = self.holes[1]

        def fn(ix):
            b = hole(Arr(a.dims[1:], a.shape[1:], lambda jx: a.at((ix[0],) + tuple(jx)), a.kind))
            return b.at(tuple(ix[1:]))
        return Arr(a.dims, a.shape, fn, a.kind)

    def three_hourly(self, st, v, part=None):
        """A day of three-hourly means, stored at the middle of their three hours."""
        w, n = self.w, A.Ext(None, 8)
        if not hasattr(self, "_t3"):
            a = Arr(("time",), (n,), lambda ix: Sc(P.sym("T3", pos=True) + P.P(10800 * ix[0][1]) if ix[0][0] == "L" else
                                                   P.sym("T3", ("time",) + ix[0]), k="time"))
            self._t3 = mk_var(w.I, st, mk_nd(w.I, st, a).id)
        a = w.field(("stored", v, part), dims=("time",) + GRID, shape=(n, w.len["latitude"], w.len["longitude"]))
        if self.holes and self.holes[0] == v:
            b, hole = a, self.holes[1]
            a = Arr(b.dims, b.shape, lambda ix: hole(Arr(b.dims[1:], b.shape[1:], lambda jx: b.at((ix[0],) + tuple(jx)), b.kind)).at(tuple(ix[1:])), b.kind)
        return w.dataset(st, {v: a}, {**w.grid_coords(), "time": self._t3})

    def glob(self, I, st, p, pat, node):
        """Two files match: consecutive parts of the period."""
        if not isinstance(pat, str):
            return None
        r = [StrT(p.parts + (f"/{pat.replace('*', x)}",), True) for x in PARTS]
        self.parts.update({key(q): x for q, x in zip(r, PARTS)})
        return r

    def table(self, I, st, p, kw, node):
        """The table of model level coefficients: 138 half levels."""
        n = A.Ext(None, NHALF)
        f = {c: Arr(("n",), (n,), lambda ix, c=c: Sc(P.sym(("table", c), ix[0] if ix[0][0] != "H" else ("L", NHALF - 1 - ix[0][1])))) for c in ("a [Pa]", "b")}
        return self.w.dataset(st, f, {})

    def concat(self, I, st, items, dim, node):
        """The files of a variable, joined in time, hold what one file would."""
        its = I.concrete_items(items, st)
        if not its or dim != "time" or not all(isinstance(x, Ref) and isinstance(st.heap.get(x.id), (DsC, DaC)) for x in its):
            return None
        if len({(type(st.heap[x.id]), self.content(st, x)) for x in its}) == 1 and sorted(str(self.part_of(st, x)) for x in its) in (["1", "2"], ["None"]):
            return self.joined(st, its[0])
        return None

    def arrays(self, st, x):
        c = st.heap[x.id]
        return [arr_of(st, x)] if isinstance(c, DaC) else [ds_arr(st, c, n) for n in c.vars]

    def part_of(self, st, x):
        """The part of the period some data are from."""
        r = {P.ATOMS[q][1][2] for a in self.arrays(st, x) for q in P.all_atoms(a.generic().p)
             if P.ATOMS[q][0] == "sym" and isinstance(P.ATOMS[q][1], tuple) and P.ATOMS[q][1][0] == "stored"}
        return r.pop() if len(r) == 1 else "mixed"

    def joined(self, st, x):
        """The data of all parts."""
        def whole(a):
            return Arr(a.dims, a.shape, lambda ix: all_parts(a.at(ix)), a.kind)
        c = st.heap[x.id]
        if isinstance(c, DaC):
            return mk_da(self.w.I, st, whole(arr_of(st, x)), dict(c.coords), c.name)
        return self.w.dataset(st, {n: whole(ds_arr(st, c, n)) for n in c.vars}, dict(c.coords))

    def content(self, st, x):
        c = st.heap[x.id]
        if isinstance(c, DaC):
            return all_parts(arr_of(st, x).generic()).p.key()
        return tuple(sorted((n, all_parts(ds_arr(st, c, n).generic()).p.key()) for n in c.vars))

    def sel(self, I, st, s, sel, kw, node):
        c = st.heap.get(s.id) if isinstance(s, Ref) else None
        if set(sel) == {"level"} and kw.get("method") is None:
            items = I.concrete_items(sel["level"], st)
            if items is None and self.source == "CMIP":
                return s  # the levels the variables have in common: here they have the same
            return self.at_levels(st, s, c, items)
        if set(sel) != {"time"}:
            return None
        if not isinstance(sel["time"], slice):
            self.selected.append((sel["time"], kw.get("method")))
        t = sel["time"]
        if isinstance(t, slice):
            return s  # a period of the file
        nt = next((k for k, x in enumerate(self.times) if isinstance(t, Sc) and t.p == x.p), None)
        if nt is None:
            return None
        tag = (f"@{nt}",) if nt else ()

        def nth(a):
            """The label asked for is the second one of a time axis of known length."""
            v = c.coords.get("time")
            lab = st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr.at((("L", 1),)).p
            off = lab - P.sym("T3", pos=True)
            if not off.is_const():
                return None

            def fn(ix):
                x = a.at((("L", 1),) + tuple(ix))
                m = {}
                for q in P.all_atoms(x.p):
                    k = P.ATOMS[q]
                    if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "stored":
                        h = (10800 * k[2][2] - off.const()) / 3600
                        m[q] = P.sym(("in", k[1][1], str(h)) + part(k) + tag, *k[3:])
                return Sc(P.subst(x.p, m), x.d, x.k)
            return Arr(a.dims[1:], a.shape[1:], fn, a.kind)

        def at(a):
            """The array at the time asked for."""
            if a.shape[0].sym is None:
                return nth(a)
            def fn(ix):
                x = a.at((("G", 0),) + tuple(ix))
                m = {}
                for q in P.all_atoms(x.p):
                    k = P.ATOMS[q]
                    if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "stored":
                        m[q] = raw(k[1][1], [z[1:] for z in k[3:]], [z[0] for z in k[3:]], part(k) + tag)
                return Sc(P.subst(x.p, m), x.d, x.k)
            return Arr(a.dims[1:], a.shape[1:], fn, a.kind)

        def coords(cc):
            r = {k: v for k, v in cc.items() if "time" not in
                 st.heap[st.heap[v.v if isinstance(v, Maybe) else v].nd].arr.dims}
            if "time" in cc:
                if nt not in self._at:
                    self._at[nt] = mk_var(I, st, mk_nd(I, st, Arr((), (), lambda ix: Sc(t.p, k="time"), "time")).id)
                r["time"] = self._at[nt]
            return r
        if isinstance(c, DaC):
            a = st.heap[st.heap[c.var].nd].arr
            if a.dims[:1] != ("time",):
                return None
            r = at(a)
            return None if r is None else mk_da(I, st, r, coords(c.coords), c.name)
        if isinstance(c, DsC):
            f = {}
            for n in c.vars:
                a = ds_arr(st, c, n)
                f[n] = at(a) if a.dims[:1] == ("time",) else a
                if f[n] is None:
                    return None
            return self.w.dataset(st, f, coords(c.coords))
        return None

    def at_levels(self, st, s, c, items):
        """The data at a list of level labels."""
        I, w = self.w.I, self.w
        labels = [I.sc(x) for x in items] if items is not None else None
        if not labels or not all(isinstance(x, Sc) for x in labels):
            return None
        ext = A.Ext(None, len(labels))
        self.labels = [x.p for x in labels]
        if not hasattr(self, "_lv"):
            a = Arr(("level",), (ext,), lambda ix: A.select(ix[0], labels) if ix[0][0] != "L" else labels[ix[0][1]])
            self._lv = mk_var(I, st, mk_nd(I, st, a).id)

        def arr(a):
            if "level" not in a.dims:
                return a
            k = a.dims.index("level")

            def one(n, ix):
                jx = list(ix)
                jx[k] = ("G", 0)
                x = a.at(tuple(jx))
                m = {}
                for q in P.all_atoms(x.p):
                    y = P.ATOMS[q]
                    if y[0] == "sym" and isinstance(y[1], tuple) and y[1][0] in ("stored", "in"):
                        m[q] = at_label(y, labels[n].p)
                return Sc(P.subst(x.p, m), x.d, x.k)

            def fn(ix):
                if ix[k][0] == "L":
                    return one(ix[k][1], ix)
                if ix[k][0] == "H":
                    return one(len(labels) - 1 - ix[k][1], ix)
                return A.select(ix[k], [one(n, ix) for n in range(len(labels))])
            return Arr(a.dims, tuple(ext if d == "level" else e for d, e in zip(a.dims, a.shape)), fn, a.kind)

        def coords(cc):
            return {n: (self._lv if n == "level" else v) for n, v in cc.items()}
        if isinstance(c, DaC):
            return mk_da(I, st, arr(st.heap[st.heap[c.var].nd].arr), coords(c.coords), c.name)
        if isinstance(c, DsC):
            return w.dataset(st, {n: arr(ds_arr(st, c, n)) for n in c.vars}, coords(c.coords))
        return None

    # -- entry points --------------------------------------------------------
    def input_data(self, qual=None):
        mod = {"ERA5": "era5", "CMIP": "cmip", "ARCO": "arco"}[self.source]
        r = self.w.call(f"wam2layers.preprocessing.{mod}.get_input_data", [self.t, self.cfg])
        self.data = r[0] if isinstance(r, tuple) else r
        return self.data

    def day(self):
        """Preprocess one day: two times of it."""
        I, st = self.w.I, self.w.st
        ts = I.alloc(st, ListC((self.t,), "list"))
        self.w.call("wam2layers.preprocessing.shared.preprocess", [ts, self.source, self.cfg])
        self.writes = [e for e in I.events if e.kind == "to_netcdf"]
        return self.writes


def arr_of(st, v):
    c = st.heap[v.id]
    return c.arr if isinstance(c, NdC) else st.heap[st.heap[c.var].nd].arr


# -- a stored file that grows -------------------------------------------------------
class Files:
    """netCDF files opened for appending; ``have(path)`` is the number of times stored."""

    def __init__(self, p, have):
        self.p, self.have = p, have
        self.sets = []  # (path, variable, key, value array, state, where)
        self.opened = []  # (path, mode, where)
        I = p.w.I
        I.hooks["ext:netCDF4.Dataset"] = self.open
        I.hooks["ext:xarray.conventions.encode_dataset_coordinates"] = self.encode_ds
        I.hooks["ext:xarray.conventions.encode_cf_variable"] = self.encode
        I.cfg["opaque_item"] = self.item
        I.cfg["opaque_attr"] = self.attr
        I.cfg["opaque_len"] = self.length

    def open(self, I, st, args, kw, node):
        path = args[0] if args else kw.get("filename")
        mode = args[1] if len(args) > 1 else kw.get("mode", "r")
        self.opened.append((path, mode, I.where_am_i()))
        return Opaque(("ncfile", len(self.opened) - 1, self.have(path)), "")

    def item(self, I, st, o, k):
        if o.key[0] in ("ncfile", "ncvars") and isinstance(k, str):
            return Opaque(("ncvar", o.key[1], o.key[2], k))
        if o.key[0] == "ncdims" and isinstance(k, str):
            return Opaque(("ncdim", o.key[1], o.key[2], k))
        return None

    def attr(self, I, st, o, name):
        kind = o.key[0]
        if kind == "ncfile":
            return {"variables": Opaque(("ncvars",) + o.key[1:3]), "dimensions": Opaque(("ncdims",) + o.key[1:3])}.get(name)
        if kind in ("ncvar", "ncdim"):
            n, d = o.key[2], o.key[3]
            if name == "size" and d == "time":
                return n
            if kind == "ncvar" and name == "shape" and d == "time":
                return (n,)
            if kind == "ncvar" and name in ("units", "calendar") and d == "time":
                return StrT((("sym", "stored", name),))
            if kind == "ncvar" and name == "calendar":
                return MISSING
        return None

    def length(self, I, st, o):
        return o.key[2] if o.key[0] in ("ncvar", "ncdim") and o.key[3] == "time" else None

    def encode_ds(self, I, st, args, kw, node):
        c = st.heap.get(args[0].id) if isinstance(args[0], Ref) else None
        if not isinstance(c, DsC):
            return None
        d = {n: I.lib.getitem(I, st, args[0], n, node) for n in list(c.vars) + list(c.coords)}
        return (I.alloc(st, DictC(d)), I.alloc(st, DictC({})))

    def encode(self, I, st, args, kw, node):
        """Times are stored as numbers in the units the data ask for, or units of their own."""
        x = args[0]
        c = st.heap.get(x.id) if isinstance(x, Ref) else None
        if not isinstance(c, DaC):
            return Opaque(("?encoded", I.fp(x, st)))
        a = st.heap[st.heap[c.var].nd].arr
        if a.generic().k != "time":
            return x
        enc = [e for e in I.events if e.kind == "encoding" and isinstance(e.args[0], Ref) and e.args[0].id == x.id]
        good = False
        if enc:
            d = enc[-1].extra
            if not isinstance(d, DictC):
                good = None
            else:
                u = d.d.get("units")
                good = isinstance(u, StrT) and u.parts == (("sym", "stored", "units"),)
        elif any(e.kind in ("setitem", "method") and e.args and isinstance(e.args[0], Opaque) and "encoding" in repr(e.args[0].key)
                 for e in I.events):
            good = None
        if good:
            return x
        tag = "?encoded" if good is None else "own units"
        r = Arr(a.dims, a.shape, lambda ix: Sc(P.fn(tag, a.at(ix).p)), "num")
        return mk_da(I, st, r, dict(c.coords), c.name)

    def collect(self):
        """What is written into open files."""
        out = []
        for e in self.p.w.I.events:
            if e.kind == "setitem" and isinstance(e.args[0], Opaque) and e.args[0].key[0] == "ncvar":
                o = e.args[0].key
                out.append((e, o[1], o[2], o[3], e.args[1], e.args[2]))
        return out
