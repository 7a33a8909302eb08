"""Self-describing files.  Every variable tracking and preprocessing write carries its unit
and a name of what it is; cells and accumulation periods have bounds; nothing is stored
with less than single precision; output holds the complete configuration of its run."""

from fractions import Fraction as Fr

from engine import poly as P
from engine.arr import Sc
from engine.values import Cls, DictC, Maybe, Opaque, Ref, StrT

from .column import LABELS, errors
from .common import STATES, TAGGED, TRACKED, Step, all_steps, cfg_field, ds_arr, time_chooser
from .prep import Prep

RATE = {"fx_upper": "kg m-1 s-1", "fx_lower": "kg m-1 s-1", "fy_upper": "kg m-1 s-1", "fy_lower": "kg m-1 s-1",
        "s_upper": "kg m-2", "s_lower": "kg m-2", "evap": "kg m-2 s-1", "precip": "kg m-2 s-1"}
# words a name has to have, and must not have
WORDS = {"upper": ("upper", "lower"), "lower": ("lower", "upper"), "fx": ("eastward", "northward"), "fy": ("northward", "eastward"),
         "precip": ("to the surface", "from the surface"), "evap": ("from the surface", "to the surface"),
         "tagged": ("tagged", "tracked"), "track": ("tracked", "tagged"), "losses": ("lost", "gained"), "gains": ("gained", "lost")}
LOSSY = ("scale_factor", "add_offset", "least_significant_digit", "significant_digits", "quantize_mode")
NARROW = ("float16", "half", "f2", "<f2", "e", "int", "int8", "int16", "int32", "int64", "i1", "i2", "i4", "i8", "u1", "uint8", "short", "byte", "h", "b")
GRIDS = [dict(latitude=[30, 20, 10, 0], longitude=[0, 10, 20]), dict(latitude=[Fr(1, 2), Fr(1, 4), 0], longitude=[5, 6, 7, 8])]


def attrs(st, ref):
    c = st.heap.get(ref)
    return c.d if isinstance(c, DictC) else {}


def var_attrs(st, ds, n):
    v = ds.vars.get(n, ds.coords.get(n))
    v = v.v if isinstance(v, Maybe) else v
    return attrs(st, st.heap[v].attrs)


def dtype(v):
    return getattr(v, "name", v).split(".")[-1] if isinstance(v, str) or hasattr(v, "name") else None


def unit(x):
    return " ".join(x.split("accumulated")[0].split()) if isinstance(x, str) else None


def named(rep, tag, st, ds, n, want, where):
    a = var_attrs(st, ds, n)
    u, name = a.get("units"), a.get("long_name")
    if isinstance(u, (Opaque, StrT)) or isinstance(name, (Opaque, StrT)):
        rep.undecided("units", f"{tag}:{n}", "attributes not followed")
        return
    rep.holds("units", f"{tag}:{n}", unit(u) == want, f"units {u!r} instead of {want!r}", where)
    rep.holds("name", f"{tag}:{n}", isinstance(name, str) and bool(name.strip()), "no long_name", where)
    if not isinstance(name, str):
        return
    for part, (has, lacks) in WORDS.items():
        if part in n.split("_"):
            rep.holds("name", f"{tag}:{n}:{part}", has in name.lower() or lacks not in name.lower(), f"called {name!r}", where)


def lossless(rep, tag, I, st, e, where):
    enc = e.kw.get("encoding")
    c = st.heap.get(enc.id) if isinstance(enc, Ref) else None
    if enc is not None and not isinstance(c, DictC):
        rep.undecided("precision", tag, f"encoding not followed: {enc!r} {c!r}"[:300])
        return
    per = {}
    for k, v in (c.d if c else {}).items():
        d = st.heap.get(v.id) if isinstance(v, Ref) else None
        per[k] = d.d if isinstance(d, DictC) else {}
    bad = [f"{k}: {o}" for k, d in per.items() for o in d if o in LOSSY and d[o] is not None]
    bad += [f"{k}: {dtype(d['dtype'])}" for k, d in per.items() if dtype(d.get("dtype")) in NARROW and "time" not in k]
    rep.holds("precision", f"{tag}:encoding", not bad, f"stored inexactly: {bad}", where)
    casts = [dtype(x.args[1] if len(x.args) > 1 else x.kw.get("dtype")) for x in I.events if x.kind == "astype"]
    rep.holds("precision", f"{tag}:casts", not [t for t in casts if t in ("float16", "half", "f2", "<f2", "e")], f"values are made {casts}", where)
    tu = {k: d.get("units") for k, d in per.items() if k in ("time", "time_bnds") and "units" in d}
    rep.holds("precision", f"{tag}:time units", len({str(x) for x in tu.values()}) <= 1, f"time and its bounds are stored in different units: {tu}", where)


def cells(rep, tag, st, ds, grid, where):
    for d, vals in grid.items():
        n = next((k for k in list(ds.vars) + list(ds.coords) if k in (f"{d}_bnds", f"{d}_bounds", f"{d[:3]}_bnds")), None)
        if n is None:
            rep.holds("cells", f"{tag}:{d}", False, "no bounds", where)
            continue
        a, co = ds_arr(st, ds, n), ds_arr(st, ds, d)
        if len(a.dims) != 2 or a.dims[0] != d or a.shape[1] != (None, 2) or co is None:
            rep.holds("cells", f"{tag}:{d}", False, f"bounds in dimensions {a.dims}", where)
            continue
        h = abs(Fr(vals[1]) - Fr(vals[0])) / 2
        for k in range(len(vals)):
            x = co.at((("L", k),)).p
            got = [a.at((("L", k), ("L", b))).p for b in (0, 1)]
            if not all(p.is_const() for p in got + [x]):
                rep.undecided("cells", f"{tag}:{d}:{k}", "not known numbers")
                continue
            x, got = x.const(), sorted(p.const() for p in got)
            rep.holds("cells", f"{tag}:{d}:{k}", got == [x - h, x + h], f"the cell at {x} has bounds {got[0]}, {got[1]}", where)


def period(rep, s):
    st, ds, t = s.write.extra, s.wds, s.new[1].p
    n = next((k for k in ds.vars if k in ("time_bnds", "time_bounds")), None)
    if n is None:
        return rep.holds("period", s.tag(), False, "no bounds of time", s.where)
    a = ds_arr(st, ds, n)
    if a.dims[:1] != ("time",) or len(a.dims) != 2 or a.shape[1] != (None, 2):
        return rep.holds("period", s.tag(), False, f"bounds in dimensions {a.dims}", s.where)
    got = [a.at((("L", 0), ("L", b))).p - t for b in (0, 1)]
    here = [g for g in got if g.is_zero()]
    rest = [g for g in got if not g.is_zero()]
    rep.holds("period", f"{s.tag()}:end", len(here) == 1, f"the time of the file is not a bound: {[P.show(g) for g in got]} from it", s.where)
    if len(rest) != 1:
        return
    freq = P.sym("td", s.w.I.fp(cfg_field(s, "output_frequency"), s.w.st), pos=True)
    want = freq if s.direction == "backward" else -freq
    rep.equal("period", f"{s.tag()}:start", rest[0], want, time_chooser, where=s.where,
              what=f"distance of the other bound ({'ahead' if s.direction == 'backward' else 'before'})")


def embedded(rep, s):
    st = s.write.extra
    a = attrs(st, s.wds.attrs)
    cls = s.w.st.heap[s.w.cfgref.id].cls
    fields = [f for f in cls.all_fields() if f != "model_config"] if isinstance(cls, Cls) else []
    found = None
    for k, v in a.items():
        if isinstance(v, Opaque) and v.key[:1] == ("json",) and isinstance(v.key[1], tuple):
            names = {x[0][1] for x in v.key[1][1:] if isinstance(x, tuple) and isinstance(x[0], tuple) and x[0][0] == "s"}
            found = names if found is None or len(names & set(fields)) > len(found & set(fields)) else found
    if found is None:
        part = [k for k, v in a.items() if isinstance(v, Opaque) and v.key[:1] == ("item",) and len(v.key) > 2 and isinstance(v.key[1], tuple)
                and v.key[1][:1] == ("json",) and isinstance(v.key[2], tuple) and v.key[2][:1] == ("slice",)
                and any(x is not None for x in v.key[2][1:])]
        if part:
            return rep.holds("configuration", s.tag(), False, f"attribute {part[0]} holds a part of the text only", s.where)
        if any(isinstance(v, Opaque) or isinstance(v, StrT) and any("json" in repr(x) or "cfg" in repr(x) for x in v.parts) for v in a.values()):
                        return rep.undecided("configuration", s.tag(), "attributes not followed")
        return rep.holds("configuration", s.tag(), False, f"none of the attributes {list(a)} is the configuration", s.where)
    missing = [f for f in fields if f not in found]
    rep.holds("configuration", s.tag(), not missing, f"without {missing}", s.where)
    text = [v for v in a.values() if isinstance(v, str)]
    other = "backward" if s.direction == "forward" else "forward"
    rep.holds("configuration", f"{s.tag()}:direction", not any(other in v.lower() for v in text), f"says it is {other} tracking", s.where)


def check(rep):
    rep.rule("units", "units of every variable written")
    rep.rule("name", "every variable has a name that fits: its layer, direction, and whether it is tagged or tracked")
    rep.rule("cells", "bounds of a cell lie half a grid spacing on either side of it")
    rep.rule("period", "bounds of time: the time of the file and one output interval earlier (forward) or later (backward)")
    rep.rule("precision", "no rounding, scaling or narrowing to less than single precision; one unit for time and its bounds")
    rep.rule("configuration", "the attributes hold every setting of the run")
    for s in all_steps(rep):
        if s.periodic:
            continue
        st, ds = s.write.extra, s.wds
        for n in STATES + [TAGGED[s.direction]] + TRACKED[s.direction] + ["losses", "gains"]:
            if n in ds.vars:
                named(rep, s.tag(), st, ds, n, "kg m-2", s.where)
        period(rep, s)
        embedded(rep, s)
        lossless(rep, s.tag(), s.I, st, s.write, s.where)
    for d in ("backward", "forward"):
        for g in GRIDS:
            s = Step(d, False, fixed=g)
            rep.world(s.w)
            cells(rep, f"{s.tag()}:{len(g['latitude'])}x{len(g['longitude'])}", s.write.extra, s.wds, g, s.where)
    for src, lt, listed in (("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("ARCO", "pressure_levels", True), ("CMIP", "pressure_levels", False)):
        g = GRIDS[0]
        tag = f"{src}:{lt}"
        p = Prep(src, lt, [Sc(P.P(x)) for x in LABELS[lt]] if listed else "All", nlev=None if listed else 3, grid=g)
        try:
            writes = p.day()
        except errors() as e:
            rep.world(p.w)
            rep.undecided("units", tag, f"{type(e).__name__}: {e}"[:160])
            continue
        rep.world(p.w)
        if not writes:
            rep.undecided("units", tag, "nothing is written")
            continue
        e = writes[0]
        st = e.extra
        ds = st.heap[e.args[0].id]
        for n, u in RATE.items():
            if n in ds.vars:
                named(rep, tag, st, ds, n, u, e.loc)
        cells(rep, tag, st, ds, g, e.loc)
        lossless(rep, tag, p.w.I, st, e, e.loc)
