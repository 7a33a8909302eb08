"""Export of the configuration.  A configuration written to a file and read back is the
same in every setting; folders are resolved to one absolute place and created there."""

from engine import poly as P
from engine.arr import DefiniteError, Sc
from engine.interp import Dead
from engine.lib import getattr_
from engine.report import AnchorLost
from engine.values import DictC, ListC, ObjC, Opaque, Ref, StrT
from engine.world import path_sym

from .schema import DATES, Reject, Schema, box, settings

VALUES = {"timestep": "number", "kvf": "number", "level_layer_boundary": "number", "pressure_boundary_factor": "number",
          "pressure_boundary_offset": "number", "parallel_processes": "number"}


def variants(s):
    num = {k: Sc(P.sym("setting", k)) for k in VALUES}
    folder = dict(preprocessed_data_folder="~/pre", output_folder="results/out")
    yield "backward, mask, all levels", dict(num)
    yield "forward, boxes, list of levels", dict(
        num, tracking_direction="forward", tagging_region=box(s.w, 10, 40, 20, 50), tracking_domain=box(s.w, 170, -30, -170, 60),
        levels=s.I.alloc(s.st, ListC((20, 40, 60))), level_type="pressure_levels", restart=True, periodic_boundary=True,
        parallel_preprocess=True, calendar="noleap", **folder)
    yield "remote input", dict(num, preprocessed_data_folder="https://data.example/dodsC/x", calendar="360_day", input_frequency="3h", output_frequency="6h")
    yield "small letters, pressure levels", dict(
        levels="all", level_type="pressure_levels", kvf=0, timestep=1, level_layer_boundary=0, pressure_boundary_factor=0.5, pressure_boundary_offset=0,
        parallel_processes=1, restart=True, periodic_boundary=True, calendar="proleptic_gregorian", output_frequency="1D", input_frequency="90min",
        filename_template="/data/{variable}_{levtype}: {year}/{month:02}.nc", tagging_region="masks/Region Ä.nc", output_folder="/data/out put",
        tracking_domain=box(s.w, -180, -80, 180, 80))
    yield "defaults", {"tagging_region": "masks/region.nc"}


class Yaml(Schema):
    """Configuration files: what is loaded from which path."""

    def __init__(self, **cfg):
        super().__init__(**cfg)
        self.files = {}
        I = self.I

        def load(I, st, args, kw, node):
            f = args[0]
            if isinstance(f, Opaque) and f.key[0] == "file":
                d = self.files.get(f.key[1])
            elif isinstance(f, Opaque) and f.key[0] == "path.read_text":
                d = self.files.get(f.key[1])
            else:
                d = self.decode(f, st)
            if d is None:
                raise AnchorLost("a configuration file that was not written is read")
            return I.alloc(st, DictC(dict(d)))
        for n in ("yaml.safe_load", "yaml.load", "json.load"):
            I.hooks["ext:" + n] = load
        I.hooks[self.cls.qual] = lambda I, st, args, kw, node: self.build(kw)

    def decode(self, text, st):
        if isinstance(text, Opaque) and text.key[:1] == ("json",):
            r = self.I.memo_consts.get(("json", text.key))
            c = st.heap.get(r.id) if isinstance(r, Ref) else None
            return c.d if isinstance(c, DictC) else None
        return None

    def written(self):
        """What writes to open files leave in them."""
        out = {}
        for e in self.I.events:
            if e.kind == "filewrite" and isinstance(e.args[0], Opaque) and e.name == "write":
                out.setdefault(e.args[0].key[1], []).append(e)
            elif e.kind == "fs" and e.name == "write_text":
                out.setdefault(e.args[0].parts, []).append(e)
        return out


def plain(s, v):
    c = s.st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(c, ObjC):
        return (c.cls.name,) + tuple(plain(s, c.f[k]) for k in c.cls.all_fields())
    if isinstance(c, ListC):
        return ("list",) + tuple(plain(s, x) for x in c.items)
    if isinstance(v, Sc):
        return v.p.ident()
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return P.P(P.Fraction(v)).ident()
    if isinstance(v, StrT):
        return ("path" if v.path else "str",) + v.parts
    return ("str", v) if isinstance(v, str) else v


def check(rep):
    rep.rule("same", "a setting has the same value after export and import")
    rep.rule("text", "the export is written to the file asked for, complete")
    rep.rule("folder", "folders are absolute, ~ expanded; addresses of remote data are kept as they are")
    rep.rule("created", "folders that do not exist are created, with parents, exactly there")
    for n in range(5):
        s = Yaml()
        tag, over = list(variants(s))[n]
        s.I.cfg["calendar"] = over.get("calendar", "standard")
        given = settings(s, **over)
        if tag == "defaults":
            given = {k: v for k, v in given.items() if k not in ("calendar", "tracking_domain", "parallel_preprocess")}
        p1, p2 = path_sym("config file"), path_sym("exported file")
        where = s.cls.qual
        s.files[s.I.fp(p1, s.st)] = given
        try:
            o = s.I.call(_attr(s, "from_yaml"), [p1], {}, s.st)
            made = [e for e in s.I.events if e.kind == "fs" and e.name == "mkdir"]
            before = len(s.I.events)
            s.I.call(_bound(s, o, "to_file"), [p2], {}, s.st)
        except AnchorLost as e:
            rep.undecided("same", tag, str(e))
            continue
        except (Dead, DefiniteError, Reject) as e:
            rep.holds("same", tag, False, f"cannot be exported: {e or last(s)}", where)
            continue
        w = s.written()
        key = s.I.fp(p2, s.st)
        evs = w.get(key) or w.get(p2.parts)
        if not evs:
            others = [k for k in w]
            rep.holds("text", tag, not others, f"written to {others} instead", where) if others else rep.undecided("text", tag, "write not followed")
            continue
        text = evs[0].args[-1]
        mode = evs[0].args[0].key[2] if isinstance(evs[0].args[0], Opaque) and len(evs[0].args[0].key) > 2 else "w"
        rep.holds("text", f"{tag}:mode", isinstance(mode, str) and mode[:1] in "wx" and len(evs) == 1, f"opened with {mode!r}, {len(evs)} writes", where)
        d = s.decode(text, s.st)
        if d is None:
            rep.undecided("text", tag, "text not followed")
            continue
        s.files[key] = d
        try:
            o2 = s.I.call(_attr(s, "from_yaml"), [p2], {}, s.st)
        except AnchorLost as e:
            rep.undecided("same", tag, str(e))
            continue
        except (Dead, DefiniteError, Reject) as e:
            rep.holds("same", tag, False, f"the export cannot be loaded: {e or last(s)}", where)
            continue
        f1, f2 = s.st.heap[o.id].f, s.st.heap[o2.id].f
        for k in f1:
            a, b = plain(s, f1[k]), plain(s, f2.get(k))
            show = lambda x: P.show(x.p) if isinstance(x, Sc) else str(x)[:80]
            rep.holds("same", f"{tag}:{k}", a == b, f"{show(f1[k])} becomes {show(f2.get(k))}", where)
        # folders
        for k, v in (("preprocessed_data_folder", given["preprocessed_data_folder"]), ("output_folder", given["output_folder"])):
            got = f1[k]
            if v.startswith("http"):
                rep.holds("folder", f"{tag}:{k}", isinstance(got, Opaque) and got.key == ("url", v) or got == v, f"address became {got}", where)
                continue
            want = (("sym", "home"), v[1:]) if v[:1] == "~" else (v,) if v[:1] == "/" else (("sym", "cwd"), "/" + v)
            if not isinstance(got, StrT) or any(not isinstance(x, str) and x[0] == "fn" for x in got.parts):
                rep.undecided("folder", f"{tag}:{k}", f"path not followed: {got}")
                continue
            rep.holds("folder", f"{tag}:{k}", got.parts == want, f"{v} became {got.parts}", where)
            mine = [e for e in made if e.args and isinstance(e.args[0], StrT) and e.args[0].parts == got.parts]
            rep.holds("created", f"{tag}:{k}", any(e.kw.get("parents") is True for e in mine), f"{got.parts} is not created with its parents", where)
            for e in mine:
                tests = [x for x in P.all_atoms(e.guard) if P.ATOMS[x][0] == "fn" and str(P.ATOMS[x][1]).startswith("path.")]
                here = [x for x in tests if f"({got.parts!r}, " in repr(P.ATOMS[x]) or f" {got.parts!r}" in repr(P.ATOMS[x]) or f"({got.parts!r})" in repr(P.ATOMS[x])]
                g = P.subst(e.guard, {x: P.ZERO for x in here})
                if not g.is_one() and not tests:
                    rep.undecided("created", f"{tag}:{k}:when", "condition not followed")
                else:
                    rep.holds("created", f"{tag}:{k}:when", g.is_one(), f"not created when absent, but when {P.show(e.guard)[:120]}", where)
        v = given["tagging_region"]
        if isinstance(v, str):
            got = f1["tagging_region"]
            ok = isinstance(got, StrT) and (got.parts[0][:1] == "/" if isinstance(got.parts[0], str) else got.parts[0][:2] == ("sym", "cwd"))
            rep.holds("folder", f"{tag}:tagging_region", ok, f"{v} became {getattr(got, 'parts', got)}", where)
        rep.world(s.w)


def last(s):
    return next((f"{e.name} {e.args[-1] if e.args else ''}" for e in reversed(s.I.events) if e.kind == "raise"), "")


def _attr(s, name):
    return getattr_(s.I, s.st, s.cls, name, None)


def _bound(s, o, name):
    return getattr_(s.I, s.st, o, name, None)
