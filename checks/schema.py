"""The configuration class as its validation library runs it: conversions before,
types and validators of every field, checks of the whole afterwards."""

import ast

from engine import poly as P
from engine.arr import DefiniteError, Sc
from engine.interp import Dead
from engine.lib import constify, delit
from engine.report import AnchorLost
from engine.values import (
    Bound, Choice, Cls, DictC, Ext, Fn, ListC, Maybe, ObjC, Opaque, Ref, StrT, TypeForm, mkstr,
)
from engine.world import World, path_sym, str_sym

NUMERIC = ("ge", "gt", "le", "lt")


class Reject(Exception):
    pass


class Unclear(AnchorLost):
    """A value that was not followed: neither accepted nor refused."""


def meta(kind):
    def hook(I, st, args, kw, node):
        return TypeForm("pydantic." + kind, tuple(args) + tuple(kw.items()))
    return hook


HOOKS = {"ext:pydantic." + k: meta(k) for k in ("AfterValidator", "BeforeValidator", "Field", "PlainValidator")}


class Schema:
    def __init__(self, **cfg):
        self.w = World(hooks=dict(HOOKS), cfg=cfg or None)
        self.I, self.st = self.w.I, self.w.st
        self.cls = self.w.find("wam2layers.config.Config")
        if not isinstance(self.cls, Cls):
            raise AnchorLost("the configuration is not a class")
        self.accept = P.ONE  # constraints of field types

    # -- declared parts ----------------------------------------------------
    def decorated(self, name):
        out = []
        for n, v in self.cls.attrs.items():
            if isinstance(v, Fn):
                for d in v.decorators:
                    if d[0].split(".")[-1] == name:
                        out.append((v, d[1], d[2]))
        return out

    def option(self, name):
        mc = self.cls.lookup("model_config")
        for x in getattr(mc, "key", ())[1:]:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == name:
                return x[1]
        c = self.st.heap.get(mc.id) if isinstance(mc, Ref) else None
        return c.d.get(name) if isinstance(c, DictC) else None

    def annotation(self, cls, name):
        n = cls.fields.get(name)
        n = n.annotation if isinstance(n, ast.AnnAssign) else n
        if n is None:
            for b in cls.bases:
                if isinstance(b, Cls) and name in b.all_fields():
                    return self.annotation(b, name)
        return self.resolve(n, cls.module)

    def resolve(self, n, module):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            n = ast.parse(n.value, mode="eval").body
        m = self.I.module(module if isinstance(module, str) else module.name)
        return self.I.ev(n, self.st, m.frame)

    def method(self, f, args):
        if f.kind == "classmethod" or len(f.node.args.args) > len(args):
            args = [self.cls] + args
        return self.I.call_fn(f, args, {}, self.st, f.node)

    # -- one value ---------------------------------------------------------
    def value(self, t, v):
        I, st = self.I, self.st
        if isinstance(v, (Choice, Maybe)) or isinstance(v, Opaque) and v.key[:1] != ("url",):
            raise Unclear(f"value not followed: {v!r}"[:160])
        if t is None:
            if v is None:
                return None
            raise Reject("not None")
        if isinstance(t, TypeForm):
            last = t.name.split(".")[-1]
            if last == "Annotated":
                before = [m for m in t.args[1:] if isinstance(m, TypeForm) and m.name.endswith("BeforeValidator")]
                for m in before:
                    v = I.call(m.args[0], [v], {}, st)
                v = self.value(t.args[0], v)
                for m in t.args[1:]:
                    if isinstance(m, TypeForm) and m.name.endswith("AfterValidator"):
                        v = I.call(m.args[0], [v], {}, st)
                    elif isinstance(m, TypeForm) and m.name.endswith("Field"):
                        self.bounds(dict(x for x in m.args if isinstance(x, tuple)), v)
                return v
            if last in ("Union", "Optional"):
                ts = t.args + ((None,) if last == "Optional" else ())
                if any(self.exact(x, v) for x in ts):
                    ts = [x for x in ts if self.exact(x, v)]
                for n, x in enumerate(ts):
                    keep = self.accept
                    try:
                        return self.value(x, v)
                    except Reject:
                        self.accept = keep
                        if n == len(ts) - 1:
                            raise
            if last == "Literal":
                if isinstance(v, str) and v in t.args or isinstance(v, StrT):
                    return v
                raise Reject(f"{v} is not one of {t.args}")
            if last in ("List", "list", "Sequence"):
                its = I.concrete_items(v, st) if isinstance(v, (Ref, tuple)) else None
                if its is None:
                    raise Reject("not a list")
                return I.alloc(st, ListC(tuple(self.value(t.args[0], x) for x in its)))
            return v
        if isinstance(t, Cls):
            fields = t.all_fields()
            c = st.heap.get(v.id) if isinstance(v, Ref) else None
            if isinstance(c, ObjC) and isinstance(c.cls, Cls):
                if c.cls is not t:
                    raise Reject("another class")
                its = [c.f[k] for k in fields]
            elif isinstance(c, DictC):
                its = [c.d.get(k) for k in fields]
            else:
                its = I.concrete_items(v, st) if isinstance(v, (Ref, tuple)) else None
            if its is None or len(its) != len(fields):
                raise Reject("wrong number of entries")
            return I.alloc(st, ObjC(t, {k: self.value(self.annotation(t, k), x) for k, x in zip(fields, its)}))
        if isinstance(t, Ext):
            last = t.name.split(".")[-1]
            isstr = isinstance(v, (str, StrT))
            if last == "str":
                if isstr and not (isinstance(v, StrT) and v.path):
                    return v
                raise Reject("not a string")
            if last in ("Path", "FilePath", "DirectoryPath", "NewPath"):
                if not isstr:
                    raise Reject("not a path")
                return v if isinstance(v, StrT) and v.path else mkstr((v,) if isinstance(v, str) else v.parts, True)
            if last in ("HttpUrl", "AnyUrl", "AnyHttpUrl"):
                if isinstance(v, str) and v.startswith("http"):
                    return Opaque(("url", v), "url")
                raise Reject("not an address")
            if last in ("int", "float", "bool"):
                c = constify(v)
                if isinstance(c, (bool, int, float, Sc)):
                    return v
                raise Reject("not a number")
            if t.name.startswith("cftime."):
                if isinstance(v, Sc) and v.k == "time":
                    return v
                raise Reject("not a date")
        return v

    def exact(self, t, v):
        while isinstance(t, TypeForm) and t.name.endswith("Annotated"):
            t = t.args[0]
        c = self.st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(t, Cls):
            return isinstance(c, ObjC) and c.cls is t
        if isinstance(t, TypeForm):
            return t.name.endswith("Literal") and isinstance(v, str) and v in t.args
        return False

    def bounds(self, limits, v):
        for k in NUMERIC:
            if k in limits:
                a, b = self.I.sc(v).p, self.I.sc(limits[k]).p
                d = a - b if k[0] == "g" else b - a
                c = P.gt0(d) if k[1] == "t" else P.ge0(d)
                self.accept = self.accept * c

    # -- the whole -----------------------------------------------------------
    def build(self, settings):
        """Settings to a configuration; None where it is refused outright."""
        I, st = self.I, self.st
        for f, a, kw in self.decorated("model_validator"):
            if kw.get("mode") == "before":
                d = I.alloc(st, DictC(dict(settings)))
                r = self.method(f, [d])
                c = st.heap.get(r.id) if isinstance(r, Ref) else None
                if not isinstance(c, DictC):
                    raise AnchorLost("a validator does not hand on the settings")
                settings = dict(c.d)
        fields = [n for n in self.cls.all_fields() if n != "model_config"]
        out = {}
        per = self.decorated("field_validator")
        for n in fields:
            if n in settings:
                v = settings[n]
                on = lambda names: n in names or "*" in names
                for f, names, kw in per:
                    if on(names) and kw.get("mode", "after") == "before":
                        v = self.method(f, [v])
                try:
                    v = self.value(self.annotation(self.cls, n), v)
                except Reject as e:
                    raise Reject(f"{n}: {e}")
                for f, names, kw in per:
                    if on(names) and kw.get("mode", "after") == "after":
                        v = self.method(f, [v])
            else:
                node = self.cls.fields.get(n)
                if isinstance(node, ast.AnnAssign) and node.value is None:
                    raise Reject(f"{n} is missing")
                v = self.cls.lookup(n)
            out[n] = v
        o = I.alloc(st, ObjC(self.cls, out))
        for f, a, kw in self.decorated("model_validator"):
            if kw.get("mode", "after") == "after":
                r = self.method(f, [o])
                if isinstance(r, Ref):
                    o = r
        return o

    def accepted(self, settings):
        """(condition under which the settings are accepted, configuration, why not)."""
        self.accept = P.ONE
        try:
            o = self.build(settings)
        except AnchorLost as e:
            return P.sym("?accepted"), None, str(e)
        except (Reject, Dead, DefiniteError) as e:
            why = str(e) or next((e.name for e in reversed(self.I.events) if e.kind == "raise"), "error")
            return P.ZERO, None, why
        return self.I.guard(self.st) * self.accept, o, ""


DATES = ["preprocess_start_date", "preprocess_end_date", "tracking_start_date", "tracking_end_date", "tagging_start_date", "tagging_end_date"]


def box(w, *v):
    return w.I.alloc(w.st, ListC(tuple(Sc(P.P(P.Fraction(x))) if isinstance(x, (int, float)) else x for x in v)))


def settings(s, **over):
    """A complete set of valid settings."""
    w = s.w
    out = {
        "filename_template": "/data/{year}/{variable}.nc", "preprocessed_data_folder": "/data/pre",
        "tracking_direction": "backward", "tagging_region": "/data/region.nc", "output_folder": "/data/out",
        "input_frequency": "1h", "timestep": 600, "output_frequency": "1d", "level_type": "model_levels",
        "levels": "All", "restart": False, "periodic_boundary": False, "kvf": 3, "calendar": "standard",
    }
    for n, d in enumerate(DATES):
        out[d] = Sc(P.sym("date", d), k="time")
    out.update(over)
    return {k: v for k, v in out.items() if v is not ...}
