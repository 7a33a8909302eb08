"""Abstract values and heap contents."""

from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Optional

from . import poly as P
from .arr import Arr, Sc


@dataclass(frozen=True)
class Ref:
    id: int


@dataclass(frozen=True)
class Ext:
    """An external (library or builtin) name, e.g. ``numpy.pad``."""

    name: str


@dataclass(frozen=True)
class TypeForm(Ext):
    """A subscripted type, e.g. ``Literal["a", "b"]``."""

    args: tuple = ()


class Fn:
    """A function of the analysed project."""

    def __init__(self, node, module, env, qual, cls=None):
        self.node = node
        self.module = module
        self.env = env  # frame id of the enclosing scope
        self.qual = qual
        self.cls = cls
        self.defaults: list = []
        self.kw_defaults: dict = {}
        self.decorators: list = []
        self.cached = False
        self.kind = "function"  # staticmethod / classmethod / property

    def __repr__(self):
        return f"<fn {self.qual}>"


class Cls:
    def __init__(self, name, module, qual, bases, attrs, fields, node):
        self.name = name
        self.module = module
        self.qual = qual
        self.bases = bases
        self.attrs = attrs
        self.fields = fields  # ordered annotation name -> annotation node
        self.node = node

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def all_fields(self):
        out = []
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.all_fields()
        return out + [f for f in self.fields if f not in out]

    def isa(self, name):
        if self.name == name or self.qual == name:
            return True
        for b in self.bases:
            if isinstance(b, Cls) and b.isa(name):
                return True
            if isinstance(b, Ext) and (b.name == name or b.name.split(".")[-1] == name):
                return True
        return False

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, frame):
        self.name = name
        self.path = path
        self.tree = tree
        self.frame = frame


@dataclass(frozen=True)
class Bound:
    """A bound method: of a project function or of a modelled type."""

    self: Any
    fn: Any  # Fn or method name (str)


@dataclass(frozen=True)
class Partial:
    fn: Any
    args: tuple
    kw: tuple


@dataclass(frozen=True)
class StrT:
    """A string (or path) term: concatenation of literals and opaque pieces."""

    parts: tuple
    path: bool = False

    def lit(self) -> Optional[str]:
        if all(isinstance(p, str) for p in self.parts):
            return "".join(self.parts)
        return None

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{" + show_part(p) + "}" for p in self.parts)


def show_part(p):
    if p[0] == "time":
        return f"time({P.show(P.POLY_BY_ID(p[1]))}):{p[2]}"
    if p[0] == "sym":
        return str(p[1])
    return ":".join(str(x) for x in p)


def mkstr(parts, path=False) -> StrT:
    out: list = []
    for p in parts:
        if isinstance(p, StrT):
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    return StrT(tuple(out), path)


@dataclass(frozen=True)
class Opaque:
    """An unknown object, identified by how it was obtained."""

    key: tuple
    hint: str = ""

    def __repr__(self):
        return f"<{self.key}>"


@dataclass(frozen=True)
class Choice:
    """g ? a : b for values that cannot be merged into one term."""

    g: P.Poly
    a: Any
    b: Any


UNBOUND = Opaque(("unbound",))


class Maybe:
    """A container entry that exists only under a guard."""

    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g = g
        self.v = v


# --- heap contents (immutable) --------------------------------------------
@dataclass(frozen=True)
class FrameC:
    v: dict


@dataclass(frozen=True)
class ListC:
    items: tuple
    kind: str = "list"  # list / set / deque
    tail: Any = None  # unknown further elements (abstract iterations)


@dataclass(frozen=True)
class DictC:
    d: dict
    rest: Any = None  # Opaque: unknown other entries


@dataclass(frozen=True)
class NdC:
    arr: Arr
    base: Optional[int] = None  # buffer this one is a view of
    labels: frozenset = frozenset()


@dataclass(frozen=True)
class VarC:
    nd: int
    attrs: int
    labels: frozenset = frozenset()


@dataclass(frozen=True)
class DaC:
    var: int
    coords: dict  # name -> var id
    name: Any = None


@dataclass(frozen=True)
class DsC:
    vars: dict  # name -> var id | Maybe
    coords: dict
    attrs: int
    rest: Any = None
    labels: frozenset = frozenset()


@dataclass(frozen=True)
class ObjC:
    cls: Any
    f: dict


class State:
    """Heap plus the local path guard (relative to the current function entry)."""

    def __init__(self, heap, g=P.ONE):
        self.heap = heap
        self.g = g
        self.alive = True

    def fork(self):
        s = State(dict(self.heap), self.g)
        s.alive = self.alive
        return s

    def adopt(self, o: "State"):
        self.heap = o.heap
        self.g = o.g
        self.alive = o.alive
