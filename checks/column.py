"""The preprocessed column: what the layers of every cell must hold, worked out
independently of the code from the input of that cell."""

from __future__ import annotations

import math

from engine import poly as P
from engine.arr import DefiniteError, Sc, Unsupported
from engine.interp import AnalysisError, Dead

from .common import ds_arr
from .prep import CMIP, NHALF, Prep

G = 9.80665
CELL = (("G", 0), ("G", 0))
FIELDS = ("s_upper", "s_lower", "fx_upper", "fx_lower", "fy_upper", "fy_lower")
NAME = {  # role -> variable, per source
    "ERA5": dict(q="q", u="u", v="v", ps="sp", d2m="d2m", us="u10", vs="v10", tcw="tcw", e="e", tp="tp"),
    "ARCO": dict(q="specific_humidity", u="u_component_of_wind", v="v_component_of_wind", ps="surface_pressure",
                 d2m="2m_dewpoint_temperature", us="10m_u_component_of_wind", vs="10m_v_component_of_wind",
                 tcw="total_column_water", e="evaporation", tp="total_precipitation"),
    "CMIP": {k: v for v, k in CMIP.items()},
}
LABELS = {"pressure_levels": [850, 300, 500], "model_levels": [50, 85, 137]}


def errors():
    return (Dead, DefiniteError, Unsupported, AnalysisError, KeyError, AttributeError, TypeError, IndexError, ValueError)


class Column:
    """One preprocessed time of one kind of input."""

    def __init__(self, source, level_type, listed, **kw):
        self.source, self.level_type, self.listed = source, level_type, listed
        self.labels = LABELS[level_type]
        self.tag = f"{source}:{level_type}:{'list' if listed else 'all'}"
        lv = [Sc(P.P(x)) for x in self.labels] if listed else "All"
        self.p = Prep(source, level_type, lv, nlev=None if listed else 3, **kw)
        self.error = None
        self.writes = []
        try:
            self.writes = self.p.day()
        except errors() as e:
            self.error = f"{type(e).__name__}: {e}"[:160]
        if not self.writes and not self.error:
            self.error = "nothing is written"
        if not self.error:
            self.st = self.writes[-1].extra
            self.ds = self.st.heap[self.writes[-1].args[0].id]

    def field(self, name, cell=CELL):
        """Term of a written variable at one time."""
        a = ds_arr(self.st, self.ds, name)
        ix = tuple({"time": ("L", 0), "latitude": cell[0], "longitude": cell[1]}[d] for d in a.dims)
        return a.at(ix)

    # -- input of the cell ------------------------------------------------------
    def sfc(self, v, role, suffix=""):
        n = NAME[self.source][role]
        key = ("in", n) + ((suffix,) if suffix else ())
        return v.atom(P.atom(("sym", key) + tuple((d,) + i for d, i in zip(("latitude", "longitude"), CELL))))

    def lev(self, v, role, k):
        n = NAME[self.source][role]
        at = ("level", "at", P.P(self.labels[k]).ident()) if self.listed else ("level", "L", k)
        return v.atom(P.atom(("sym", ("in", n), at) + tuple((d,) + i for d, i in zip(("latitude", "longitude"), CELL))))

    def label(self, v, k):
        if self.listed:
            return float(self.labels[k])
        return v.atom(P.atom(("sym", "level", ("level", "L", k))))

    def cfg(self, v, name):
        return v.atom(P.atom(("sym", name)))

    def has_tcw(self, v):
        return True

    # -- the column, worked out ---------------------------------------------------
    def layers(self, v):
        """[(mid pressure or label, dp, q, u, v)] of the layers of the column, and the boundary."""
        n = len(self.labels)
        q, u, w = ([self.lev(v, r, k) for k in range(n)] for r in "quv")
        ps = self.sfc(v, "ps")
        if self.level_type == "model_levels":
            t = lambda c, k: v.atom(P.atom(("sym", ("table", c), ("L", k))))
            half = lambda k: t("a [Pa]", k) + t("b", k) * ps
            full = lambda m: 0.5 * (half(m - 1) + half(m))
            lab = [int(self.label(v, k)) for k in range(n)]
            e = [half(0)] + [0.5 * (full(lab[k]) + full(lab[k + 1])) for k in range(n - 1)] + [half(NHALF - 1)]
            b = self.cfg(v, "level_layer_boundary")
            return [(lab[k] <= b, e[k + 1] - e[k], q[k], u[k], w[k]) for k in range(n)]
        scale = 1.0 if self.source == "CMIP" else 100.0
        p = [scale * self.label(v, k) for k in range(n)]
        if self.source == "CMIP":
            qs = self.sfc(v, "qs")
        else:
            d = self.sfc(v, "d2m")
            svp = 611.21 * math.exp(17.502 * (d - 273.15) / (d - 32.19))
            r = 287.0597 / 461.5250
            qs = r * svp / (ps - (1 - r) * svp)
        top = min(range(n), key=lambda k: p[k])
        pb = self.cfg(v, "pressure_boundary_factor") * ps + self.cfg(v, "pressure_boundary_offset")
        if not 0 < pb < ps or len(set(p + [ps, pb])) < n + 2:
            return None
        nodes = [(0.0, 0.0, u[top], w[top]), (ps, qs, self.sfc(v, "us"), self.sfc(v, "vs"))]
        nodes += [(p[k], q[k], u[k], w[k]) for k in range(n) if p[k] < ps]
        nodes.sort()
        j = next(i for i, x in enumerate(nodes) if x[0] > pb)
        a, b = nodes[j - 1], nodes[j]
        f = (pb - a[0]) / (b[0] - a[0])
        nodes.insert(j, tuple(x + f * (y - x) for x, y in zip(a, b)))
        out = []
        for a, b in zip(nodes, nodes[1:]):
            m = [0.5 * (x + y) for x, y in zip(a, b)]
            out.append((m[0] < pb, b[0] - a[0], m[1], m[2], m[3]))
        return out

    def expected(self, v, tcw=None):
        ls = self.layers(v)
        if ls is None:
            return None
        cw = [l[2] * l[1] / G for l in ls]
        tcw = self.source in ("ERA5", "ARCO") if tcw is None else tcw
        if tcw:
            t = sum(cw)
            if t == 0:
                return None
            c = self.sfc(v, "tcw") / t
            cw = [x * c for x in cw]
        r = dict.fromkeys(FIELDS, 0.0)
        for l, x in zip(ls, cw):
            z = "upper" if l[0] else "lower"
            r["s_" + z] += x
            r["fx_" + z] += x * l[3]
            r["fy_" + z] += x * l[4]
        r["total"] = sum(cw)
        return r


RANGE = {"ps": (40000.0, 110000.0), "d2m": (180.0, 335.0), "q": (0.0, 0.05), "qs": (0.0, 0.05), "u": (-150.0, 150.0), "v": (-150.0, 150.0),
         "us": (-80.0, 80.0), "vs": (-80.0, 80.0), "tcw": (0.0, 120.0), "e": (-0.5, 0.5), "tp": (0.0, 0.5)}
CMIP_RANGE = {"e": (-1500.0, 1500.0), "tp": (0.0, 0.1)}


def chooser(col, tcw=True):
    """Realistic columns: levels in Pa or hPa, surface pressure around the lowest level."""
    hpa = 1.0 if col.source != "CMIP" else 100.0

    def choose(k, r):
        if k[0] == "fn":
            if k[1] == "issorted":
                return 1.0
            return None
        if k[0] != "sym":
            return None
        n = k[1]
        if n == "exc":
            return 0.0 if tcw else 1.0
        if n == "level" and len(k) == 3:
            i = k[2][2]
            if col.level_type == "model_levels":
                return float(col.labels[i])
            base = [200, 550, 900][i % 3]
            return (base + r.choice([0, 0, 40, -30])) * hpa
        if n == "pressure_boundary_factor":
            return r.choice([0.72878581, 0.5, 0.9])
        if n == "pressure_boundary_offset":
            return r.choice([7438.803223, 0.0, 1000.0, -9000.0])
        if n == "level_layer_boundary":
            return float(r.choice([49, 50, 51, 84, 85, 86, 111, 137]))
        if isinstance(n, tuple) and n[0] == "table":
            i = k[2][1]
            return 100.0 * i * (NHALF - 1 - i) / 40 if n[1] != "b" else (i / (NHALF - 1)) ** 3
        if isinstance(n, tuple) and n[0] == "in":
            role = next((x for x, y in NAME[col.source].items() if y == n[1]), None)
            if role == "ps":
                return r.choice([101300.0, 87000.0, 70000.0, 52000.0, 99000.0])
            if role == "d2m":
                return r.uniform(260, 300)
            if role in ("q", "qs"):
                return r.choice([0.0, 0.001, 0.004, 0.02]) if r.random() < 0.4 else r.uniform(0.0, 0.02)
            if role == "tcw":
                return r.uniform(1, 60)
            if role in ("u", "v", "us", "vs"):
                return r.uniform(-30, 30)
            if role in ("e", "tp"):
                return r.choice([0.0, 0.001, -0.001, 0.0003, -0.0004])
        return None

    def free(k):
        if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "in":
            role = next((x for x, y in NAME[col.source].items() if y == k[1][1]), None)
            return (CMIP_RANGE if col.source == "CMIP" else {}).get(role) or RANGE.get(role)
    choose.free = free
    return choose


KINDS = [("ERA5", "pressure_levels", False), ("ERA5", "pressure_levels", True), ("ERA5", "model_levels", True),
         ("ERA5", "model_levels", False), ("ARCO", "pressure_levels", True), ("ARCO", "pressure_levels", False),
         ("CMIP", "pressure_levels", False)]


def columns(rep, rule, kinds=KINDS):
    """The preprocessed columns that could be interpreted."""
    for src, lt, listed in kinds:
        c = Column(src, lt, listed)
        rep.world(c.p.w)
        if c.error:
            rep.undecided(rule, c.tag, c.error)
            continue
        missing = [n for n in FIELDS if n not in c.ds.vars]
        if missing:
            rep.holds(rule, c.tag + ":variables", False, f"{', '.join(missing)} not written", "preprocess")
            continue
        yield c


def modes(c):
    """With total column water, and without where it is optional."""
    exc = any(P.ATOMS[a][:2] == ("sym", "exc") for a in P.all_atoms(c.field("s_lower").p))
    has = NAME[c.source].get("tcw") is not None
    return ([("tcw", True)] if has else [("", False)]) + ([("no tcw", False)] if exc else [])
