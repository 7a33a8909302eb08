"""Calendars and frequencies.  Dates are read in the configured calendar, every calendar
that can be configured is supported, old spellings of frequencies mean what they always
did, and input on another calendar than configured is reported."""

import re

from engine import poly as P
from engine.arr import DefiniteError, Sc
from engine.interp import Dead
from engine.lib import mk_nd, mk_var
from engine.lib2 import CF_CLASS
from engine.values import ObjC, Opaque, Ref, StrT, TypeForm
from engine.world import World, path_sym

from .schema import DATES, AnchorLost, Reject, Schema, settings

Q = "wam2layers.utils.calendar."
TOKENS = {"%Y": r"(?P<Y>\d{4})", "%m": r"(?P<m>\d\d)", "%d": r"(?P<d>\d\d)", "%H": r"(?P<H>\d\d)", "%M": r"(?P<M>\d\d)", "%S": r"(?P<S>\d\d)"}
PARTS = "YmdHMS"
FULL = "%Y-%m-%dT%H:%M:%S"


def month_days(cal, y):
    if cal == "360_day":
        return [30] * 12
    leap = {"noleap": False, "365_day": False, "all_leap": True, "366_day": True, "julian": y % 4 == 0}.get(
        cal, y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    return [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def moment(cal, *parts):
    """A date of the class of its calendar."""
    return P.sym("moment", CF_CLASS[cal], *parts)


def parse(text, fmt):
    pat = re.escape(fmt).replace(r"\%", "%").replace("\\-", "-")
    for t, r in TOKENS.items():
        pat = pat.replace(t, r)
    m = re.fullmatch(pat, text)
    if not m or "%" in pat:
        raise DefiniteError(f"time data {text!r} does not match format {fmt!r}")
    g = m.groupdict()
    return tuple(int(g.get(k) or {"m": 1, "d": 1}.get(k, 0)) for k in PARTS)


def library(w):
    """The parts of the calendar library used: dates without and with a class."""
    I = w.I

    def strptime(I, st, args, kw, node):
        a = list(args) + [None] * 3
        text, fmt, cal = a[0], kw.get("format", a[1]), kw.get("calendar", a[2]) or "standard"
        if not (isinstance(text, str) and isinstance(fmt, str) and isinstance(cal, str)):
            return None
        p = parse(text, fmt)
        if not 1 <= p[1] <= 12 or not 1 <= p[2] <= month_days(cal, p[0])[p[1] - 1]:
            raise DefiniteError(f"invalid day in the {cal} calendar")
        I.cfg["calendar"] = cal
        return Sc(P.sym("plain", cal, *p), k="time")

    def fromordinal(I, st, args, kw, node):
        a = list(args) + [None]
        cal = kw.get("calendar", a[1]) or "standard"
        x = args[0]
        if isinstance(x, Opaque) and x.key[0] == "ordinal":
            k = next(iter(P.all_atoms(P.POLY_BY_ID(x.key[1]))), None)
            k = P.ATOMS[k] if k is not None else ()
            if k[:2] == ("sym", "plain"):
                if CF_CLASS[k[2]] == CF_CLASS.get(cal):
                    return Sc(moment(cal, *k[3:]), k="time")
                return Sc(P.sym("moment", CF_CLASS.get(cal, cal), "day number of", *k[2:]), k="time")
        return Sc(P.sym("?ordinal", I.line), k="time")

    def parts(o, name):
        k = next(iter(P.all_atoms(o.p)), None)
        k = P.ATOMS[k] if k is not None else ()
        names = ["year", "month", "day", "hour", "minute", "second", "microsecond"]
        if k[:2] in (("sym", "plain"), ("sym", "moment")) and len(k) == 9 and name in names:
            return (list(k[3:]) + [0])[names.index(name)]

    I.hooks["ext:cftime.datetime.strptime"] = strptime
    I.cfg["time_parts"] = parts
    for c in sorted(set(CF_CLASS.values())) + ["datetime"]:
        for pre in ("cftime.", "cftime._cftime."):
            I.hooks[f"ext:{pre}{c}.fromordinal"] = fromordinal

            def make(I, st, args, kw, node, c=c):
                names = ["year", "month", "day", "hour", "minute", "second"]
                v = [x if isinstance(x, int) else None for x in list(args[:6]) + [kw.get(n, 0) for n in names[len(args):]]]
                if None in v:
                    return None
                cal = kw.get("calendar")
                if c == "datetime":
                    return Sc(P.sym("plain", cal, *v), k="time")
                return Sc(P.sym("moment", c, *v), k="time")
            I.hooks[f"ext:{pre}{c}"] = make


STAMPS = ["2021-07-01T00:00", "2021-07-01T05:30", "2021-12-30T23:59:59", "1999-02-28T12:00:07", "2000-03-01T00:10:00"]
EXTRA = {"360_day": ["2021-02-30T06:00"], "noleap": ["2024-03-01T00:00"], "standard": ["2020-02-29T18:20"], "all_leap": ["2021-02-29T18:20:30"],
         "366_day": ["2021-02-29T03:00"], "julian": ["1900-02-29T00:00"], "proleptic_gregorian": ["2024-02-29T21:00"]}

FREQ = [("H", "h"), ("h", "h"), ("T", "min"), ("min", "min"), ("S", "s"), ("s", "s"), ("L", "ms"), ("ms", "ms"), ("U", "us"), ("us", "us"),
        ("N", "ns"), ("ns", "ns"), ("BH", "bh"), ("CBH", "cbh"), ("bh", "bh"), ("D", "D"), ("d", "D"), ("W", "W"), ("MS", "MS"), ("ME", "ME"),
        ("QS", "QS"), ("YS", "YS"), ("1D", "1D"), ("W-SUN", "W-SUN"), ("SMS", "SMS"), ("BMS", "BMS"), ("M", "M"), ("Q", "Q"), ("A", "A"), ("Y", "Y"), ("B", "B"), ("BM", "BM")]


def shown(v):
    return P.show(v.p) if isinstance(v, Sc) else str(v)


def near(rep, c, v, t, sec):
    if not isinstance(v, Sc):
        return rep.undecided("round", c, "the rounded date is not followed")
    d = (v.p - t) * P.P(P.Fraction(2, sec))
    rep.le("round", c + ":below", d, P.ONE, where=Q + "round_cftime", what="distance to the nearest multiple in halves", tries=20)
    rep.le("round", c + ":above", -d, P.ONE, where=Q + "round_cftime", what="distance to the nearest multiple in halves", tries=20)
    q = v.p * P.P(P.Fraction(1, sec))
    rep.equal("round", c + ":multiple", P.fn("floor", q), q, None, where=Q + "round_cftime", what="rounded date", tries=20)


def check(rep):
    rep.rule("class", "a date string is that moment in the given calendar, of that calendar's own class")
    rep.rule("setting", "all six dates of the configuration are read in the configured calendar (standard if none is given)")
    rep.rule("invalid", "a date that the calendar does not have is refused")
    rep.rule("frequency", "an old spelling of a frequency becomes the current one; current ones stay")
    rep.rule("timestamp", "conversion of a date keeps the moment")
    rep.rule("round", "rounding down and up gives the neighbouring multiples of the frequency, rounding the nearest one")
    rep.rule("mismatch", "a warning is given exactly if input is on another calendar than configured")
    first = None
    for cal in CF_CLASS:
        for ts in STAMPS + EXTRA.get(cal, []):
            w = World()
            library(w)
            w.I.cfg["calendar"] = cal
            where = w.find(Q + "cftime_from_iso").qual
            want = moment(cal, *parse(ts, FULL if ts.count(":") == 2 else FULL[:-3]))
            try:
                v = w.call(Q + "cftime_from_iso", [ts, cal])
            except (Dead, DefiniteError) as e:
                rep.holds("class", f"{cal}:{ts}", False, f"not accepted: {e}", where)
                continue
            if not isinstance(v, Sc) or any(P.ATOMS[a][1] not in ("moment", "plain") for a in P.all_atoms(v.p)):
                rep.undecided("class", f"{cal}:{ts}", "date not followed")
                continue
            rep.holds("class", f"{cal}:{ts}", v.p == want, f"becomes {shown(v)}", where)
            rep.world(w)
        for ts in ("2021-02-30T06:00", "2021-02-29T06:00", "2021-06-31T00:00"):
            y, m, d = (int(x) for x in ts[:10].split("-"))
            if d <= month_days(cal, y)[m - 1]:
                continue
            w = World()
            library(w)
            w.I.cfg["calendar"] = cal
            try:
                v = w.call(Q + "cftime_from_iso", [ts, cal])
                rep.holds("invalid", f"{cal}:{ts}", False, f"becomes {shown(v)}", where)
            except (Dead, DefiniteError):
                rep.holds("invalid", f"{cal}:{ts}", True)
    # dates of the configuration
    for cal in [None] + list(CF_CLASS):
        s = Schema()
        library(s.w)
        c = cal or "standard"
        s.I.cfg["calendar"] = c
        texts = {d: f"20{11 + n}-0{n + 1}-1{n}T0{n}:2{n}" + (f":0{n}" if n % 2 else "") for n, d in enumerate(DATES)}
        given = settings(s, **texts, calendar=cal if cal else ...)
        try:
            s.accept = P.ONE
            o = s.build(given)
        except AnchorLost as e:
            rep.undecided("setting", f"{cal}", str(e))
            continue
        except (Dead, DefiniteError, Reject) as e:
            rep.holds("setting", f"{cal}", False, f"refused: {e}", s.cls.qual)
            continue
        f = s.st.heap[o.id].f
        rep.holds("setting", f"{cal}:calendar", f["calendar"] == c, f"calendar is {f['calendar']}", s.cls.qual)
        for d, ts in texts.items():
            want = moment(c, *parse(ts, FULL if ts.count(":") == 2 else FULL[:-3]))
            v = f[d]
            if not isinstance(v, Sc) or any(P.ATOMS[a][1] not in ("moment", "plain") for a in P.all_atoms(v.p)):
                rep.undecided("setting", f"{cal}:{d}", "date not followed")
                continue
            rep.holds("setting", f"{cal}:{d}", v.p == want, f"{ts} becomes {shown(v)}", s.cls.qual)
        first = first or s
    rep.world(first.w)
    # frequencies
    for n in ("", "1", "3", "15", "90"):
        s = Schema()
        for old, new in FREQ:
            if n and old[:1].isdigit():
                continue
            w = s.w
            for field in ("input_frequency", "output_frequency"):
                try:
                    v = s.value(s.annotation(s.cls, field), n + old)
                    for f, names, kw in s.decorated("field_validator"):
                        if field in names:
                            v = s.method(f, [v])
                except AnchorLost as e:
                    v = Opaque(("unclear",))
                except (Dead, DefiniteError, Reject) as e:
                    v = f"refused: {e}"
                if isinstance(v, (StrT, Opaque)):
                    rep.undecided("frequency", f"{field}={n}{old}", "spelling not followed")
                    continue
                ok = v == n + new
                rep.holds("frequency", f"{field}={n}{old}", ok, f"becomes {v} instead of {n + new}", w.find(Q + "fix_deprecated_frequency").qual)
    # conversions
    for cal in ("standard", "noleap", "360_day"):
        w = World()
        w.I.cfg["calendar"] = cal
        t = P.sym("date", "t")
        try:
            v = w.call(Q + "cftime_from_timestamp", [Sc(t, k="time"), cal])
            rep.equal("timestamp", cal, v.p if isinstance(v, Sc) else P.sym("?"), t, None, where=Q + "cftime_from_timestamp", what="moment", tries=20)
        except (Dead, DefiniteError) as e:
            rep.holds("timestamp", cal, False, f"fails: {e}", Q + "cftime_from_timestamp")
        for f, sec in (("1h", 3600), ("3h", 10800), ("30min", 1800), ("1D", 86400)):
            for how in ("floor", "ceil", "nearest"):
                w = World()
                w.I.cfg["calendar"] = cal
                try:
                    v = w.call(Q + "round_cftime", [Sc(t, k="time"), f, how])
                except (Dead, DefiniteError) as e:
                    rep.holds("round", f"{cal}:{f}:{how}", False, f"fails: {e}", Q + "round_cftime")
                    continue
                fl = P.fn("floor", t * P.P(P.Fraction(1, sec)))
                ce = -P.fn("floor", -t * P.P(P.Fraction(1, sec)))
                if how == "nearest":  # between both, on the side of the half (which itself may go either way)
                    near(rep, f"{cal}:{f}:{how}", v, t, sec)
                    continue
                rep.equal("round", f"{cal}:{f}:{how}", v.p if isinstance(v, Sc) else P.sym("?"), (fl if how == "floor" else ce) * sec, None,
                          where=Q + "round_cftime", what="rounded date", tries=20)
    # mismatch
    for data in ("numpy", "standard", "noleap", "360_day", "julian", "all_leap", "proleptic_gregorian"):
        for conf in CF_CLASS:
            c = "standard" if data == "numpy" else data
            if CF_CLASS[c] == CF_CLASS[conf] and c != conf:
                continue  # two names of one calendar: either way
            w = World()
            I = w.I
            I.cfg["calendar"] = c
            I.cfg["numpy_times"] = data == "numpy"
            I.cfg["glob"] = lambda I, st, p, pat, node: [path_sym("input file")]

            def op(I, st, p, name, kw, node, w=w):
                return w.dataset(st, {"ua": w.field("ua", dims=("time",))}, {"time": timecoord(w)})
            I.cfg["open_dataset"] = op
            cfg = w.config(calendar=conf)
            try:
                w.call(Q + "validate_calendar_type", [cfg])
            except (Dead, DefiniteError) as e:
                rep.holds("mismatch", f"{data}:{conf}", c != conf, f"fails: {e}", Q + "validate_calendar_type")
                continue
            warned = P.ZERO
            for e in I.events:
                if e.kind == "call" and e.name in ("warnings.warn",) or e.kind == "log" and e.name in ("warning", "error"):
                    warned = warned + e.guard
            left = [P.show_atom(a) for a in P.all_atoms(warned)]
            if left:
                rep.undecided("mismatch", f"{data}:{conf}", f"depends on {left[:2]}")
                continue
            rep.holds("mismatch", f"{data}:{conf}", (not warned.is_zero()) == (c != conf), "a warning" if c == conf else "no warning", Q + "validate_calendar_type")


def timecoord(w):
    from engine.arr import Arr
    from engine.arr import Ext as Len
    a = Arr(("time",), (Len(None, 3),), lambda ix: Sc(P.sym("stored time", *ix[0]), k="time"))
    return mk_var(w.I, w.st, mk_nd(w.I, w.st, a).id)
