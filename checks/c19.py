"""Two layers.  Every part of the column lies in exactly one layer: the layers of a
cell add up to its column (total column water where available), for moisture and
both flux components; the upper layer holds what lies above the configured boundary."""

from .column import FIELDS, chooser, columns, modes

KINDS = [("ERA5", "pressure_levels", False), ("ERA5", "model_levels", True), ("ARCO", "pressure_levels", True),
         ("CMIP", "pressure_levels", False)]


def check(rep):
    rep.rule("sum", "upper + lower = whole column (moisture, eastward flux, northward flux)")
    rep.rule("total", "upper + lower moisture = total column water where the input has it, else the integral of humidity")
    rep.rule("upper", "upper moisture = column water above factor * surface pressure + offset, or of the levels up to the boundary level")
    for c in columns(rep, "sum", KINDS):
        for mode, tcw in modes(c):
            ch = chooser(c, tcw)
            tag = f"{c.tag}:{mode}".rstrip(":")
            for q in ("s", "fx", "fy"):
                tot = c.field(q + "_upper").p + c.field(q + "_lower").p

                def want(v, q=q):
                    e = c.expected(v, tcw)
                    return None if e is None else e[q + "_upper"] + e[q + "_lower"]
                rep.numeric("sum", f"{tag}:{q}", tot, want, ch, where="preprocess", what=f"{q}_upper + {q}_lower", tries=60)
            tot = c.field("s_upper").p + c.field("s_lower").p
            if tcw:
                rep.numeric("total", tag, tot, lambda v: None if c.expected(v, tcw) is None else c.sfc(v, "tcw"), ch,
                            where="preprocess", what="s_upper + s_lower", tries=60)
            else:
                rep.numeric("total", tag, tot, lambda v: (c.expected(v, tcw) or {}).get("total"), ch,
                            where="preprocess", what="s_upper + s_lower", tries=60)
            rep.numeric("upper", tag, c.field("s_upper"), lambda v: (c.expected(v, tcw) or {}).get("s_upper"), ch,
                        where="preprocess", what="s_upper", tries=80)
