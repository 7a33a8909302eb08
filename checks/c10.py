"""Restart.  With restart on, the run begins with both tracked storages equal
to those in the output file an earlier run of the same direction writes at the
start of this run (tracking start forward, end backward), with accumulations at
zero; with restart off no earlier output is read."""

from engine import poly as P
from engine.values import StrT

from .common import INTERIOR, STATES, TAGGED, TRACKED, cfg_field, ds_arr, path_str, step


def pattern(path, t):
    """Path with one given time abstracted."""
    if not isinstance(path, StrT):
        return None
    return tuple(x if isinstance(x, str) or x[0] != "time" else
                 ("time", "T" if x[1] == t.ident() else "other", x[2]) for x in path.parts)


def check(rep):
    rep.rule("state", "initial tracked storage = the file's tracked storage, cell by cell, layer by layer")
    rep.rule("file", "the file read is the one a run writes at that time (same folder, prefix and time format)")
    rep.rule("accumulators", "accumulated fields start at 0")
    rep.rule("off", "without restart no earlier output is read and the storages start at 0")
    for d in ("backward", "forward"):
        s = step(d, False, restart=True)
        rep.world(s.w)
        c = s.tag()
        t = cfg_field(s, "tracking_end_date" if d == "backward" else "tracking_start_date").p
        opened = [p for p, loops in s.w.opened if not loops]
        want = pattern(s.write.args[1], s.new[1].p)
        rep.holds("file", c, bool(opened) and all(pattern(p, t) == want for p in opened),
                  f"reads {[path_str(p) for p in opened]}, runs write {path_str(s.write.args[1])}", s.where)
        i0 = s.loop.init.heap[s.outid]
        for j in INTERIOR + [("L", 0)]:
            for i in (("L", 0), ("G", 0), ("H", 0)):
                for n in STATES:
                    try:
                        v = ds_arr(s.loop.init, i0, n).at((j, i)).p
                    except Exception as e:  # shape does not match the grid
                        rep.violated("state", f"{c}:{n}:{s.label(j, i)}", f"initial state is not a (lat, lon) field: {e}", s.where)
                        continue
                    rep.equal("state", f"{c}:{n}:{s.label(j, i)}", v,
                              P.sym(("restart", n), ("time", "L", 0), ("latitude",) + j, ("longitude",) + i),
                              where=s.where, what=f"initial {n}")
                for n in [TAGGED[d]] + TRACKED[d] + ["losses", "gains"]:
                    rep.equal("accumulators", f"{c}:{n}:{s.label(j, i)}", ds_arr(s.loop.init, i0, n).at((j, i)).p, P.ZERO,
                              where=s.where, what=f"initial {n}")
        bad = [e for e in s.I.events if e.kind in ("badcall", "undefined", "noattr")]
        rep.holds("state", f"{c}:defined", not bad, f"{bad}", s.where)
        s = step(d, False)
        rep.world(s.w)
        reads = [e for e in s.I.events if e.kind == "open" and not e.loops and e.args and
                 isinstance(e.args[0], StrT) and e.args[0].parts[:1] == (("sym", "cfg", "output_folder"),)]
        rep.holds("off", c, not reads, f"reads {reads}", s.where)
