"""Output and flushing.  After a step, a file is written iff the new time is a
multiple of the output frequency or no further step follows; it is named after
the new time (year to minute) and the direction, lies in the output folder, has
a time coordinate equal to that time and holds the states at that time and all
accumulated fields; accumulations are reset iff they were written, states never."""

from engine import poly as P
from engine.values import StrT

from .common import INTERIOR, STATES, TAGGED, TRACKED, all_steps, ds_arr, loop_guard, time_chooser, write_guard


def check(rep):
    rep.rule("when", "a file is written iff the step ended on a multiple of the output frequency or was the last one")
    rep.rule("once", "one file per written step")
    rep.rule("name", "file name: output folder, direction, and year, month, day, hour, minute of the new time")
    rep.rule("time", "time coordinate = new time")
    rep.rule("content", "the file has both tracked storages, tagged, tracked, losses and gains")
    rep.rule("flush", "next step starts from 0 if written, else from the accumulated value")
    rep.rule("keep", "next step starts from the written storages")
    rep.rule("initial", "accumulated fields and storages start at 0")
    for s in all_steps(rep):
        c = s.tag()
        inwin = lambda v: v.poly(loop_guard(s)) == 1.0
        wg = write_guard(s)
        rep.equal("when", c, s.write.guard, wg * loop_guard(s), time_chooser, where=s.where, what="whether a file is written")
        rep.holds("once", c, len(s.writes) == 1, f"{len(s.writes)} writes in one step", s.where)
        path = s.write.args[1] if len(s.write.args) > 1 else None
        tid = s.new[1].p.ident()
        if isinstance(path, StrT):
            times = [x for x in path.parts if not isinstance(x, str) and x[0] == "time"]
            fields = {x[2] for x in times}
            mode = "backtrack" if s.direction == "backward" else "forwardtrack"
            rep.holds("name", f"{c}:folder", path.parts[0] == ("sym", "cfg", "output_folder"), f"path {path}", s.where)
            rep.holds("name", f"{c}:time", all(x[1] == tid for x in times), f"name refers to another time: {path}", s.where)
            rep.holds("name", f"{c}:fields", {"%Y", "%m", "%d", "%H", "%M"} <= fields or
                      {"%Y%m%d"} <= fields, f"name does not identify the time: {path}", s.where)
            lits = "".join(x for x in path.parts if isinstance(x, str))
            rep.holds("name", f"{c}:direction", mode in lits and lits.endswith(".nc"), f"path {path}", s.where)
        else:
            rep.undecided("name", c, f"path {path!r}", s.where)
        ta = ds_arr(s.write.extra, s.wds, "time")
        if ta is None:
            rep.violated("time", c, "no time coordinate in the written file", s.where)
        else:
            t = ta.at((("L", 0),)) if ta.ndim else ta.at(())
            rep.equal("time", c, t.p, s.new[1].p, time_chooser, where=s.where, what="time coordinate")
        acc = [TAGGED[s.direction]] + TRACKED[s.direction] + ["losses", "gains"]
        missing = [n for n in acc + STATES if n not in s.wds.vars]
        rep.holds("content", c, not missing, f"missing {missing}", s.where)
        end = s.loop.end
        eds = end.heap[s.outid]
        i0 = s.loop.init.heap[s.outid]
        for j in INTERIOR[:2]:
            for i in (("L", 0), ("G", 0)):
                for n in acc:
                    if n in missing:
                        continue
                    rep.equal("flush", f"{c}:{n}:{s.label(j, i)}", ds_arr(end, eds, n).at((j, i)).p,
                              P.where(wg, P.ZERO, s.after(n, j, i).p), time_chooser, inwin, where=s.where,
                              what=f"{n} at the start of the next step")
                    rep.equal("initial", f"{c}:{n}:{s.label(j, i)}", ds_arr(s.loop.init, i0, n).at((j, i)).p, P.ZERO,
                              where=s.where, what=f"initial {n}")
                for n in STATES:
                    rep.equal("keep", f"{c}:{n}:{s.label(j, i)}", ds_arr(end, eds, n).at((j, i)).p,
                              s.after(n, j, i).p, time_chooser, inwin, where=s.where, what=f"{n} at the start of the next step")
                    rep.equal("initial", f"{c}:{n}:{s.label(j, i)}", ds_arr(s.loop.init, i0, n).at((j, i)).p, P.ZERO,
                              where=s.where, what=f"initial {n}")
