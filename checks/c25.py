"""Command line.  Each command starts the one task it is named for, with the configuration
it was given; before that task starts the folder it writes to holds the log file and a
copy of that configuration."""

import re
import tomllib
from itertools import product
from pathlib import Path

from engine import poly as P
from engine.arr import DefiniteError
from engine.interp import Dead
from engine.lib import constify, delit
from engine.report import AnchorLost
from engine.values import DictC, Fn, ObjC, Opaque, Ref, StrT
from engine.world import World, path_sym

PK = "wam2layers."
TASKS = {
    "backward tracking": PK + "tracking.backtrack.run_experiment",
    "forward tracking": PK + "tracking.forwardtrack.run_experiment",
    "preprocessing": PK + "preprocessing.shared.prep_experiment",
    "view of the input": PK + "analysis.visualization.visualize_input_data",
    "view of the output": PK + "analysis.visualization.visualize_output_data",
    "view of both": PK + "analysis.visualization.visualize_both",
    "download": PK + "download.download_from_doi",
}
OUT, PRE = "output_folder", "preprocessed_data_folder"
# command -> (task, further arguments, folder)
WANT = {
    ("track",): None,
    ("preprocess", "era5"): ("preprocessing", "ERA5", PRE),
    ("preprocess", "cmip"): ("preprocessing", "CMIP", PRE),
    ("preprocess", "arco-era5"): ("preprocessing", "ARCO", PRE),
    ("visualize", "input"): ("view of the input", None, OUT),
    ("visualize", "output"): ("view of the output", None, OUT),
    ("visualize", "both"): ("view of both", None, OUT),
}


class Cli:
    def __init__(self, **over):
        self.w = w = World()
        self.I, self.st = w.I, w.st
        self.calls = []
        for name, q in TASKS.items():
            w.cut(q, self.record(name, w.find(q)))
        self.config = w.config(**over)
        w.cut(PK + "config.Config.from_yaml", self.load)
        self.loaded = []
        self.root = self.entry()

    def load(self, I, st, args, kw, node):
        self.loaded.append(next((v for v in list(args) + list(kw.values()) if isinstance(v, (str, StrT))), None))
        return self.config

    def record(self, name, fn):
        def hook(I, st, args, kw, node):
            self.calls.append((name, bind(fn, args, kw), I.guard(st), len(I.events)))
        return hook

    def entry(self):
        p = self.w.project.root
        for d in (Path(p), *Path(p).parents):
            f = d / "pyproject.toml"
            if f.exists():
                t = tomllib.loads(f.read_text()).get("project", {}).get("scripts", {}).get("wam2layers")
                if t:
                    return self.w.find(t.replace(":", "."))
        return self.w.find(PK + "cli.cli")

    # -- tree of commands ----------------------------------------------------
    def children(self):
        out = {}
        fns = {}
        for m in self.I.modules.values():
            for v in self.I.base.heap[m.frame].v.values():
                if isinstance(v, Fn) and v.decorators:
                    fns[v.qual] = v
        for f in fns.values():
            for name, args, kw, node in f.decorators:
                parent, _, kind = name.rpartition(".")
                if kind in ("command", "group") and parent in fns:
                    out.setdefault(parent, {})[self.name(f, args, kw)] = f
        for e in self.I.load_events:
            if e.kind == "method" and e.name == "add_command" and len(e.args) >= 1 and isinstance(e.args[0], Fn):
                sub = e.args[1] if len(e.args) > 1 else e.kw.get("cmd")
                if isinstance(sub, Fn):
                    n = e.args[2] if len(e.args) > 2 else e.kw.get("name")
                    own = next(((a, k) for nm, a, k, _ in sub.decorators if nm.split(".")[-1] in ("command", "group")), ((), {}))
                    out.setdefault(e.args[0].qual, {})[n or self.name(sub, *own)] = sub
        return out

    @staticmethod
    def name(f, args, kw):
        n = args[0] if args and isinstance(args[0], str) else kw.get("name")
        if isinstance(n, str):
            return n
        n = f.node.name.lower().replace("_", "-")
        return re.sub(r"-(command|cmd|group|grp)$", "", n)

    def path(self, names):
        """Functions from the root to a command."""
        tree = self.children()
        f, fs = self.root, [self.root]
        for n in names:
            f = tree.get(f.qual, {}).get(n)
            if f is None:
                return None
            fs.append(f)
        return fs

    # -- one call ------------------------------------------------------------
    def params(self, f, given):
        kw = {}
        last = None
        for name, args, k, node in f.decorators:
            kind = name.split(".")[-1]
            if kind == "argument":
                decl = [a for a in args if isinstance(a, str)]
                last = decl[-1].lower().replace("-", "_")
                if last in given:
                    kw[last] = given[last]
                elif given.get("*") is not None:
                    kw[last] = given["*"]
            elif kind == "option":
                decl = [a for a in args if isinstance(a, str)]
                plain = [a for a in decl if not a.startswith("-")]
                n = plain[0] if plain else max(decl, key=len).split("/")[0].lstrip("-").replace("-", "_")
                kw[n] = given[n] if n in given else k.get("default", False if k.get("is_flag") else None)
        return kw

    def run(self, fs, argument, debug):
        I, st = self.I, self.st
        ctx = I.alloc(st, ObjC(None, {"obj": None}))
        for f in fs:
            kw = self.params(f, {"*": argument, "debug": debug})
            names = [d[0].split(".")[-1] for d in f.decorators]
            args = [ctx] if "pass_context" in names else [st.heap[ctx.id].f["obj"]] if "pass_obj" in names else []
            I.call(f, args, kw, st)


def bind(fn, args, kw):
    names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
    out = dict(zip(names, args))
    out.update(kw)
    defaults = dict(zip(names[len(names) - len(fn.defaults):], fn.defaults))
    for n, v in list(defaults.items()) + list(fn.kw_defaults.items()):
        out.setdefault(n, v)
    return list(out.values())


def text(v):
    return getattr(v, "parts", (v,)) if isinstance(v, (str, StrT)) else None


def inside(p, folder):
    """Is the path the folder, or in it?"""
    a, b = text(p), text(folder)
    if a is None or b is None:
        return None
    return a[:len(b)] == b and (len(a) == len(b) or a[len(b)] == "/" or str(a[len(b)])[:1] == "/" or not isinstance(a[len(b)], str))


def conditions(g):
    """The file tests a condition depends on; None if it depends on anything else."""
    tests = {}
    for x in P.all_atoms(g):
        a = P.ATOMS[x]
        if a[0] == "fn" and str(a[1]).startswith("path."):
            tests[x] = "exists"
        elif a[0] == "fn" and a[1] == "samefile":
            tests[x] = "same"
        else:
            return None
    return tests


def switched(calls):
    """The calls made for each state of the settings (yes or no) their conditions depend on."""
    on = sorted({x for c in calls for x in P.all_atoms(c[2]) if x in P.BOOL and P.ATOMS[x][:2] == ("sym", "cfg")})
    for v in product((0, 1), repeat=len(on) if len(on) < 6 else 0):
        if not v:
            return
        now = [(c[0], c[1], P.subst(c[2], dict(zip(on, map(P.P, v)))), c[3]) for c in calls]
        yield ", ".join(f"{P.ATOMS[x][2]} {'on' if k else 'off'}" for x, k in zip(on, v)), [c for c in now if not c[2].is_zero()]


def copies(I, cfg):
    for e in I.events:
        n = e.name.split(".")[-1]
        if e.kind == "call" and e.name in ("shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.move"):
            a = list(e.args) + [e.kw[k] for k in ("src", "dst") if k in e.kw]
            yield e, a[0], a[1], n
        elif e.kind == "fs" and n in ("write_text", "write_bytes"):
            v = e.args[1] if len(e.args) > 1 else None
            src = cfg if isinstance(v, Opaque) and v.key[0] in ("path.read_text", "path.read_bytes") and "'config_file'" in repr(v.key) else None
            yield e, src, e.args[0], n


SAME = ("SameFileError", "Error", "OSError", "IOError", "EnvironmentError", "Exception", "BaseException")


def prepared(rep, c, tag, folder, call, cfg, where):
    """Log file and copy of the configuration, in place before the task starts."""
    I = c.I
    cf = c.st.heap[c.config.id].f[folder]
    logs = [e for e in I.events if e.kind == "call" and e.name.split(".")[-1] in ("FileHandler", "RotatingFileHandler", "WatchedFileHandler", "basicConfig") and
            (e.name.split(".")[-1] != "basicConfig" or "filename" in e.kw)]
    at = [e for e in logs if inside((e.args or (e.kw.get("filename"),))[0], cf)]
    off = [e for e in logs if inside((e.args or (e.kw.get("filename"),))[0], cf) is False]
    if not logs:
        rep.holds("log", tag, False, "no log file is opened", where)
    elif not at and not off:
        rep.undecided("log", tag, "path of the log file not followed")
    else:
        rep.holds("log", tag, bool(at) and at[0].seq < call[3] and at[0].guard.is_one(),
                  "the log file is not in the folder of the results when the task starts: " + ", ".join(str(text((e.args or (e.kw.get('filename'),))[0])) for e in logs), where)
    mine = [(e, dst, n) for e, src, dst, n in copies(I, cfg) if text(src) == text(cfg)]
    if not mine:
        return rep.holds("copy", tag, False, "the configuration file is not copied", where)
    e, dst, n = mine[0]
    ok = inside(dst, cf)
    if ok is None:
        return rep.undecided("copy", tag, "place of the copy not followed")
    rep.holds("copy", tag, ok and n != "move" and e.seq < call[3], f"{n} to {text(dst)}, {'before' if e.seq < call[3] else 'after'} the task starts", where)
    t = conditions(e.guard)
    if t is None:
        return rep.undecided("copy", f"{tag}:when", "condition not followed")
    for exists, same in ((0, 0), (1, 0), (1, 1)):
        g = P.subst(e.guard, {x: P.P({"exists": exists, "same": same}[k]) for x, k in t.items()})
        want = not same
        name = f"{tag}:when {'a file of that name is there' if exists else 'there is none'}{', the same one' if same else ''}"
        if same and n in ("write_text", "write_bytes"):
            continue
        if same and g.is_const() and g.const() and any(h.split(".")[-1] in SAME for h in e.handled):
            rep.holds("copy", name, True)
            continue
        rep.holds("copy", name, g.is_const() and bool(g.const()) == want,
                  ("the file is copied over itself, which fails" if not want else "the configuration is not copied"), where)


def one(rep, names, task, extra, folder, debug, **over):
    c = Cli(**over)
    try:
        decide(rep, c, names, task, extra, folder, debug, over)
    finally:
        rep.world(c.w)


def decide(rep, c, names, task, extra, folder, debug, over):
    tag = " ".join(names) + "".join(f":{v}" for v in over.values()) + (":debug" if debug else "")
    fs = c.path(names)
    if fs is None:
        rep.holds("command", tag, False, "there is no such command", c.root.qual)
        return
    where = fs[-1].qual
    cfg = path_sym("config_file")
    cfg = StrT(cfg.parts)
    try:
        c.run(fs, cfg, debug)
    except (Dead, DefiniteError) as e:
        why = str(e) or next((f"{e.name} {e.args[-1] if e.args else ''}" for e in reversed(c.I.events) if e.kind == "raise"), "")
        rep.holds("task", tag, False, f"the command fails: {why}", where)
        return
    got = [x for x in c.calls if not x[2].is_zero()]
    for how, calls in switched(c.calls):
        rep.holds("task", f"{tag}:with {how}", [x[0] for x in calls] == [task], f"runs {[x[0] for x in calls] or 'nothing'} instead of {task}", where)
        got = calls
    if [x for x in got if not x[2].is_one() and conditions(x[2]) is None]:
        return rep.undecided("task", tag, "condition of the task not followed")
    rep.holds("task", tag, [x[0] for x in got] == [task], f"runs {[x[0] for x in got] or 'nothing'} instead of {task}", where)
    if [x[0] for x in got] != [task]:
        return
    call = got[0]
    rep.holds("task", f"{tag}:always", call[2].is_one(), f"only if {P.show(call[2])[:100]}", where)
    rest = [text(v) for v in call[1] if text(v) is not None]
    rep.holds("arguments", f"{tag}:configuration", (call[1] and text(call[1][0])) == text(cfg), f"the task gets {rest} instead of the file given", where)
    if extra is not None:
        rep.holds("arguments", f"{tag}:source", extra in call[1], f"the task gets {rest} instead of {extra}", where)
    for p in c.loaded:
        rep.holds("arguments", f"{tag}:loaded", text(p) == text(cfg), f"configuration loaded from {text(p)}", where)
    prepared(rep, c, tag, folder, call, cfg, where)
    level(rep, c, tag, debug, where)


def level(rep, c, tag, debug, where):
    """What goes to the terminal: everything when asked for, information otherwise."""
    ev = [e for e in c.I.events if e.kind == "method" and e.name == "setLevel" and isinstance(e.args[0], Opaque) and "StreamHandler" in repr(e.args[0].key)]
    ev += [e for e in c.I.events if e.kind == "call" and e.name.endswith("basicConfig")]
    sets = [e for e in ev if e.kind == "method" and not e.guard.is_zero()]
    if len(sets) != 1 or len(sets[0].args) < 2:
        return rep.undecided("terminal", tag, "level not followed")
    v = sets[0].args[1]
    n = {"10": "DEBUG", "20": "INFO", "30": "WARNING"}.get(str(constify(v)), getattr(v, "name", str(v)).split(".")[-1])
    rep.holds("terminal", tag, n == ("DEBUG" if debug else "INFO"), f"messages from {n} on are shown", where)


def refused(rep, name):
    """Commands that were removed say so."""
    c = Cli()
    fs = c.path([name])
    if fs is None:
        return
    try:
        c.run(fs, StrT((("sym", "config_file"),)), False)
    except (Dead, DefiniteError):
        pass
    live = [x for x in c.calls if not x[2].is_zero()]
    rep.holds("removed", name, not live, f"runs {[x[0] for x in live]}", fs[-1].qual)


def cases(rep):
    c = Cli()
    fs = c.path(["download"])
    if fs is None:
        return rep.holds("command", "download", False, "there is no such command", c.root.qual)
    where = fs[-1].qual
    t = c.I.lookup_qual(PK + "example_cases.AVAILABLE_CASES")
    d = c.st.heap.get(t.id) if isinstance(t, Ref) else None
    if not isinstance(d, DictC) or not all(isinstance(k, str) and isinstance(v, str) for k, v in d.d.items()):
        raise AnchorLost("the table of example cases is not known")
    rep.holds("case", "table", len(set(d.d.values())) == len(d.d), "two cases share a dataset", where)
    for k, doi in d.d.items():
        rep.holds("case", f"{k}:doi", re.fullmatch(r"10\.\d{4,9}/[-._;()/:A-Za-z0-9]+", doi) is not None, f"{doi!r} is no DOI", where)
        c = Cli()
        try:
            c.run(c.path(["download"]), k, False)
        except (Dead, DefiniteError) as e:
            rep.holds("case", k, False, f"the command fails: {e}", where)
            continue
        rep.world(c.w)
        got = [x for x in c.calls if not x[2].is_zero()]
        rep.holds("case", k, [x[0] for x in got] == ["download"] and list(map(delit, got[0][1][:2])) == [doi, k],
                  f"downloads {[x[1] for x in got]} instead of {doi} as {k}", where)
    c = Cli()
    try:
        c.run(c.path(["download"]), "no such case", False)
    except (Dead, DefiniteError):
        pass
    choice = [kw.get("type") for f in [c.path(["download"])[-1]] for n, a, kw, _ in f.decorators if n.endswith("argument")]
    limited = any(isinstance(x, Opaque) and "Choice" in str(x.key[0]) for x in choice)
    live = [x for x in c.calls if not x[2].is_zero()]
    rep.holds("case", "unknown", limited or not live, f"a case that does not exist downloads {[x[1] for x in live]}", where)


def check(rep):
    rep.rule("command", "every documented command exists")
    rep.rule("task", "a command runs the task it is named for, once, and no other; tracking runs in the configured direction")
    rep.rule("arguments", "the task gets the configuration file of the command line and, for preprocessing, the source of the data")
    rep.rule("log", "the log file is opened in the folder the task writes to, before it starts")
    rep.rule("copy", "the configuration file is copied there before the task starts, unless it is that very file")
    rep.rule("terminal", "all messages are shown with --debug, information and above without")
    rep.rule("removed", "removed commands run nothing")
    rep.rule("case", "an example case downloads its own dataset under its own name; others are refused")
    for debug in (False, True):
        for d in ("backward", "forward"):
            one(rep, ["track"], f"{d} tracking", None, OUT, debug, tracking_direction=d)
        for names, want in WANT.items():
            if want:
                one(rep, list(names), *want, debug)
    for n in ("backtrack", "forwardtrack"):
        refused(rep, n)
    cases(rep)
