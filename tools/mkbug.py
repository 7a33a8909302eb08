#!/usr/bin/env python3
"""mkbug.py FILE: FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO; writes seeded/ID."""
import difflib, json, os, runpy, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sys.argv[1:]:
    m = runpy.run_path(fn)
    d = os.path.join(V, "seeded", m["ID"])
    os.makedirs(d, exist_ok=True)
    byfile = {}
    for path, old, new in m["EDITS"]:
        full = os.path.join("/repo", path)
        a, b = byfile.get(path) or (open(full).read(),) * 2
        assert b.count(old) == 1, (m["ID"], path, old, b.count(old))
        byfile[path] = (a, b.replace(old, new))
    out = ""
    for path, (a, b) in byfile.items():
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.py"), "w").write(m["DEMO"].lstrip())
    for x in ("demo.sh", "wamdemo.py"):
        shutil.copy(os.path.join(V, "tools", "demo", x), d)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(m["ID"], "written")
