#!/usr/bin/env python3
"""plant.py ID [--no-tests] [CHECK ...]: confirm a planted bug in a scratch copy and run checks on it.

Confirms: the patch applies, everything imports, the stable tests pass, demo.sh
passes without and fails with the patch; then runs the given checks (default:
the property's) on the patched copy."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1]
notests = "--no-tests" in sys.argv
checks = [a for a in sys.argv[2:] if not a.startswith("--")]
d = os.path.join(V, "seeded", ids)
meta = json.load(open(os.path.join(d, "meta.json")))
tmp = tempfile.mkdtemp(prefix="plant-")
repo = os.path.join(tmp, "repo")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC")


def demo():
    f = tempfile.mkdtemp(prefix="demo-")
    for x in os.listdir(d):
        if not x.endswith((".diff", ".patch")) and x != "meta.json":
            shutil.copy(os.path.join(d, x), f)
    r = subprocess.run(["bash", os.path.join(f, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
    shutil.rmtree(f)
    return r


try:
    r = demo()
    print("demo on clean:", r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else "")
    r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + repo, os.path.join(d, "patch.diff")], cwd="/", capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(["patch", "-p1", "-i", os.path.join(d, "patch.diff")], cwd=repo, capture_output=True, text=True)
    print("patch:", r.returncode, r.stderr[-300:])
    r = demo()
    print("demo on patched:", r.returncode, (r.stdout + r.stderr)[-400:])
    for c in checks or [meta["property"]]:
        r = subprocess.run(["python3", "-B", os.path.join(V, "check.py"), c, "quick"], cwd=V,
                           env=dict(os.environ, VERIF_SOURCE=os.path.join(repo, "src"), VERIF_EVIDENCE=tmp, VERIF_SEED="1"),
                           capture_output=True, text=True)
        print("check", c, "->", r.returncode, (r.stdout + r.stderr)[-700:])
    if not notests:
        for script, args in (("build.sh", ""), ("test.sh", os.path.join(tmp, "o.json"))):
            s = open("/opt/vp/" + script).read().replace("/repo", repo).replace("unset PYTHONPATH", "export PYTHONPATH=" + repo + "/src")
            p = os.path.join(tmp, script)
            open(p, "w").write(s)
            r = subprocess.run(["bash", p] + ([args] if args else []), capture_output=True, text=True)
            if script == "build.sh":
                print("build:", r.returncode, r.stderr[-300:])
        o = json.load(open(os.path.join(tmp, "o.json")))
        base = json.load(open("/opt/vp/BASELINE.json"))
        def names(x, k):
            return set(x.get(k, [])) if isinstance(x, dict) else set(x)
        stable = base.get("stable", base.get("passed", base.get("tests"))) if isinstance(base, dict) else base
        passed = o.get("passed", [n for n, v in o.get("results", {}).items() if v == "passed"])
        miss = sorted(set(stable) - set(passed))
        print("stable tests not passing:", miss[:5], len(miss), "of", len(stable))
finally:
    shutil.rmtree(tmp)
