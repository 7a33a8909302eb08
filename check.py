#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property from /repo's source."""
import importlib
import os
import signal
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import engine.interp  # noqa: E402,F401
from engine.arr import DefiniteError  # noqa: E402
from engine.report import AnchorLost, Report  # noqa: E402


LIMIT = {"quick": 660, "thorough": 5000}


class OutOfTime(BaseException):
    """What is not decided by now is left undecided."""


def out_of_time(sig, frame):
    raise OutOfTime("no more time")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(f"checks.{pid.lower()}")
    rep = Report(pid, tier)
    signal.signal(signal.SIGALRM, out_of_time)
    signal.setitimer(signal.ITIMER_REAL, LIMIT.get(tier, 660))
    try:
        mod.check(rep)
    except DefiniteError as e:
        rep.holds("runs", "analysed program", False, f"fails on valid input: {e}", e.where if hasattr(e, "where") else "")
    except (AnchorLost, Exception, OutOfTime) as e:
        if not isinstance(e, (AnchorLost, OutOfTime)):
            traceback.print_exc()
        print(f"ERROR: {type(e).__name__}: {e}", file=sys.stderr)
        if not any(o["status"] != "undecided" for o in rep.obs):
            return 2
        # what was decided stands; what was to follow is not decided
        rep.undecided("analysis", "rest of the check", f"{type(e).__name__}: {e}"[:160])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rep.finish(getattr(mod, "EXPLAIN", None) or (mod.__doc__ or "").strip())


sys.exit(main())
