#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property on /repo's current tree: builds the harness against it,
runs the property's cases on the real library, has TLC judge what was recorded
against the specification (spec/Conform.tla and its relatives), and has TLC
check the specification itself on the same cases (spec/MachineMC.tla).

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check
itself could not do its work.
"""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import tools
from tools import ToolError, CompileError, log
import deciders


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":     # the same cases every time
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vwork-")
    try:
        run = deciders.Run(pid, work, tools.TIER, tools.SEED)
        if replay:
            deciders.replay(run, json.load(open(replay)))
        else:
            deciders.decide(run)
            run.write_evidence(time.time() - t0)
        return run.report()
    except CompileError as e:
        print(f"ERROR: the harness does not build against /repo:\n{e}")
        return 2
    except ToolError as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR: internal")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
