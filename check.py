#!/usr/bin/env python3
"""Decide one property of /repo's current source: check.py ID [--repo DIR]"""
import argparse
import importlib
import os
import resource
import sys
import threading
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="+")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    from sa.model import Program, AnalysisError
    from sa.report import Check
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    rc = 0
    prog = Program(a.repo)
    for pid in a.id:
        try:
            chk = Check(pid, prog, tier)
            try:
                importlib.import_module("sa.rules." + pid.lower()).check(chk)
            except (AnalysisError, MemoryError, RecursionError) as e:
                if not chk.violations:
                    raise
                # what was found before the analysis had to give up stands on its own
                print("%s: not completed: %s" % (pid, e or type(e).__name__))
            r = chk.finish(seed)
        except Exception:
            traceback.print_exc()
            print("%s: no answer" % pid)
            r = 2
        rc = max(rc, r) if rc != 2 else 2
    return rc


if __name__ == "__main__":
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    if hard == resource.RLIM_INFINITY or hard > 16 << 30:
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, hard))
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
