#!/usr/bin/env python3
"""Run one property check:  check.py <PROPERTY> [--tier quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(12000)
sys.dont_write_bytecode = True

from vlib.prog import AnchorError  # noqa: E402
from vlib.report import Check  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    c = Check(pid)
    try:
        importlib.import_module("rules." + pid.lower()).run(c)
        code = c.finish(tier)
    except AnchorError as ex:
        print(f"ERROR anchor: {ex}")
        code = 3
    except Exception:
        traceback.print_exc()
        code = 4
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 5)
