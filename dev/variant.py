#!/usr/bin/env python3
"""Development aid: hand-written behaviour-preserving rewrites (dev/variants/*.py) must leave the checks quiet.

  variant.py NAME.. | all      each file: FILE, PIDS, VARIANTS = [(label, [(old, new), ..]), ..]
A label starting with "bad" is a change that must be noticed instead.
"""
import os, runpy, sys, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(12000)
from dev.mutate import judge, init  # noqa


def main():
    names = sys.argv[1:]
    if names == ["all"]:
        names = sorted(x[:-3] for x in os.listdir(HERE + "/variants") if x.endswith(".py"))
    jobs, labels = [], []
    for n in names:
        m = runpy.run_path(f"{HERE}/variants/{n}.py")
        path = os.path.join("/repo/src/python/deepgnn", m["FILE"])
        base = open(path).read()
        for label, edits in m["VARIANTS"]:
            s = base
            for old, new in edits:
                if s.count(old) < 1:
                    print("MISSING in", n, label, ":", old[:60])
                s = s.replace(old, new)
            compile(s, path, "exec")
            jobs.append((path, s, m["PIDS"]))
            labels.append((n, label))
    bad = 0
    with mp.Pool(min(8, os.cpu_count() or 2), init) as pool:
        for (n, label), res in zip(labels, pool.imap(judge, jobs)):
            st = {k: v[0] for k, v in res.items()}
            want_bad = label.startswith("bad")
            ok = ("V" in st.values()) if want_bad else all(x in "HU" for x in st.values())
            bad += not ok
            flag = "" if ok and (want_bad or "U" not in st.values()) else ("undecided" if ok else "WRONG")
            print(n, label, st, flag)
            if flag:
                for k, v in res.items():
                    for d in v[1][:2]:
                        print("    ", k, d[:600])
    print("wrong:", bad, "of", len(jobs))


if __name__ == "__main__":
    main()
