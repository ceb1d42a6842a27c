#!/usr/bin/env python3
"""Development aid: how many small faults / harmless rewrites of a source file do the checks notice?

  mutate.py  FILE PID[,PID..] [-f FUNC]     faults (want: violation)
  mutate.py -r FILE PID[,PID..] [-f FUNC]   rewrites (want: quiet)
Nothing is written to the repository: the changed text is given to the analyser directly.
"""
import ast, copy, importlib, io, multiprocessing as mp, os, sys, threading, contextlib, signal, traceback, difflib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(12000)
from dev import faults, rewrites  # noqa


def judge(job):
    path, text, pids = job
    from vlib import prog, report
    prog.OVERLAY.clear()
    prog.OVERLAY[path] = text
    res = {}

    def one(pid):
        try:
            c = report.Check(pid)
            importlib.import_module("rules." + pid.lower()).run(c)
            known = report.Known().entries
            v = [o for o in c.obls if o["status"] == "violation" and (pid, o["rule"] + ":" + o["construct"].replace(" ", "_")) not in known]
            u = [o for o in c.obls if o["status"] == "undecided"]
            short = [r for r, n in c.floors.items() if not c.crashed and c.counts.get(r, 0) < n and r not in c.crashed | {o["rule"] for o in c.obls if o["status"] == "undecided"}]
            if v:
                res[pid] = ("V", [f"{o['rule']} {o['construct']}: {o['detail'][:300]}" for o in v[:3]])
            elif short:
                res[pid] = ("E", ["vacuous " + ",".join(short)])
            elif u:
                res[pid] = ("U", [f"{o['rule']} {o['construct']}: {o['detail'][:300]}" for o in u[:4]])
            else:
                res[pid] = ("H", [])
        except prog.AnchorError as ex:
            res[pid] = ("E", ["anchor " + str(ex)])
        except BaseException:
            res[pid] = ("E", [traceback.format_exc()[-500:]])

    def alarm(*a):
        os._exit(9)

    for pid in pids:
        t = threading.Thread(target=one, args=(pid,))
        t.start()
        t.join(120)
        if pid not in res:
            res[pid] = ("E", ["timeout"])
    return res


def init():
    threading.stack_size(256 * 1024 * 1024)


def main():
    a = sys.argv[1:]
    gen = faults
    if "-r" in a:
        gen = rewrites
        a.remove("-r")
    fn = None
    if "-f" in a:
        i = a.index("-f")
        fn = a[i + 1]
        del a[i:i + 2]
    verbose = "-v" in a
    if verbose:
        a.remove("-v")
    path, pids = a[0], a[1].split(",")
    if not path.startswith("/"):
        path = "/repo/src/python/deepgnn/" + path
    src = open(path).read()
    base = ast.unparse(ast.parse(src))
    jobs = []
    for desc, text in gen.variants(src, fn):
        if text == base:
            continue
        jobs.append((desc, text))
    seen = set()
    jobs = [j for j in jobs if not (j[1] in seen or seen.add(j[1]))]
    # the unchanged tree tells which undecided obligations are normal
    ctx = mp.get_context("fork")
    tally = {}
    with ctx.Pool(8, initializer=init, maxtasksperchild=20) as pool:
        base_res = pool.apply(judge, ((path, base, pids),))
        print("base", {k: (v[0], v[1][:2]) for k, v in base_res.items()})
        for (desc, text), res in zip(jobs, pool.imap(judge, [(path, t, pids) for _, t in jobs])):
            order = "VEUH"
            st = min((v[0] for v in res.values()), key=order.index)
            tally[st] = tally.get(st, 0) + 1
            bad = st in "VE" if gen is rewrites else st != "V"
            if bad or verbose:
                print(f"[{st}] {desc}")
                if gen is rewrites or verbose:
                    d = [l for l in difflib.unified_diff(base.splitlines(), text.splitlines(), lineterm="", n=0) if not l.startswith(("---", "+++", "@@"))]
                    print("    " + "\n    ".join(x[:160] for x in d[:14]))
                for k, v in res.items():
                    if v[0] in ("VEU" if gen is rewrites else "EU"):
                        for x in v[1][:2]:
                            print(f"    {k}{v[0]}: {x[:400]}")
    print("tally", tally, "of", len(jobs))


if __name__ == "__main__":
    main()
