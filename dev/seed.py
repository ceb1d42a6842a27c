"""Make or re-make a seeded bug:  seed.py NAME  reads dev/seeds/NAME.py and writes seeded/NAME/.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (Python source run in /repo).
The patch is made in a scratch copy, the demonstration is run on both versions, and the stable tests on the changed one."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src/python" PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def main(name, tests=True):
    s = importlib.util.spec_from_file_location("seed", f"{V}/dev/seeds/{name}.py")
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    t = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, a, b in m.EDITS:
            p = f"{t}/r/src/python/deepgnn/{f}"
            x = open(p).read()
            assert x.count(a) == 1, (f, x.count(a), a)
            open(p, "w").write(x.replace(a, b))
        d = subprocess.run(["git", "-C", t + "/r", "diff"], check=True, capture_output=True, text=True).stdout
        o = f"{V}/seeded/{name}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        open(o + "/demo.py", "w").write(m.DEMO.lstrip())
        open(o + "/demo.sh", "w").write(SH)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(o + "/meta.json", "w"), indent=1)
        good = subprocess.run(["bash", o + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", o + "/demo.sh"], cwd=t + "/r", capture_output=True, text=True)
        print(name, "unchanged:", good.returncode, "changed:", bad.returncode)
        if good.returncode:
            print(good.stdout[-1500:], good.stderr[-1500:])
        print("   ", (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
        if tests:
            r = subprocess.run(["bash", V + "/dev/seedtest.sh", t + "/r", o + "/patch.diff"], capture_output=True, text=True)
            print("    tests:", (r.stdout + r.stderr).strip()[-300:])
        if "-c" in sys.argv:
            check(name, m.PROPERTY)
    finally:
        shutil.rmtree(t)


def check(name, pid):
    p = f"{V}/seeded/{name}/patch.diff"
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "apply", p], check=True)
    try:
        ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
        hit = []
        for i in ids:
            r = subprocess.run([sys.executable, "check.py", i], cwd=V, capture_output=True, text=True)
            if r.returncode:
                hit.append(i if r.returncode == 1 else f"{i}!{r.returncode}")
                if i == pid:
                    print("    ", r.stdout.strip().splitlines()[0][:300])
        print("    caught by", hit)
        rp = V + "/dev/caught.json"
        c = json.load(open(rp)) if os.path.exists(rp) else {}
        c[name] = [h for h in hit if "!" not in h]
        json.dump(c, open(rp, "w"), indent=1, sort_keys=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


names = [a for a in sys.argv[1:] if not a.startswith("-")]
for n in names:
    if "-k" in sys.argv:
        check(n, json.load(open(f"{V}/seeded/{n}/meta.json"))["property"])
    else:
        main(n, "-n" not in sys.argv)
