"""Write properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from dev/props.py."""
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dev.props import NA, PROPS  # noqa: E402

NOTE = (
    "Static dataflow analysis of the current source (gated value numbering with loop recurrences in closed form, no execution and no solver). "
    "Decided for all inputs of the stated drivers under documented behaviour of library calls; constructs the engine cannot summarise are reported as undecided in the evidence and never as held."
)


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                    "observe_at": list(p["observe"]),
                    "hook_needed": False,
                },
            }
            f.write(json.dumps(d) + "\n")
    na = dict(NA)
    checks = [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "static analysis: gated dataflow summaries compared with a specification",
            "level": "other",
            "level_note": (p["note"] + " " if p["note"] else "") + NOTE,
        }
        for p in PROPS if p["id"] not in na
    ]
    m = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q check.py vlib rules",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
        "notes": "Every check reads /repo's source as it is at that moment and needs nothing but the Python standard library. "
        "Exit codes: 0 held, 1 violation, 2 a rule found fewer instances than a healthy tree has, 3 a public anchor is gone, 4 crash of the check.",
    }
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    caught = {}
    for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(p))
        caught.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(p)), d["what_it_breaks"]))
    res = {}
    rp = V + "/dev/caught.json"
    if os.path.exists(rp):
        res = json.load(open(rp))
    out = []
    for p in PROPS:
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        if p["id"] in na:
            out.append(f"Not applicable: {na[p['id']]}\n")
            continue
        out.append(f"*Decided by.* {p['decided']}\n")
        out.append(f"*Bounds and cost.* {p['bounds'] or 'none'}; under a few seconds per run.\n")
        out.append(f"*What tests cannot reach.* {p['why']}\n")
        if p["note"]:
            out.append(f"*Limits.* {p['note']}\n")
        for n, w in caught.get(p["id"], []):
            r = res.get(n)
            out.append(f"- seeded `{n}`: {w}" + (f" — {'caught by ' + ', '.join(r) if r else 'missed'}" if r is not None else ""))
        out.append("")
    s = open(V + "/dev/DESIGN.head.md").read()
    t = open(V + "/dev/DESIGN.tail.md").read()
    with open(V + "/DESIGN.md", "w") as f:
        f.write(s + "\n" + "\n".join(out) + "\n" + t)


main()
