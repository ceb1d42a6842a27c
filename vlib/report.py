"""Obligations, verdicts, evidence files and known findings."""
import json
import os
import sys
import time
import traceback

from . import terms as TT
from .prog import AnchorError, Prog
from .same import same
from .small import differ
from .terms import T, mk, rewrite, show, subterms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# calls whose meaning the normal form accounts for: a mismatch that only involves
# these is a difference in behaviour, anything else may be another way to say the same
UNDERSTOOD = {
    "len", "int", "float", "str", "bool", "list", "tuple", "dict", "set", "sorted", "max", "min", "abs", "sum", "range",
    "isinstance", "os.path.join", "open", "struct.pack", "round",
    ".strip", ".lstrip", ".rstrip", ".lower", ".upper", "np.sort", "np.unique", "np.clip", "np.flip", "np.resize", "np.random.randint", "random.randint", "random.shuffle", "np.random.shuffle",
}

PART, TOTAL = 90.0, 400.0  # seconds for one clause, for all clauses of a check


def vocab(t):
    out = set()
    for x in subterms(t):
        if x.op == "call":
            out.add(x.args[0] if isinstance(x.args[0], str) else "<value>")
        elif x.op in ("bin", "un"):
            out.add(x.op + x.args[0])
        elif x.op == "fold" and TT.last_value(x):
            continue  # the value of the last step that assigned it: fully understood
        elif x.op == "exc" and not TT.asks(x.args[0]):
            continue
        elif x.op in ("opaque", "rec", "mu", "undef", "exc", "fold", "deleted", "popped", "dmerge", "scat", "obj", "dflat"):
            out.add("$" + x.op)
    return out


def by_key(a, b):
    """A container that is looked up by its own elements is a mapping: the elements of a walk over it are its keys."""
    maps = {x.args[0] for t in (a, b) for x in subterms(t) if x.op == "idx" and x.args[1].op == "idx" and x.args[1].args[0] is x.args[0]}
    maps = {m for m in maps if m.op in ("idx", "attr", "call", "sym")}
    if not maps:
        return a, b

    def f(x):
        if x.op == "idx" and x.args[0] in maps and x.args[1].op in ("bv", "iter"):
            return mk("idx", mk("keysof", x.args[0]), x.args[1])
        return x

    return rewrite(a, f), rewrite(b, f)


def as_rows(a, b):
    """Something that is counted holds elements: it is false when there are none."""
    rows = {x.args[0] for t in (a, b) for x in subterms(t) if x.op in ("len", "nonempty") and x.args[0].op in ("sym", "attr", "idx")}
    if not rows:
        return a, b

    def f(x):
        return TT.nonempty(x.args[0]) if x.op == "truthy" and x.args[0] in rows else x

    return rewrite(a, f), rewrite(b, f)


class Known:
    def __init__(self):
        self.entries = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    line = line.strip()
                    if not line.startswith("known:"):
                        continue
                    parts = line.split(None, 3)
                    # known: property=P01 key=<key> text
                    pid = parts[1].split("=", 1)[1]
                    key = parts[2].split("=", 1)[1]
                    self.entries[(pid, key)] = parts[3] if len(parts) > 3 else ""


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.obls = []
        self.prog = Prog()
        self.t0 = time.time()
        self.functions = set()
        self.notes = []
        self.counts = {}
        self.floors = {}
        self.rules = {}
        self.events = 0
        self.crashed = set()
        self.blur = False
        TT.COUNTS.clear()
        TT.OBJECTS.clear()
        TT.COUNT_RULES.clear()
        TT.LEN_RULES.clear()

    # ---- verdicts
    def _add(self, status, rule, construct, detail, loc):
        self.obls.append({"status": status, "rule": rule, "construct": construct, "detail": detail, "loc": loc_str(loc)})
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def hold(self, rule, construct, detail="", loc=None):
        self._add("hold", rule, construct, detail, loc)

    def violate(self, rule, construct, detail, loc=None):
        self._add("violation", rule, construct, detail, loc)

    def undecided(self, rule, construct, detail, loc=None):
        self._add("undecided", rule, construct, detail, loc)

    def expect(self, cond, rule, construct, detail, loc=None):
        if cond:
            self.hold(rule, construct, "", loc)
        else:
            self.violate(rule, construct, detail, loc)
        return cond

    def clause(self, rule, construct, fn, *args):
        """Run one part of a check; code the engine cannot digest leaves that part undecided, not the check broken."""
        left = TOTAL - (time.time() - self.t0)
        TT.LIMIT[1] = time.time() + max(5.0, min(PART, left))
        self.blur = False
        try:
            return fn(self, *args)
        except AnchorError:
            raise
        except Exception as ex:  # noqa: BLE001
            if os.environ.get("VERIF_DEBUG"):
                raise
            self.crashed.add(rule)
            at = traceback.extract_tb(ex.__traceback__)[-1]
            self.undecided(rule, construct, f"analysis stopped: {type(ex).__name__} {ex} at {os.path.basename(at.filename)}:{at.lineno}")

    def floor(self, rule, n):
        """Fewest instances of the rule a healthy tree has (confirmed by hand)."""
        self.floors[rule] = n

    def rule(self, rule, text):
        self.rules[rule] = text

    def saw(self, flow):
        self.functions |= flow.visited
        self.events += len(flow.events)
        self.blur |= any(n[0] == "lost update" for n in flow.notes)
        self.notes += [f"{n[0]} {n[2]}:{n[1]}" for n in flow.notes]

    def equal(self, rule, construct, got, want, loc=None, alt=(), known=(), short=()):
        """got must be want (or one of alt); graded by how much of the difference is understood.

        short: the two values; loops that run until something else happens have no normal form, a difference has to show for short inputs.
        """
        if isinstance(short, tuple) and short:
            short = bool({x for x in subterms(short[0]) if x.op == "until"} - {x for x in subterms(short[1]) if x.op == "until"})
        first = None
        for w in (want,) + tuple(alt):
            r, d = same(*as_rows(*by_key(got, w)))
            if r:
                self.hold(rule, construct, "", loc)
                return True
            if first is None:
                first = (r, d)
        r, d = first
        x, y, facts = d if d else (got, want, ())
        when = " and ".join(("" if v else "not ") + show(a)[:80] for a, v in facts[:4])
        msg = f"found {show(x)[:500]} ; required {show(y)[:500]}" + (f" ; when {when}" if when else "")
        extra = {v for v in vocab(got) - vocab(want) if v not in UNDERSTOOD and v not in known}
        if extra or TT.opaque(got):
            small = TT.settle(got)
            if small is not got:
                return self.equal(rule, construct, small, want, loc, alt, known, short)
        if "$undef" in extra and any(x.op == "any" for x in subterms(want)):
            extra.discard("$undef")  # where the requirement leaves the value open
            vague = any(z.op == "opaque" for t in (got, want) for z in subterms(t))
        else:
            vague = TT.opaque(got) or TT.opaque(want)
        if r is None or self.blur or vague or extra or short:
            if not self.blur and not any(z.op == "opaque" for t in (got, want) for z in subterms(t)):
                short = differ(got, want, lambda a, b: self.plainly(a, b, known))
                if short is not None:
                    sizes, (x, y, facts) = short
                    when = " and ".join(("" if v else "not ") + show(a)[:80] for a, v in facts[:4])
                    self.violate(rule, construct, f"found {show(x)[:500]} ; required {show(y)[:500]} ; for inputs of {sizes[0]} elements of {sizes[1]}" + (f" when {when}" if when else ""), loc)
                    return False
            self.undecided(rule, construct, f"not reducible ({', '.join(sorted(extra)) or 'unsummarised value'}): " + msg, loc)
            return None
        self.violate(rule, construct, msg, loc)
        return False

    def plainly(self, got, want, known):
        """A difference of two values without anything that is not understood."""
        r, d = same(*as_rows(*by_key(got, want)))
        if r is not False or not d:
            return None
        extra = {v for v in vocab(got) - vocab(want) if v not in UNDERSTOOD and v not in known}
        return None if extra or TT.opaque(got) or TT.opaque(want) else d

    # ---- output
    def finish(self, tier):
        known = Known()
        viol, kn = [], []
        for o in self.obls:
            if o["status"] == "violation":
                key = o["rule"] + ":" + o["construct"].replace(" ", "_")
                o["key"] = key
                (kn if (self.pid, key) in known.entries else viol).append(o)
        err = None
        unsure = self.crashed | {o["rule"] for o in self.obls if o["status"] == "undecided"}
        for r, n in self.floors.items():
            if self.counts.get(r, 0) < n and r not in unsure and not self.crashed:
                err = f"rule {r}: {self.counts.get(r, 0)} instances found, at least {n} expected"
        held = [o for o in self.obls if o["status"] == "hold"]
        und = [o for o in self.obls if o["status"] == "undecided"]
        ev = {
            "property": self.pid,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static dataflow analysis (gated value numbering) of the current source; each obligation compares a "
                "normal-form value, gate or call site derived from the source with the form the property requires.",
                "obligations": len(self.obls),
                "discharged": len(held),
                "undecided": len(und),
                "known_findings": len(kn),
                "functions_analysed": sorted(f for f in self.functions if not f.startswith("drv")),
                "function_count": sum(not f.startswith("drv") for f in self.functions),
                "events_recorded": self.events,
                "instances_per_rule": self.counts,
                "rules": self.rules,
                "undecided_list": [f"{o['rule']} {o['construct']}: {o["detail"][:900]}" for o in und][:40],
                "analysis_notes": sorted(set(self.notes))[:40],
                "samples": [f"{o['rule']} {o['construct']} {o['loc']}" for o in held][:12],
            },
            "assumptions": [
                "library calls behave as documented",
                "no monkey patching or reflection outside the analysed modules",
            ],
            "violations": len(viol),
            "wall_s": round(time.time() - self.t0, 3),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in kn:
            print(f"KNOWN-FINDING: property={self.pid} {o['rule']} {o['construct']} {o['loc']} {known.entries[(self.pid, o['key'])]}")
        if viol:
            rp = os.path.join(d, self.pid + ".violations.json")
            with open(rp, "w") as f:
                json.dump(viol, f, indent=1)
            for o in viol:
                print(f"  {o['rule']} {o['construct']} at {o['loc']}: {o['detail']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if err:
            print("ERROR vacuous: " + err)
            return 2
        print(f"{self.pid}: {len(held)} obligations hold, {len(und)} undecided, {len(self.functions)} functions, {ev['wall_s']}s")
        return 0


def loc_str(loc):
    if loc is None:
        return ""
    if isinstance(loc, (tuple, list)):
        return f"{loc[0]}:{loc[1]}" + (f" in {loc[2]}" if len(loc) > 2 else "")
    return str(loc)
