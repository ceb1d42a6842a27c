"""Alias tables: the files written for weighted sampling and the tables they come from."""
from .common import *

W = SN + ".converter.writers"
DRV = '''
import os
import struct
import numpy as np
from deepgnn.graph_engine.snark.converter.writers import NodeAliasWriter, EdgeAliasWriter
from deepgnn.graph_engine.snark.alias import Vose


def node(folder, part, one, two, three):
    w = NodeAliasWriter(folder, part)
    w.add_type()
    for r in one:
        w.add(r.id, 0, r.weight)
    w.add_type()
    for r in two:
        w.add(r.id, 1, r.weight)
    for r in three:
        w.add(r.id, 0, r.weight)
    w.close()


def node_spec(folder, part, one, two, three):
    for tp, recs in ((0, (one, three)), (1, (two,))):
        ids, wts = open(f"i{tp}", "wb"), open(f"w{tp}", "wb")
        for rs in recs:
            for r in rs:
                ids.write(struct.pack("=Q", r.id))
                wts.write(struct.pack("=f", r.weight))
        e = np.fromfile(ids, dtype=np.int64, offset=-ids.tell())
        a = Vose(e, np.fromfile(wts, dtype=np.float32, offset=-wts.tell()))
        out = open(os.path.join(folder, f"node_{tp}_{part}.alias"), "wb")
        for i in range(len(e)):
            out.write(struct.pack("=qqf", e[i], e[a.alias[i]] if a.prob[i] < 1.0 else 0, a.prob[i]))


def edge(folder, part, one, two, three):
    w = EdgeAliasWriter(folder, part)
    w.add_type()
    for r in one:
        w.add(r.src, r.dst, 0, r.weight)
    w.add_type()
    for r in two:
        w.add(r.src, r.dst, 1, r.weight)
    for r in three:
        w.add(r.src, r.dst, 0, r.weight)
    w.close()


def edge_spec(folder, part, one, two, three):
    for tp, recs in ((0, (one, three)), (1, (two,))):
        ids, wts = open(f"i{tp}", "wb"), open(f"w{tp}", "wb")
        for rs in recs:
            for r in rs:
                ids.write(struct.pack("=QQ", r.src, r.dst))
                wts.write(struct.pack("=f", r.weight))
        e = np.fromfile(ids, dtype=np.int64, offset=-ids.tell()).reshape(-1, 2)
        a = Vose(e, np.fromfile(wts, dtype=np.float32, offset=-wts.tell()))
        out = open(os.path.join(folder, f"edge_{tp}_{part}.alias"), "wb")
        for i in range(len(e)):
            o = e[a.alias[i]] if a.prob[i] < 1.0 else (0, 0)
            out.write(struct.pack("=qqqqf", e[i][0], e[i][1], o[0], o[1], a.prob[i]))
'''


VOSE = '''
import random
import numpy as np
from deepgnn.graph_engine.snark.alias import Vose


def code(elements, weights):
    return Vose(elements, weights)


def sample(elements, weights):
    v = Vose(elements, weights)
    v.alias, v.prob = anything_alias, anything_prob
    return v.sample()


def sample_spec(elements, weights):
    n = random.randrange(len(anything_alias))
    if random.uniform(0, 1) > anything_prob[n]:
        n = anything_alias[n]
    return elements[n]


def sample_eq(elements, weights):
    n = random.randrange(len(anything_alias))
    if random.uniform(0, 1) >= anything_prob[n]:
        n = anything_alias[n]
    return elements[n]


def scale(weights):
    return np.multiply(weights, len(weights) / np.sum(weights))


def small(weights):
    w = scale(weights)
    return [i for i in range(len(w)) if w[i] < 1]


def small_eq(weights):
    w = scale(weights)
    return [i for i in range(len(w)) if w[i] <= 1]


def large(weights):
    w = scale(weights)
    return [i for i in range(len(w)) if not w[i] < 1]


def large_eq(weights):
    w = scale(weights)
    return [i for i in range(len(w)) if not w[i] <= 1]


def step(alias, prob, weights, s0, l0):
    small, large = list(s0), list(l0)
    s = small.pop()
    l = large.pop()
    alias[s] = l
    prob[s] = weights[s]
    weights[l] = weights[l] + weights[s] - 1
    if weights[l] < 1:
        small.append(l)
    else:
        large.append(l)
    return {"small": small, "large": large, "alias": alias, "prob": prob, "weights": weights}


def step_eq(alias, prob, weights, s0, l0):
    small, large = list(s0), list(l0)
    s = small.pop()
    l = large.pop()
    alias[s] = l
    prob[s] = weights[s]
    weights[l] = weights[l] + weights[s] - 1
    if weights[l] <= 1:
        small.append(l)
    else:
        large.append(l)
    return {"small": small, "large": large, "alias": alias, "prob": prob, "weights": weights}
'''


def stored(fl, f, b, args, kw, node):
    """np.fromfile of a file written before: its contents, when it is read from the first byte."""
    k = {n: fl.fz(v) for n, v in kw.items()}
    for n, v in zip(("file", "dtype", "count", "sep", "offset"), args):
        k.setdefault(n, fl.fz(v))
    src = args[0] if args else kw.get("file")
    data = fl.S.vals.get(("h", src, "$out"))
    if data is None:
        if not fresh_stream(src):
            return mk("opaque", "file", "", "")
        data = mk("list")
    start = add(fl.getv(("h", src, "$pos")), k.get("offset", ZERO))
    rest = tuple(sorted((n, v) for n, v in k.items() if n not in ("file", "dtype", "offset") and not (n == "count" and v is const(-1))))
    if start is not ZERO:
        rest += (("start", start),)
    return mk("call", "fromfile", (data, k.get("dtype", NONE)), rest, NONE)


def plain(t):
    """The table's elements are the ones it was given."""
    m = {}
    for x in subterms(t):
        if x.op == "attr" and x.args[1] == "elements" and x.args[0].op == "call" and x.args[0].args[0] == "Vose":
            m[x.dig] = x.args[0].args[1][0]
        if x.op == "len" and x.args[0].op == "attr" and x.args[0].args[1] in ("alias", "prob"):
            k = x.args[0].args[0]
            if k.op == "call" and k.args[0] == "Vose":
                m[x.dig] = seq_len(k.args[1][0])
    return plain(subst(t, m)) if m else t


def tables(c, kind, cls):
    m = source(c, DRV)
    h = {
        "np.fromfile": stored,
        "new:Vose": lambda fl, f, b, args, kw, node: mk(
            "call", "Vose", (fl.fz(argument(f, args, kw, 0, "elements")), fl.fz(argument(f, args, kw, 1, "weights"))), (), NONE),
    }
    a, b = run_driver(c, m, kind, hooks=h), run_driver(c, m, kind + "_spec", hooks=h)
    got = {norm_path(p): plain(v) for p, v in outputs(a).items()}
    loc = floc(cls.find("close"))
    opened = [norm_path(e.args[0]) for e in a.events if e.kind == "call" and e.name == "open"]
    twice = sorted({p for p in opened if opened.count(p) > 1})
    if not twice:
        c.hold("tables", f"{kind} work files are distinct", f"{len(opened)} files", loc)
    elif a.notes:
        c.undecided("tables", f"{kind} work files are distinct", str(twice), loc)
    else:
        c.violate("tables", f"{kind} work files are distinct", f"opened for writing twice: {twice}", loc)
    for p, v in outputs(b).items():
        p, v = norm_path(p), plain(v)
        if not p.startswith("{folder}"):
            continue
        if p in got:
            c.equal("tables", p, got[p], v, loc)
            made = [e.guard for e in a.events if e.kind == "call" and e.name == "open" and norm_path(e.args[0]) == p and not e.loops]
            if made:
                some = FALSE
                for g in made:
                    some = or_(some, g)
                c.equal("tables", p + " is there", some, TRUE, loc, known=("fromfile", "np.fromfile"))
        elif a.notes:
            c.undecided("tables", p, "file not identified", loc)
        else:
            c.violate("tables", p, f"no such file is written (written: {sorted(got)})", loc)


TOTALS = ("np.max", "np.min", "np.mean", "np.prod", ".max", ".min", ".mean")
NARROW = ("bool", "bool_", "int8", "uint8", "int16", "uint16", "float16")
WHOLE = ("int32", "uint32", "int64", "uint64", "int", "int_")


def element_type(t):
    """Name of the element type an array is made with, if it is written out."""
    if t.op == "call" and t.args[0] in ("np.empty", "np.zeros", "np.ones", "np.full"):
        d = dict(t.args[2]).get("dtype", t.args[1][1] if len(t.args[1]) > 1 and t.args[0] != "np.full" else None)
        if d is not None and (d.op == "ext" or is_const(d)):
            return str(d.args[0] if d.op == "ext" else cval(d)).split(".")[-1]
    return None


def vose(c):
    k = c.prog.need_class(SN + ".alias", "Vose")
    m = source(c, VOSE)
    KINDS[(mk("sym", "weights").dig, "[]")] = "float"
    loc = floc(k.find("__init__"))
    fl = new_flow(c)
    fl.probes = []
    v = fl.run(m.funcs["code"])
    c.saw(fl)
    field = {n: fl.S.vals.get(("h", v, n)) for n in ("elements", "alias", "prob")}
    c.equal("vose", "elements", fl.fz(field["elements"]) if field["elements"] is not None else mk("opaque", "", "", ""), mk("sym", "elements"), loc)
    ret = {n: run_driver(c, m, n).ret for n in ("small", "small_eq", "large", "large_eq")}
    main = None
    for p in fl.probes:
        lists = [x for x in p["var"] if x[0] == "h" and x[2] == "$c" and contains(p["step"][x], lambda z: z.op == "deleted" and z.args[0] is p["var"][x])]
        if len(lists) == 2:
            main = (p, lists)
            break
    if main is None or field["alias"] is None or field["prob"] is None:
        c.undecided("vose", "table", "no loop that pairs two work lists", loc)
        return
    p, lists = main
    s, l = lists
    if any(p["start"][l] is ret[n] for n in ("small", "small_eq")):
        s, l = l, s
    c.equal("vose", "first small", p["start"][s], ret["small"], loc, alt=(ret["small_eq"],), known=TOTALS)
    c.equal("vose", "first large", p["start"][l], ret["large_eq" if p["start"][s] is ret["small_eq"] else "large"], loc, known=TOTALS)
    others = [x for x in p["var"] if x[0] == "h" and x[2] == "$c" and x not in lists and x[1] not in field.values()]
    ak, pk = (("h", field[n], "$c") for n in ("alias", "prob"))
    for n, x in (("alias", ak), ("prob", pk)):
        if x not in p["var"] and not fl.notes:
            c.violate("vose", f"pairing {n}", "not set for the paired element", loc)
    if not others and not fl.notes:
        c.violate("vose", "pairing weights", "the weight given away is not taken from the larger element", loc)
    if len(others) != 1 or ak not in p["var"] or pk not in p["var"]:
        c.undecided("vose", "table", "tables of the pairing loop not identified", loc)
        return
    c.equal("vose", "scaled weights", p["start"][others[0]], run_driver(c, m, "scale").ret, loc, known=TOTALS)
    for n, x, small in (("alias", ak, NARROW), ("prob", pk, NARROW + WHOLE)):
        kind_ = element_type(p["start"][x])
        c.expect(kind_ not in small, "vose", f"{n} holds its values", f"elements of type {kind_}", loc)
    keys = {"small": s, "large": l, "alias": ak, "prob": pk, "weights": others[0]}
    names = {"small": "s0", "large": "l0", "alias": "alias", "prob": "prob", "weights": "weights"}
    sub_ = {p["var"][keys[x]].dig: mk("sym", n) for x, n in names.items()}
    live = subst(not_(p["stop"]), sub_)
    steps = [{cval(q.args[0]): q.args[1] for q in run_driver(c, m, n).ret.args} for n in ("step", "step_eq")]
    for n, x in keys.items():
        c.equal("vose", f"pairing {n}", constrain(subst(p["step"][x], sub_), live), steps[0][n], loc, alt=(steps[1][n],))
    a, b = mk("sym", "s0"), mk("sym", "l0")
    c.equal("vose", "pairing ends", live, and_(as_bool(a), as_bool(b)), loc, alt=(and_(nonempty(a), nonempty(b)),))
    left(c, fl, p, keys, field, loc)


def remains(t, main, key):
    """t is what the pairing loop leaves in one of its lists."""
    return t.op == "fold" and t.args[3] is main["start"][key] and t.args[0].op == "until"


def left(c, fl, main, keys, field, loc):
    start = main["start"][keys["prob"]]
    if start.op == "call" and start.args[0] in ("np.ones", "np.full") and (start.args[0] == "np.ones" or ONE in start.args[1]):
        c.hold("vose", "left over small", "", loc)
        c.hold("vose", "left over large", "", loc)
        return
    after = fl.probes[fl.probes.index(main) + 1:]
    done, vague = set(), False
    for p in after:
        if keys["prob"] not in p["var"]:
            continue
        var, step = p["var"][keys["prob"]], constrain(p["step"][keys["prob"]], not_(p["stop"]))
        if step.op != "upd" or step.args[0] is not var or not is_num_const(step.args[2]):
            vague = True
            continue
        at, known = step.args[1], False
        for n in ("small", "large"):
            x = p["var"].get(keys[n])
            if x is not None and at.op == "popped" and at.args[0] is x:
                known = True
                if cval(step.args[2]) == 1 and p["stop"] in (not_(as_bool(x)), not_(nonempty(x))):
                    done.add(n)
        if at.op == "idx" and at.args[1] is p["it"]:
            for z in at.args[0].args if at.args[0].op == "cat" else (at.args[0],):
                for n in ("small", "large"):
                    if remains(z, main, keys[n]):
                        known = True
                        if cval(step.args[2]) == 1 and p["stop"] is FALSE:
                            done.add(n)
        vague = vague or not known
    for n in ("small", "large"):
        if n in done:
            c.hold("vose", f"left over {n}", "", loc)
        elif vague or fl.notes:
            c.undecided("vose", f"left over {n}", "loop after the pairing not understood", loc)
        else:
            c.violate("vose", f"left over {n}", "elements left when the other list is empty are not given probability 1", loc)


def draw(c):
    k = c.prog.need_class(SN + ".alias", "Vose")
    m = source(c, VOSE)
    c.equal("vose", "sample", run_driver(c, m, "sample").ret, run_driver(c, m, "sample_spec").ret, floc(k.find("sample")),
            alt=(run_driver(c, m, "sample_eq").ret,))


def run(c):
    c.rule("tables", "complete contents of the alias files of two types, for every sequence of additions")
    c.rule("vose", "start, one round and end of the pairing loop that makes an alias table; drawing from it")
    for kind, cls in (("node", "NodeAliasWriter"), ("edge", "EdgeAliasWriter")):
        c.clause("tables", cls, tables, kind, c.prog.need_class(W, cls))
    c.clause("vose", "table", vose)
    c.clause("vose", "sample", draw)
    c.floor("tables", 6)
    c.floor("vose", 15)
