"""Samples of a directed graph grown by burning it, and statistics of graphs."""
from vlib import terms as TT
from vlib.report import UNDERSTOOD, vocab

from .common import *

PS = SN + ".preprocess.sampler"
DRV = '''
import math
import random
import numpy as np
import networkx as nx
from deepgnn.graph_engine.snark.preprocess.sampler.forest_fire import forest_fire
from deepgnn.graph_engine.snark.preprocess.sampler.metric import densification, diameter, largest_connected_component, max_adjacency, average_clustering


# ---- samples
def burn(g, size: "count"):
    return forest_fire(g, size)


def burn_spec(g, size: "count"):
    assert nx.is_directed(g)
    sample = nx.DiGraph()
    everyone = list(g.nodes())
    seen, q = set(), [everyone[random.randint(0, len(everyone) - 1)]]
    while len(sample.nodes()) < size:
        if len(q) == 0:
            q.append(everyone[random.randint(0, len(everyone) - 1)])
            seen.clear()
            continue
        node = q.pop()
        if node in seen:
            continue
        seen.add(node)
        out, into = list(g.successors(node)), list(g.predecessors(node))
        for s in random.sample(out, min(np.random.geometric(0.63), len(out))):
            if len(sample.nodes()) >= size:
                break
            sample.add_edge(node, s)
            q.append(s)
        for p in random.sample(into, min(np.random.geometric(1 - 0.37 * 0.33), len(into))):
            if len(sample.nodes()) >= size:
                break
            sample.add_edge(p, node)
            q.append(p)
    return sample


# ---- statistics
def dense(g):
    return densification(g)


def dense_spec(g):
    n, e = nx.number_of_nodes(g), nx.number_of_edges(g)
    return 0.0 if n <= 1 or e == 0 else math.log(e, n)


def core(g):
    return g.subgraph(max(nx.strongly_connected_components(g), key=len))


def wide(g):
    return diameter(g)


def wide_spec(g):
    return 0 if nx.number_of_nodes(g) == 0 else nx.diameter(core(g))


def share(g):
    return largest_connected_component(g)


def share_spec(g):
    n = nx.number_of_nodes(g)
    return 0.0 if n == 0 else nx.number_of_nodes(core(g)) / n


def peak(g):
    return max_adjacency(g)


def peak_spec(g):
    return 0.0 if nx.number_of_nodes(g) == 0 else max(nx.adjacency_spectrum(g))


def closed(g, trials: "count"):
    return average_clustering(g, trials)


def closed_spec(g, trials: "count"):
    g = nx.to_undirected(g)
    everyone = list(g)
    found = 0
    for i in [random.randrange(len(everyone)) for _ in range(trials)]:
        near = list(g[everyone[i]])
        if len(near) >= 2:
            a, b = random.sample(near, 2)
            if a in g[b]:
                found += 1
    return found / float(trials)
'''
STATS = {"dense": ("densification", "densification"), "wide": ("diameter", "diameter"), "share": ("largest_connected_component", "largest component"), "peak": ("max_adjacency", "largest eigenvalue"), "closed": ("average_clustering", "clustering")}
SAMPLE = mk("inst", "networkx.DiGraph", "the sample")
LOG = "edges"
KNOWN = ("nodes of", "edges of", "nodes", "between", "successors", "predecessors", "geometric", "random.sample")


def drawn(name):
    """A draw; two draws from the same are not told apart."""

    def h(fl, f, b, args, kw, node):
        return mk("call", name, tuple(fl.fz(x) for x in args), tuple(sorted((k, fl.fz(v)) for k, v in kw.items())), NONE)

    return h


def drawn_from(fl, t):
    put_log(fl, "draws", t)
    return t


def hooks():
    def of_graph(name):
        def h(fl, b, args, kw, node):
            return None if fl.fz(b) is SAMPLE else mk("call", name, (fl.fz(b),) + tuple(fl.fz(x) for x in args), (), NONE)

        return h

    def nodes(fl, b, args, kw, node):
        return mk("call", "nodes of", (log_of(fl, LOG),), (), NONE) if fl.fz(b) is SAMPLE else of_graph("nodes")(fl, b, args, kw, node)

    def edges(fl, b, args, kw, node):
        return mk("call", "edges of", (log_of(fl, LOG),), (), NONE) if fl.fz(b) is SAMPLE else None

    def number(fl, b, args, kw, node):
        x = fl.fz(b)
        return seq_len(mk("call", "nodes of", (log_of(fl, LOG),), (), NONE)) if x is SAMPLE or x.op == "attr" and x.args[0] is SAMPLE and x.args[1] == "nodes" else None

    def number_of(fl, f, b, args, kw, node):
        return number(fl, args[0], args[1:], kw, node)

    def size(fl, f, b, args, kw, node):
        return number(fl, args[0], (), {}, node) if len(args) == 1 else None

    def enters(what):
        def h(fl, b, args, kw, node):
            if fl.fz(b) is not SAMPLE:
                return None
            put_log(fl, LOG, what, *[fl.fz(x) for x in args])
            return NONE

        return h

    def made(kind):
        def h(fl, f, b, args, kw, node):
            if args or kw or kind != "DiGraph":
                put_log(fl, LOG, "graph", const(kind), *[fl.fz(x) for x in args])
            return SAMPLE

        return h

    def randint(fl, f, b, args, kw, node):
        a = [fl.fz(x) for x in args]
        return drawn_from(fl, mk("call", "between", (a[0], add(a[1], ONE)), (), NONE)) if len(a) == 2 and not kw else None

    def randrange(fl, f, b, args, kw, node):
        a = [fl.fz(x) for x in args]
        a = [ZERO] + a if len(a) == 1 else a
        return drawn_from(fl, mk("call", "between", tuple(a), (), NONE)) if len(a) == 2 and not kw else None

    def choice(fl, f, b, args, kw, node):
        x = fl.fz(args[0])
        return seq_idx(x, drawn_from(fl, mk("call", "between", (ZERO, seq_len(x)), (), NONE)))

    return {
        **{"networkx." + x: made(x) for x in ("DiGraph", "Graph", "MultiDiGraph", "MultiGraph")}, ".nodes": nodes, ".edges": edges, ".number_of_nodes": number, ".order": number, "networkx.number_of_nodes": number_of, "len": size, ".add_edge": enters("edge"), **{"." + x: enters(x) for x in ("add_node", "add_nodes_from", "add_edges_from", "remove_node", "remove_edge", "clear_edges")},
        "random.sample": drawn("random.sample"), "np.random.geometric": drawn("geometric"), "random.randint": randint, "random.randrange": randrange, "random.choice": choice,
        ".successors": of_graph("successors"), ".predecessors": of_graph("predecessors"),
    }


def one_round(c, m, name):
    """The loop that takes nodes off the work list: where it starts, one round of it, when it ends."""
    fl = new_flow(c, hooks=hooks())
    fl.probes = []
    fl.ret = fl.run(m.funcs[name])
    if name == "burn":
        c.saw(fl)

    def taken(p):
        return [k for k in p["var"] if k[0] == "h" and k[2] == "$c" and contains(p["step"][k], lambda z: z.op == "popped" and contains(z, lambda y: y is p["var"][k]))]

    loops = [p for p in fl.probes if taken(p)]
    if not loops:
        return fl, None
    p = loops[-1]
    keys = {"work": taken(p)[0]}
    for k in p["var"]:
        if k[0] == "h" and k[2] == "$out":
            keys["draws" if contains(k[1], lambda z: z.op == "const" and z.args[-1] == "calls of draws") else "sample"] = k
        elif k[0] == "h" and k[2] == "$c" and k != keys["work"]:
            if "burnt" in keys:
                return fl, None
            keys["burnt"] = k
    left = [v for k, v in p["var"].items() if k not in keys.values() and p["start"][k].op != "undef"]
    if len(taken(p)) != 1 or any(contains(p["step"][k], lambda z: z in left) for k in keys.values()):
        return fl, None
    if len(keys) != 4:
        words = set().union(*(vocab(p["step"][k]) for k in keys.values()))
        return fl, (set(keys), sorted(words - UNDERSTOOD - set(KNOWN) - {"$popped", "$deleted", "$mu", "$obj"}))
    sub_ = {p["var"][k].dig: mk("sym", n) for n, k in keys.items()}
    live = subst(not_(p["stop"]), sub_)
    got = {"start of " + n: p["start"][k] for n, k in keys.items()}
    got["end"] = subst(p["stop"], sub_)
    work, burnt = mk("sym", "work"), mk("sym", "burnt")
    again = mk("in", mk("popped", work, ()), mk("setof", burnt))
    full = seq_len(mk("call", "nodes of", (mk("sym", "sample"),), (), NONE))
    size = mk("sym", "size")
    going = {lt(full, size): TRUE, lt(size, add(full, ONE)): FALSE, TT.le(size, full): FALSE}
    for when, facts in (("no work", {nonempty(work): FALSE}), ("burnt before", {nonempty(work): TRUE, again: TRUE}), ("to burn", {nonempty(work): TRUE, again: FALSE})):
        for n, k in keys.items():
            t = rewrite(subst(p["step"][k], sub_), lambda x: nonempty(work) if x.op == "truthy" and x.args[0] is work else x)
            got[f"{n}, {when}"] = decided(constrain(t, live), {**going, **facts})
    return fl, got


def decided(t, facts):
    """t where these conditions are known."""
    facts = {x.dig: v for x, v in facts.items()}
    for _ in range(6):
        t, old = subst(t, facts), t
        if t is old:
            break
    return t


def burning(c):
    m = source(c, DRV)
    f = c.prog.need_func(PS + ".forest_fire", "forest_fire")
    a, got = one_round(c, m, "burn")
    b, want = one_round(c, m, "burn_spec")
    loc = floc(f)
    c.equal("sample", "refused", rejections(a), rejections(b), loc)
    c.equal("sample", "result", a.ret, b.ret, loc, known=("networkx.DiGraph",))
    if got is None:
        c.undecided("sample", "rounds", "no loop that takes nodes off a work list", loc)
        return
    if isinstance(got, tuple):
        has, words = got
        if words or not {"work", "sample"} <= has:
            c.undecided("sample", "rounds", f"the loop changes {sorted(has)} with {words}", loc)
        else:
            c.violate("sample", "rounds", "nothing is remembered of the nodes that were burned" if "burnt" not in has else "no new node is drawn when a fire dies out", loc)
        return
    for n in want:
        c.equal("sample", n, got[n], want[n], loc, known=KNOWN)


NX = ("weakly_connected_components", "connected_components", "attracting_components", "radius", "eccentricity", "laplacian_spectrum", "normalized_laplacian_spectrum", "modularity_spectrum", "density", "transitivity", "average_clustering", "diameter", "adjacency_spectrum")
VIEW, EDGES, LARGEST = "nodes by name", "edges of graph", "largest of"


def view(t):
    """The graph whose nodes these are."""
    if t.op == "call" and t.args[0] == VIEW:
        return t.args[1][0]
    return t.args[0] if t.op == "attr" and t.args[1] == "nodes" else None


def stat_hooks():
    hs = hooks()
    h = {k: hs[k] for k in ("random.randint", "random.randrange", "random.choice")}

    def pair(fl, f, b, args, kw, node):
        t = hs["random.sample"](fl, f, b, args, kw, node)
        put_log(fl, "pairs", t)
        return t

    def listed(fl, f, b, args, kw, node):
        """The nodes of a graph can be listed; the view of them is asked with a node, not with a position."""
        return view(fl.fz(args[0])) if len(args) == 1 and not kw else None

    def counted(fl, f, b, args, kw, node):
        x = fl.fz(args[0]) if len(args) == 1 and not kw else None
        return None if x is None else size(view(x) if view(x) is not None else x)

    def size(g):
        """Nodes of a graph; of the part of a graph on some nodes, their number."""
        if g.op == "call" and g.args[0] == "part of":
            g = g.args[1][1]
        return seq_len(g)

    def of_graph(fn):
        return {"ext": lambda fl, f, b, args, kw, node: fn(fl.fz(args[0])) if len(args) == 1 and not kw else None, "method": lambda fl, b, args, kw, node: fn(fl.fz(b)) if not args and not kw else None}

    def largest(fl, f, b, args, kw, node):
        key = fl.fz(kw["key"]) if set(kw) == {"key"} and len(args) == 1 else None
        if key is None:
            return None
        by_len = key is mk("ext", "len") or key.op == "lambda" and key.args[-1].op == "len" and key.args[-1].args[0].op == "lamv"
        return mk("call", LARGEST, (fl.fz(args[0]),), (), NONE) if by_len else None

    nodes, edges, both = of_graph(size), of_graph(lambda g: seq_len(mk("call", EDGES, (g,), (), NONE))), of_graph(lambda g: mk("call", "networkx.to_undirected", (g,), (), NONE))
    h.update({
        "networkx.number_of_nodes": nodes["ext"], ".number_of_nodes": nodes["method"], ".order": nodes["method"], "len": counted,
        "networkx.number_of_edges": edges["ext"], ".number_of_edges": edges["method"], ".size": edges["method"],
        "networkx.to_undirected": both["ext"], ".to_undirected": both["method"],
        "random.sample": pair, "list": listed, "tuple": listed, "max": largest,
        ".nodes": lambda fl, b, args, kw, node: mk("call", VIEW, (fl.fz(b),), (), NONE) if not args and not kw else None,
        ".subgraph": lambda fl, b, args, kw, node: mk("call", "part of", (fl.fz(b), fl.fz(args[0])), (), NONE),
        "networkx.subgraph": lambda fl, f, b, args, kw, node: mk("call", "part of", (fl.fz(args[0]), fl.fz(args[1])), (), NONE),
        ".neighbors": lambda fl, b, args, kw, node: mk("idx", fl.fz(b), fl.fz(args[0])),
        ".has_edge": lambda fl, b, args, kw, node: mk("in", fl.fz(args[1]), mk("idx", fl.fz(b), fl.fz(args[0]))),
        "float": lambda fl, f, b, args, kw, node: fl.fz(args[0]),
        "math.log": lambda fl, f, b, args, kw, node: TT.truediv(*[mk("call", "math.log", (fl.fz(x),), (), NONE) for x in args]) if len(args) == 2 else None,
    })
    return h


def plain(t):
    """Two ways to say the same of graphs."""

    def f(x):
        if x.op == "in" and x.args[1].op == "idx" and contains(x.args[1].args[0], lambda z: z.op == "call" and z.args[0] == "networkx.to_undirected"):
            g, a, b = x.args[1].args[0], x.args[0], x.args[1].args[1]
            if b.dig < a.dig:
                return mk("in", b, mk("idx", g, a))
        if x.op == "maxover" and x.args[0].op == "len" and x.args[2].op == "len" and x.args[2].args[0].op == "idx" and x.args[2].args[0].args[0] is x.args[0].args[0]:
            return seq_len(mk("call", LARGEST, (x.args[0].args[0],), (), NONE))
        return x

    return rewrite(t, f)


def statistic(c, name):
    m = source(c, DRV)
    f, what = STATS[name]
    a, b = (run_driver(c, m, n, hooks=stat_hooks()) for n in (name, name + "_spec"))
    loc, known = floc(c.prog.need_func(PS + ".metric", f)), (VIEW, EDGES, LARGEST, "part of", "between", "random.sample", "math.log", "networkx.to_undirected") + tuple("networkx." + x for x in NX)
    c.equal("statistic", what, plain(a.ret), plain(b.ret), loc, known=known)
    if name == "closed":
        for k in ("draws", "pairs"):
            c.equal("statistic", f"{what}, {k}", log_of(a, k), log_of(b, k), loc, known=known)


def run(c):
    c.rule("sample", "start, one round and end of the loop that burns a graph")
    c.clause("sample", "forest fire", burning)
    c.rule("statistic", "value of a statistic of a graph")
    for n in STATS:
        c.clause("statistic", STATS[n][1], statistic, n)
    c.floor("sample", 8)
    c.floor("statistic", 5)
