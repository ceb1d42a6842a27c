"""Queries built from several requests: hops, neighbourhoods, out edges, sub-graphs, skip-grams."""
from vlib import terms as TT
from vlib.nd import fresh, gaps, positive, tables

from .common import *

OPS = GE + ".graph_ops"
HOP = GE + ".multihop"
DRV = '''
import numpy as np
from deepgnn.graph_engine._base import Graph
from deepgnn.graph_engine.multihop import sample_fanout, get_neighbor
from deepgnn.graph_engine.graph_ops import sample_out_edges, get_skipgrams_size, gen_skipgrams, sub_graph


# ---- sampled hops
def hops(graph: Graph, nodes, metapath: "list", fanouts: "list", default, strategy):
    return sample_fanout(graph, nodes, metapath, fanouts, default, strategy)


def hops_spec(graph: Graph, nodes, metapath: "list", fanouts: "list", default, strategy):
    here = nodes.reshape(-1)
    found, weights, types = [here], [], []
    for t, n in zip(metapath, fanouts):
        answer = graph.sample_neighbors(here, np.array(t, dtype=np.int32), n, strategy, default)
        here = answer[0].reshape(-1)
        found.append(here)
        weights.append(answer[1].reshape(-1))
        types.append(answer[2].reshape(-1))
    return found, weights, types


def hops_plain(graph: Graph, nodes, metapath: "list", fanouts: "list", default):
    return sample_fanout(graph, nodes, metapath, fanouts, default)


def hops_plain_spec(graph: Graph, nodes, metapath: "list", fanouts: "list", default):
    return hops_spec(graph, nodes, metapath, fanouts, default, "byweight")


# ---- all neighbours, hop by hop
def around(graph: Graph, nodes, types: "list", most: "count"):
    return get_neighbor(graph, nodes, types, most)


def around_spec(graph: Graph, nodes, types: "list", most: "count"):
    here = nodes.reshape(-1)
    room = len(here)
    layers, links = [[here, np.array([len(here)])]], []
    for t in types:
        if len(here) == 0:
            found, weights, origin = [], [], []
        else:
            found, weights, _, counts = graph.neighbors(here, t)
            origin = np.repeat(np.arange(len(here)), counts)
        there, at = np.unique(found, return_inverse=True)
        room = room * most
        if len(origin) > room:
            raise UserWarning()
        links.append([
            np.pad(np.stack([origin, at], 1), ((0, room - len(origin)), (0, 0))),
            np.pad(weights, (0, room - len(origin))),
            [len(here), len(there)],
            [len(origin)],
        ])
        layers.append([np.pad(there, (0, room - len(there))), [len(there)]])
        here = there
    return layers, links


# ---- sampled out edges
def out(graph: Graph, nodes, types, count: "count", strategy, meta, kind):
    return sample_out_edges(graph, nodes, types, count, strategy, meta, kind)


def out_spec(graph: Graph, nodes, types, count: "count", strategy, meta, kind):
    answer = graph.sample_neighbors(nodes, types, count, strategy)
    edges = np.stack([np.repeat(nodes, count), answer[0].reshape(-1), answer[2].reshape(-1)], 1)
    if meta is None:
        return edges, None
    return edges, graph.edge_features(edges, meta, kind)


def out_plain(graph: Graph, nodes, types, count: "count", meta):
    return sample_out_edges(graph, nodes, types, count, edge_feature_meta=meta)


def out_plain_spec(graph: Graph, nodes, types, count: "count", meta):
    return out_spec(graph, nodes, types, count, "byweight", meta, np.dtype(np.float32))


# ---- sub-graphs
def part(graph: Graph, nodes, types, hops, loop, both, pairs):
    return sub_graph(graph, nodes, types, hops, loop, both, pairs)


def part_spec(graph: Graph, nodes, types, hops, loop, both, pairs):
    reached, edge = [nodes], nodes
    for _ in range(hops - 1):
        edge = np.unique(graph.neighbors(edge, types)[0])
        reached.append(edge)
    inner = np.unique(np.concatenate(reached))
    answer = graph.neighbors(inner, types)
    origin = np.repeat(inner, answer[3])
    everyone, at = np.unique(np.concatenate([nodes, origin, answer[0]]), return_inverse=True)
    seeds, a, b = at[:len(nodes)], at[len(nodes):len(nodes) + len(origin)], at[len(nodes) + len(origin):]
    n = len(everyone)
    if pairs:
        links = np.stack([a, b], 1)
        if both:
            links = np.concatenate([links, np.stack([b, a], 1)])
        if loop:
            links = np.concatenate([links, np.stack([np.arange(n), np.arange(n)], 1)])
        if loop or both:
            links = np.unique(links, axis=0)
        return everyone, links, seeds
    matrix = np.zeros((n, n), dtype=np.float32)
    matrix[a, b] = 1
    if both:
        matrix[b, a] = 1
    if loop:
        matrix = matrix + np.eye(n)
    return everyone, matrix, seeds


def part_plain(graph: Graph, nodes, types):
    return sub_graph(graph, nodes, types)


def part_plain_spec(graph: Graph, nodes, types):
    return part_spec(graph, nodes, types, 1, True, True, False)


# ---- skip-grams
def size(n: "count", left: "count", right: "count"):
    return get_skipgrams_size(n, left, right)


def size_spec(n: "count", left: "count", right: "count"):
    assert n > 0
    total = 0
    for i in range(n):
        total += min(i, left) + min(n - 1 - i, right)
    return total


def grams(paths, left: "count", right: "count"):
    return gen_skipgrams(paths, left, right)


def grams_spec(paths, left: "count", right: "count"):
    n = paths.shape[1]
    rows = []
    for i in range(paths.shape[0]):
        for j in range(n):
            for k in range(max(0, j - left), min(n - 1, j + right) + 1):
                if k != j:
                    rows.append([paths[i][j], paths[i][k]])
    return np.array(rows)
'''


def answered(t):
    return t.op == "idx" and t.args[0].op == "call" and str(t.args[0].args[0]).endswith("Graph.neighbors") and is_num_const(t.args[1])


def asked(t):
    return dict(t.args[0].args[2]).get("nodes")


def sizes(t):
    """One count for each node asked about; as many neighbours, weights and types as the counts say."""
    if answered(t):
        nodes = asked(t)
        if nodes is not None and cval(t.args[1]) == 3:
            return seq_len(nodes)
        if nodes is not None and cval(t.args[1]) in (0, 1, 2):
            counts = mk("idx", t.args[0], const(3))
            h = fresh(counts, nodes)
            return mk_psum(seq_len(nodes), h, mk("idx", counts, bv(h)))
    return None


def number(t):
    if t.op == "idx" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
        return True
    if t.op == "fold":
        before = mk("sym", "$before")
        TT.COUNTS.add(before.dig)
        return never_negative(t.args[3]) and never_negative(subst(t.args[2], {mk("acc", t.args[1]).dig: before}))
    return t.op == "idx" and answered(t.args[0]) and cval(t.args[0].args[1]) == 3


def plain(t):
    t = tables(t)
    if contains(t, lambda x: x.op in ("min", "max")):
        t = tables(gaps(gaps(positive(t))))
    return t


def agree(c, D, rule, name, loc):
    k = dict(extern=lambda q: "_base.Graph." in q, pure=lambda q: q.endswith("Graph.neighbors"))
    got, want = run_driver(c, D, name, **k), run_driver(c, D, name + "_spec", **k)
    a, b = plain(got.ret), plain(want.ret)
    c.equal(rule, name, a, b, loc, known=("unique",) if name.startswith("hops") else ())
    more = sorted(parts(a) - parts(b))
    c.expect(not more, "parts", name, f"part {more} of an answer is taken, where another part is asked for", loc)


def parts(t):
    """Which parts of the answers of a graph go into a result."""
    return {cval(x.args[1]) for x in subterms(t) if x.op == "idx" and is_num_const(x.args[1]) and x.args[0].op == "call" and ".Graph." in str(x.args[0].args[0])}


def refused(c, D, name, loc):
    k = dict(extern=lambda q: "_base.Graph." in q, pure=lambda q: q.endswith("Graph.neighbors"))
    got, want = run_driver(c, D, name, **k), run_driver(c, D, name + "_spec", **k)
    c.equal("refused", name, plain(rejections(got)), plain(rejections(want)), loc)


def run(c):
    D = source(c, DRV)
    TT.LEN_RULES[:] = [sizes]
    TT.COUNT_RULES[:] = [number]
    f = c.prog.need_func
    c.rule("parts", "no other part of an answer goes into a result")
    for name, fn in (("hops", f(HOP, "sample_fanout")), ("around", f(HOP, "get_neighbor")), ("out", f(OPS, "sample_out_edges")), ("part", f(OPS, "sub_graph")), ("size", f(OPS, "get_skipgrams_size")), ("grams", f(OPS, "gen_skipgrams"))):
        c.rule("query", "what is asked hop by hop and how the answers are put together")
        c.clause("query", name, agree, D, "query", name, floc(fn))
        if name + "_plain" in D.funcs:
            c.clause("query", name + " plain", agree, D, "query", name + "_plain", floc(fn))
    c.rule("omitted", "what leaving an option out means")
    defaults(c, "omitted", f(HOP, "sample_fanout"), dict(sampling_strategy="byweight"))
    defaults(c, "omitted", f(OPS, "sample_out_edges"), dict(sampling_strategy="byweight", edge_feature_meta=None))
    defaults(c, "omitted", f(OPS, "sub_graph"), dict(num_hops=1, self_loop=True, undirected=True, return_edges=False))
    c.floor("omitted", 7)
    c.rule("refused", "when there is no room for the neighbours of a hop")
    c.clause("refused", "around", refused, D, "around", floc(f(HOP, "get_neighbor")))
    c.clause("refused", "size", refused, D, "size", floc(f(OPS, "get_skipgrams_size")))
    c.floor("query", 9)
    c.floor("parts", 9)
    c.floor("refused", 2)
