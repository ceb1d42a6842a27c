"""Graph clients: what each request asks of the graph behind the client, and what is handed back."""
from vlib.canon import arrays as canon

from .common import *

CL = SN + ".client"
DRV = '''
import random
import numpy as np
from deepgnn.graph_engine._base import SamplingStrategy
from deepgnn.graph_engine.snark.client import MemoryGraph, DistributedGraph, NodeSampler, EdgeSampler, PartitionStorageType
from deepgnn.graph_engine.snark.local import Client
from deepgnn.graph_engine.snark.distributed import Client as Remote

KINDS = {
    SamplingStrategy.Weighted: "weighted",
    SamplingStrategy.Random: "uniform",
    SamplingStrategy.RandomWithoutReplacement: "withoutreplacement",
    SamplingStrategy.TopK: "topk",
    SamplingStrategy.PPRGo: "ppr-go",
    SamplingStrategy.LastN: "lastn",
}


def anything():
    pass


def listed(types):
    if type(types) == int:
        return [types]
    assert isinstance(types, np.ndarray)
    return types.flatten().tolist()


def graph():
    return MemoryGraph("g", [("g", 0)], PartitionStorageType.memory, "", False)


def client():
    return Client("g", [0], PartitionStorageType.memory, "", False)


# ---- opening
def open_local(path, partitions, storage, config, stream):
    Client(path, partitions, storage, config, stream)


def open_local_spec(path, partitions, storage, config, stream):
    if len(partitions) == 0:
        partitions = [0]
    MemoryGraph(path, [(path, p) for p in partitions], storage, config, stream)


def open_local_plain(path, partitions):
    Client(path, partitions)


def open_local_plain_spec(path, partitions):
    open_local_spec(path, partitions, PartitionStorageType.memory, "", False)


def open_remote(servers, cert, options, threads, queues):
    Remote(servers, cert, options, threads, queues)


def open_remote_spec(servers, cert, options, threads, queues):
    if isinstance(servers, str):
        servers = [servers]
    DistributedGraph(servers, cert, grpc_options=options, num_threads=threads, num_cq_per_thread=queues)


def open_remote_plain(servers):
    Remote(servers)


def open_remote_plain_spec(servers):
    open_remote_spec(servers, None, None, None, None)


def copied(servers, cert, options, threads, queues):
    make, args = Remote(servers, cert, options, threads, queues).__reduce__()
    make(*args)


def copied_spec(servers, cert, options, threads, queues):
    if isinstance(servers, str):
        servers = [servers]
    DistributedGraph(servers, cert, grpc_options=options, num_threads=threads, num_cq_per_thread=queues)
    DistributedGraph(servers, cert, grpc_options=options, num_threads=threads, num_cq_per_thread=queues)


# ---- samplers
def nodes(size, types, strategy):
    return client().sample_nodes(size, types, strategy)


def nodes_spec(size, types, strategy):
    g = graph()
    assert size > 0
    s = NodeSampler(g, listed(types), KINDS[strategy])
    found, kinds = s.sample(size, random.getrandbits(64))
    if type(types) == int:
        return found
    return found, kinds


def edges(size, types, strategy):
    return client().sample_edges(size, types, strategy)


def edges_spec(size, types, strategy):
    g = graph()
    assert size > 0
    s = EdgeSampler(g, listed(types), KINDS[strategy])
    src, dst, tp = s.sample(size, random.getrandbits(64))
    return np.stack([src, dst, tp], axis=1)


def twice(kind):
    c = client()
    STEPS
    return a, b


# ---- neighbours
def pick(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    return client().sample_neighbors(nodes, types, count, HOW, default_node, default_weight, default_edge_type, alpha, eps, times, created)


def pick_plain(nodes, types):
    return client().sample_neighbors(nodes, types, strategy=HOW)


def byweight(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    r = graph().weighted_sample_neighbors(
        nodes, listed(types), count, default_node, default_weight, default_edge_type,
        seed=int(random.getrandbits(64)), timestamps=times, return_edge_created_ts=created,
    )
    if created:
        return r
    return r[0], r[1], r[2], np.full(r[0].shape, -1, dtype=np.int64)


def random_(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    return uniform(False, nodes, types, count, default_node, default_edge_type, times, created)


def randomwithoutreplacement(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    return uniform(True, nodes, types, count, default_node, default_edge_type, times, created)


def uniform(once, nodes, types, count, default_node, default_edge_type, times, created):
    r = graph().uniform_sample_neighbors(
        once, nodes, listed(types), count, default_node, default_edge_type,
        seed=int(random.getrandbits(64)), timestamps=times, return_edge_created_ts=created,
    )
    return r[0], anything(), r[1], r[2] if created else np.full(r[0].shape, -1, dtype=np.int64)


def room(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    r = uniform(ONCE, nodes, types, count, default_node, default_edge_type, times, created)
    return np.empty(r[0].shape, dtype=np.float32)


def ppr_go(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    r = graph().ppr_neighbors(nodes, listed(types), count, alpha, eps, default_node, default_weight, timestamps=times)
    return r[0], r[1], np.empty(0, dtype=np.int32), np.full(r[0].shape, -1, dtype=np.int64)


def lastn(nodes, types, count, default_node, default_weight, default_edge_type, alpha, eps, times, created):
    return graph().lastn_neighbors(
        nodes, listed(types), timestamps=times, count=count, default_node=default_node, default_weight=default_weight,
        default_edge_type=default_edge_type, return_edge_created_ts=created,
    )


def plain(nodes, types):
    return SPEC(nodes, types, 10, -1, 0.0, -1, 0.5, 0.0001, None, False)


# ---- other requests
def walk(nodes, path, steps, p, q, default_node, times):
    return client().random_walk(nodes, path, steps, p, q, default_node, times)


def walk_spec(nodes, path, steps, p, q, default_node, times):
    return graph().random_walk(nodes, listed(path), steps, p, q, default_node, seed=random.getrandbits(64), timestamps=times)


def walk_plain(nodes, path, steps, p, q):
    return client().random_walk(nodes, path, steps, p, q)


def walk_plain_spec(nodes, path, steps, p, q):
    return walk_spec(nodes, path, steps, p, q, -1, None)


def neighbors(nodes, types, times, created):
    return client().neighbors(nodes, types, times, created)


def neighbors_spec(nodes, types, times, created):
    return graph().neighbors(nodes, listed(types), timestamps=times, return_edge_created_ts=created)


def neighbors_plain(nodes, types):
    return client().neighbors(nodes, types)


def neighbors_plain_spec(nodes, types):
    return neighbors_spec(nodes, types, None, False)


def degrees(nodes, types, times):
    return client().neighbor_count(nodes, types, times)


def degrees_spec(nodes, types, times):
    return graph().neighbor_counts(nodes, listed(types), timestamps=times)


def degrees_plain(nodes, types):
    return client().neighbor_count(nodes, types)


def degrees_plain_spec(nodes, types):
    return degrees_spec(nodes, types, None)


def kinds(nodes):
    return client().node_types(nodes)


def kinds_spec(nodes):
    return graph().node_types(nodes, -1)


def features(nodes, features, dtype, times):
    return client().node_features(nodes, features, dtype, times)


def features_spec(nodes, features, dtype, times):
    assert len(features.shape) == 2
    assert features.shape[-1] == 2
    return graph().node_features(nodes, features, dtype, timestamps=times)


def features_plain(nodes, features, dtype):
    return client().node_features(nodes, features, dtype)


def features_plain_spec(nodes, features, dtype):
    return features_spec(nodes, features, dtype, None)


def edge_features(edges, features, dtype, times):
    return client().edge_features(edges, features, dtype, times)


def edge_features_spec(edges, features, dtype, times):
    edges = np.array(edges, dtype=np.int64)
    features = np.array(features, dtype=np.int32)
    assert len(features.shape) == 2
    assert features.shape[-1] == 2
    return graph().edge_features(np.copy(edges[:, 0]), np.copy(edges[:, 1]), np.copy(edges[:, 2]), features, dtype, timestamps=times)


def edge_features_plain(edges, features, dtype):
    return client().edge_features(edges, features, dtype)


def edge_features_plain_spec(edges, features, dtype):
    return edge_features_spec(edges, features, dtype, None)


def node_total(types):
    return client().node_count(types)


def node_total_spec(types):
    return graph().get_node_type_count([types] if isinstance(types, int) else types.tolist())


def edge_total(types):
    return client().edge_count(types)


def edge_total_spec(types):
    return graph().get_edge_type_count([types] if isinstance(types, int) else types.tolist())


# ---- closing
def close():
    c = client()
    c.sample_nodes(5, 0, SamplingStrategy.Weighted)
    c.sample_nodes(5, 1, SamplingStrategy.Weighted)
    c.sample_edges(5, 0, SamplingStrategy.Weighted)
    c.reset()
'''

REQUESTS = {
    "nodes": "sample nodes", "edges": "sample edges", "walk": "random walk", "neighbors": "all neighbours", "degrees": "neighbour counts",
    "kinds": "node types", "features": "node features", "edge_features": "edge features", "node_total": "node count", "edge_total": "edge count",
}
METHOD = {
    "nodes": "sample_nodes", "edges": "sample_edges", "walk": "random_walk", "degrees": "neighbor_count", "kinds": "node_types", "features": "node_features",
    "node_total": "node_count", "edge_total": "edge_count",
}
PARTS = {"weighted_sample_neighbors": 3, "uniform_sample_neighbors": 2, "ppr_neighbors": 2}  # arrays in an answer, without creation times
STRATEGIES = {"byweight": "byweight", "random_": "random", "randomwithoutreplacement": "randomwithoutreplacement", "ppr_go": "ppr-go", "lastn": "lastn"}


GRAPHS = ("MemoryGraph", "DistributedGraph")


def hooks_for(c):
    hooks = {}

    def opened(name):
        k = c.prog.need_class(CL, name)

        def h(fl, cls, b, args, kw, node):
            fa = tuple(fl.fz(a) for a in args)
            pa, pk = fl.norm_args(k.find("__init__"), fa, tuple(sorted((x, fl.fz(v)) for x, v in kw.items())), True)
            put_log(fl, "graph", "open " + name, *(pa + tuple(mk("arg", n, v) for n, v in pk)))
            t = mk("call", name, (), (), NONE)
            fl.CLS[t.dig] = k
            return t

        return h

    def sampler(name):
        k = c.prog.need_class(CL, name)

        def h(fl, cls, b, args, kw, node):
            fa = tuple(fl.fz(a) for a in args)
            pa, pk = fl.norm_args(k.find("__init__"), fa, tuple(sorted((x, fl.fz(v)) for x, v in kw.items())), True)
            t = mk("call", name, pa, pk, NONE)
            fl.CLS[t.dig] = k
            put_log(fl, "samplers", "made", t)
            return t

        return h

    def method(name, f, what):
        def h(fl, fn, b, args, kw, node):
            fa = tuple(fl.fz(a) for a in args)
            pa, pk = fl.norm_args(f, fa, tuple(sorted((x, fl.fz(v)) for x, v in kw.items())), True)
            put_log(fl, "graph", name, fl.fz(b), *(pa + tuple(mk("arg", n, v) for n, v in pk)))
            fl.emit("call", "graph." + name, pa, pk, b, NONE, node)
            if what == "reset":
                return NONE
            r = mk("call", name, (fl.fz(b),) + pa, pk, NONE)
            n = PARTS.get(what, {"sample": 2 if f.cls.name == "NodeSampler" else 3}.get(what))
            if n is None:
                return r
            more = [v for k, v in pk if k == "return_edge_created_ts"]
            few, many = (mk("tuple", *[mk("idx", r, const(i)) for i in range(k)]) for k in (n, n + 1))
            return ite(fl.truth(more[0]), many, few) if more else few

        return h

    for n in ("MemoryGraph", "DistributedGraph"):
        hooks["new:" + n] = opened(n)
    for n in ("NodeSampler", "EdgeSampler"):
        hooks["new:" + n] = sampler(n)
    for n in ("MemoryGraph", "NodeSampler", "EdgeSampler"):
        k = c.prog.need_class(CL, n)
        for name, f in k.methods.items():
            if not name.startswith("_"):
                hooks[f.qual] = method(name, f, name)
    return hooks


def both(c, text, a, b):
    m = source(c, text)
    h = hooks_for(c)
    return run_driver(c, m, a, hooks=h), run_driver(c, m, b, hooks=h)


def where(c, name):
    k = c.prog.need_class(SN + ".local", "Client")
    f = k.find(name)
    return floc(f or k.find("__init__"))


def compare(c, what, a, b, loc):
    known = ("np.empty", "np.zeros", "np.ones", "np.full", "np.unique", "np.sort", "random.SystemRandom", ".getrandbits")
    c.equal("asked", what, canon(log_of(a, "graph")), canon(log_of(b, "graph")), loc, known=known)
    c.equal("answer", what, canon(a.ret), canon(b.ret), loc, known=known)
    c.equal("refused", what, canon(rejections(a)), canon(rejections(b)), loc, known=GRAPHS)


def remote(text):
    """The same requests made of a client of servers."""
    text = text.replace('return MemoryGraph("g", [("g", 0)], PartitionStorageType.memory, "", False)', 'return DistributedGraph(["h"])')
    return text.replace('return Client("g", [0], PartitionStorageType.memory, "", False)', 'return Remote(["h"])')


def request(c, name):
    a, b = both(c, remote(DRV), name, name + "_spec")
    compare(c, "remote " + REQUESTS[name], a, b, where(c, METHOD.get(name, name)))
    for sub_, extra in (("", ""), ("_plain", " by default")):
        if sub_ and "def " + name + "_plain(" not in DRV:
            continue
        a, b = both(c, DRV, name + sub_, name + sub_ + "_spec")
        compare(c, REQUESTS[name] + extra, a, b, where(c, METHOD.get(name, name)))


def as_room(t):
    """What an array is filled with left open."""
    if t.op == "call" and t.args[0] in ("np.zeros", "np.ones", "np.full") and t.args[1]:
        return mk("call", "np.empty", t.args[1][:1], tuple((k, v) for k, v in t.args[2] if k != "fill_value"), t.args[3])
    return t


def neighbours(c, name, how):
    text = DRV.replace("HOW", repr(how)).replace("SPEC", name)
    for got, want, extra in (("pick", name, ""), ("pick_plain", "plain", " by default")):
        a, b = both(c, text, got, want)
        compare(c, f"neighbours {how}{extra}", a, b, where(c, "sample_neighbors"))
    a, b = both(c, remote(text), "pick", name)
    compare(c, f"remote neighbours {how}", a, b, where(c, "sample_neighbors"))
    if how.startswith("random"):
        a, b = both(c, text.replace("ONCE", str(how != "random")), "pick", "room")
        c.equal("answer", f"room for weights {how}", canon(as_room(seq_idx(a.ret, ONE))), canon(b.ret), where(c, "sample_neighbors"), known=("np.zeros", "np.ones", "np.full"))
    if how == "byweight":
        for unknown in ("no such strategy", "random2", "byweight2", "ppr-go2", "lastn2"):
            m = source(c, DRV.replace("HOW", repr(unknown)))
            a = run_driver(c, m, "pick", hooks=hooks_for(c))
            c.equal("refused", "unknown strategy " + unknown, rejections(a), TRUE, where(c, "sample_neighbors"), known=GRAPHS)
        a, b = both(c, DRV.replace(", strategy=HOW", "").replace("SPEC", name), "pick_plain", "plain")
        compare(c, "neighbours without a strategy", a, b, where(c, "sample_neighbors"))


def opened(c):
    for n, what in (("open_local", "local graph"), ("open_remote", "remote graph")):
        for sub_, extra in (("", ""), ("_plain", " by default")):
            a, b = both(c, DRV, n + sub_, n + sub_ + "_spec")
            c.equal("opened", what + extra, log_of(a, "graph"), log_of(b, "graph"), where(c, "__init__"), known=(".split", ".strip"))
    a, b = both(c, DRV, "copied", "copied_spec")
    c.equal("opened", "copy in another process", log_of(a, "graph"), log_of(b, "graph"), where(c, "__init__"), known=(".split", ".strip"))


STEP = {
    "other strategy": ("0, SamplingStrategy.Weighted", "0, SamplingStrategy.Random"),
    "other type": ("0, SamplingStrategy.Weighted", "1, SamplingStrategy.Weighted"),
    "type spelled in another": ("1, SamplingStrategy.Weighted", "11, SamplingStrategy.Weighted"),
    "without replacement after weighted": ("0, SamplingStrategy.Weighted", "0, SamplingStrategy.RandomWithoutReplacement"),
    "without replacement after uniform": ("0, SamplingStrategy.Random", "0, SamplingStrategy.RandomWithoutReplacement"),
    "types of the same sum": ("np.array([0, 3]), SamplingStrategy.Weighted", "np.array([1, 2]), SamplingStrategy.Weighted"),
    "types of the same digits": ("np.array([1, 12]), SamplingStrategy.Weighted", "np.array([11, 2]), SamplingStrategy.Weighted"),
    "types of the same ends": ("np.array([0, 2]), SamplingStrategy.Weighted", "np.array([0, 1, 2]), SamplingStrategy.Weighted"),
    "list of types": ("np.array([0, 1]), SamplingStrategy.Weighted", "np.array([0, 2]), SamplingStrategy.Weighted"),
    "after the other kind": None,
    "again": ("3, SamplingStrategy.TopK", "3, SamplingStrategy.TopK"),
}


def reused(c, kind_, what):
    """Of two successive requests each is answered by a sampler of its own types and strategy."""
    for label, pq in STEP.items():
        p, q = pq or STEP["again"]
        other = kind_ if pq else "edges" if kind_ == "nodes" else "nodes"
        steps = f"a = c.sample_{other}(5, {p})\n    b = c.sample_{kind_}(6, {q})"
        m = source(c, DRV.replace("STEPS", steps))
        h = hooks_for(c)
        a = run_driver(c, m, "twice", hooks=h)
        log = same_text(log_of(a, "graph"))
        s1, s2 = (kept(log, n) for n in (5, 6))
        loc = where(c, "sample_" + kind_)
        j, k = ("NodeSampler" if x == "nodes" else "EdgeSampler" for x in (other, kind_))
        spec = source(c, DRV + f"\n\ndef want(kind):\n    graph()\n    return samplers(({p},), ({q},))\n\n\ndef samplers(a, b):\n"
                      f"    return {j}(graph(), listed(a[0]), KINDS[a[1]]), {k}(graph(), listed(b[0]), KINDS[b[1]])\n")
        w = run_driver(c, spec, "want", hooks=h)
        c.equal("reused", f"{what} {label}", mk("tuple", s1, s2), w.ret, loc)
        if label == "again":
            c.equal("reused", f"{what} made once", same_text(log_of(a, "samplers")), mk("list", mk("entry", "made", w.ret.args[0])), loc)


def made(t):
    return t.op == "call" and t.args[0] in ("NodeSampler", "EdgeSampler", "MemoryGraph", "DistributedGraph")


def same_text(log):
    """Text made of a whole array leaves out the middle of a long one: two such texts may be equal."""

    def whole(t):
        return any(x.op == "call" and x.args[0] in ("np.array", "np.asarray") for x in (t.args if t.op == "fmt" else (t,)))

    log = rewrite(log, lambda x: const(x.op == "truthy") if x.op in ("isnone", "truthy") and made(x.args[0]) else x)
    return rewrite(log, lambda x: TRUE if x.op == "eq" and all(isinstance(t, T) and whole(t) for t in x.args) else x)


def kept(log, size):
    """The sampler that answered the request for size elements."""
    for e in (log.args if log.op == "list" else [x for p in log.args if p.op == "list" for x in p.args]):
        if e.op == "entry" and e.args[0] == "sample" and any(a.op == "arg" and a.args[0] == "size" and a.args[1] is const(size) for a in e.args[2:]):
            return e.args[1]
    return mk("list") if log.op == "list" else mk("opaque", "sampler", str(size), "")


def closed(c):
    m = source(c, DRV)
    a = run_driver(c, m, "close", hooks=hooks_for(c))
    log = log_of(a, "graph")
    done = [e.args[1] for p in (log.args if log.op == "list" else ()) if p.op == "entry" and p.args[0] == "reset" for e in (p,)]
    used = [p.args[1] for p in (log.args if log.op == "list" else ()) if p.op == "entry" and p.args[0] == "sample"]
    loc = where(c, "reset")
    if log.op != "list" or len(used) != 3:
        c.undecided("closed", "client", "requests not recognised: " + show(log)[:300], loc)
        return
    c.expect(any(x.args[0] == "MemoryGraph" for x in done), "closed", "graph", "the graph is not released", loc)
    for i, s in enumerate(used):
        c.expect(s in done, "closed", f"sampler {i}", "a sampler is not released: " + show(s), loc)


def run(c):
    c.prog.need_class(SN + ".local", "Client")
    c.prog.need_class(SN + ".distributed", "Client")
    c.rule("opened", "partitions, places, servers, certificate and options handed to the graph on opening a client")
    c.rule("asked", "the request made of the graph and every argument of it")
    c.rule("answer", "what the client returns of the graph's answer, and in which order")
    c.rule("refused", "the conditions under which a request is refused")
    c.rule("reused", "the sampler that answers a request was made for its types and strategy")
    c.rule("closed", "closing releases the graph and every sampler that was used")
    c.clause("opened", "client", opened)
    for n in REQUESTS:
        c.clause("asked", REQUESTS[n], request, n)
    for n, how in STRATEGIES.items():
        c.clause("asked", "neighbours " + how, neighbours, n, how)
    c.clause("reused", "node samplers", reused, "nodes", "node samplers")
    c.clause("reused", "edge samplers", reused, "edges", "edge samplers")
    c.clause("closed", "client", closed)
    c.floor("opened", 5)
    c.floor("asked", 20)
    c.floor("answer", 22)
    c.floor("refused", 25)
    c.floor("reused", 24)
    c.floor("closed", 4)
