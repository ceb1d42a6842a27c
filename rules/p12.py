"""Graph queries: what is handed to the native library and what comes back."""
from .common import *
from .native import *

CL = SN + ".client"
DRV = '''
import ctypes
import json
import os
import platform
import random
import tempfile
from datetime import datetime
import numpy as np
from tenacity import Retrying, stop_after_attempt, wait_exponential
from deepgnn.graph_engine.snark.client import MemoryGraph, DistributedGraph, NodeSampler, EdgeSampler, PartitionStorageType
from deepgnn.graph_engine.snark._downloader import download_graph_data, GraphPath
from deepgnn.graph_engine.snark.meta import Meta


def anything():
    pass


def send(name, *args):
    pass


def ptr(x, t):
    pass


def times(ts):
    if ts is None or len(ts) == 0:
        return None
    return ptr(np.array(ts, dtype=np.int64), "c_int64")


def ids(x):
    return np.array(x, dtype=np.int64)


def kinds(x):
    return np.array(x, dtype=np.int32)


def chosen(types):
    if isinstance(types, int):
        types = [types]
    return sorted(set(types))


def listed(types):
    return (ctypes.c_int32 * len(types))(*types)


def ok(status):
    if status != 0:
        raise Exception()


def drawn(seed):
    if seed is None:
        return random.getrandbits(64)
    return seed


# ---- opening a graph
class TempDir:
    def __init__(self, *args, **kw):
        self.name = fresh_dir()

    def __enter__(self):
        return self.name

    def __exit__(self, a, b, c):
        self.cleanup()

    def cleanup(self):
        removed(self.name)


def fresh_dir():
    pass


def removed(name):
    pass


def open_local(path, parts, storage, config, stream):
    return MemoryGraph(path, parts, storage, config, stream).meta


def open_local_plain(path):
    return MemoryGraph(path).meta


def open_local_spec(path, parts, storage, config, stream):
    if storage == PartitionStorageType.disk and stream:
        raise ValueError()
    if parts is None:
        parts = [(path, 0)]
    located = []
    for p in parts:
        if isinstance(p, int):
            located.append((path, p))
        else:
            assert len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], int)
            located.append((p[0], p[1]))
    place = GraphPath(path) if stream else download_graph_data(path, located)
    meta = Meta(place.name, config)
    numbers = (ctypes.c_uint32 * len(located))()
    for i in range(len(located)):
        numbers[i] = located[i][1]
    places = (ctypes.c_char_p * len(located))()
    for i in range(len(located)):
        places[i] = bytes(located[i][0], "utf-8")
    ok(send("CreateLocalGraph", "graph", bytes(place.name, "utf-8"), len(located), numbers, places, storage, bytes(config, "utf-8")))
    return meta


def open_local_plain_spec(path):
    return open_local_spec(path, None, PartitionStorageType.memory, "", False)


def open_remote(servers, cert, threads, queues, options):
    return DistributedGraph(servers, cert, threads, queues, options).meta


def open_remote_plain(servers):
    return DistributedGraph(servers).meta


def open_remote_spec(servers, cert, threads, queues, options):
    assert len(servers) > 0
    if threads is None:
        threads = max(len(os.sched_getaffinity(0)), 1) if platform.system() == "Linux" else 1
    if queues is None:
        queues = 1
    if options is None:
        options = []
    hosts = (ctypes.c_char_p * len(servers))()
    for i, s in enumerate(servers):
        hosts[i] = bytes(s, "utf-8")
    keys = (ctypes.c_char_p * len(options))()
    values = (ctypes.c_char_p * len(options))()
    for i, o in enumerate(options):
        keys[i] = bytes(str(o[0]), "utf-8")
        values[i] = bytes(str(o[1]), "utf-8")
    with tempfile.TemporaryDirectory() as d:
        ok(send("CreateRemoteClient", "graph", bytes(str(d), "utf-8"), hosts, len(servers), None if cert is None else bytes(cert, "utf-8"), threads, queues, len(options), keys, values))
        meta = Meta(d)
    retry = policy(options)
    Retrying(stop=stop_after_attempt(retry["max_attempts"]), wait=wait_exponential(multiplier=retry["backoff_multiplier"], min=retry["initial_backoff"], max=retry["max_backoff"]), reraise=True)
    return meta


def open_remote_plain_spec(servers):
    return open_remote_spec(servers, None, None, None, None)


def close(path, times: "count"):
    g = MemoryGraph(path)
    g.reset()


def close_spec(path, times: "count"):
    place = download_graph_data(path, [(path, 0)])
    Meta(place.name, "")
    ok(send("ResetGraph", "graph"))
    place.reset()


def close_sampler(graph, types):
    NodeSampler(graph, types).reset()
    EdgeSampler(graph, types).reset()


def close_sampler_spec(meta, types):
    a = usable(types, meta.node_type_count, meta.node_count_per_type)
    ok(send("CreateWeightedNodeSampler", "graph", "nodes", len(a), listed(a)))
    ok(send("ResetSampler", "nodes"))
    b = usable(types, meta.edge_type_count, meta.edge_count_per_type)
    ok(send("CreateWeightedEdgeSampler", "graph", "edges", len(b), listed(b)))
    ok(send("ResetSampler", "edges"))


def drop(path, times: "count"):
    g = MemoryGraph(path)
    g.__del__()


def drop_sampler(graph, types):
    NodeSampler(graph, types).__del__()
    EdgeSampler(graph, types).__del__()


def policy(options: "list"):
    for o in options:
        if o[0] == "grpc.service_config":
            p = json.loads(o[1])["methodConfig"][0]["retryPolicy"]
            return {
                "max_attempts": int(p["maxAttempts"]),
                "initial_backoff": datetime.strptime(p["initialBackoff"], "%Ss").second,
                "max_backoff": datetime.strptime(p["maxBackoff"], "%Ss").second,
                "backoff_multiplier": int(p["backoffMultiplier"]),
            }
    return {"max_attempts": 5, "initial_backoff": 2, "max_backoff": 10, "backoff_multiplier": 2}


# ---- features
def node_features(graph, nodes, features, dtype, ts):
    return graph.node_features(nodes, features, dtype, ts)


def node_features_plain(graph, nodes, features, dtype):
    return graph.node_features(nodes, features, dtype)


def node_features_spec(meta, nodes, features, dtype, ts):
    nodes, features = ids(nodes), kinds(features)
    assert features.shape[1] == 2
    out = np.zeros((len(nodes), features[:, 1].sum()), dtype=dtype)
    sizes = features * (1, out.itemsize)
    ok(send("GetNodeFeature", "graph", ptr(nodes, "c_int64"), len(nodes), times(ts), ptr(sizes, "c_int32"), len(features), ptr(out, "c_uint8"), out.nbytes))
    return out


def node_features_plain_spec(meta, nodes, features, dtype):
    return node_features_spec(meta, nodes, features, dtype, None)


def edge_features(graph, src, dst, tps, features, dtype, ts):
    return graph.edge_features(src, dst, tps, features, dtype, ts)


def edge_features_plain(graph, src, dst, tps, features, dtype):
    return graph.edge_features(src, dst, tps, features, dtype)


def edge_features_spec(meta, src, dst, tps, features, dtype, ts):
    assert len(src) == len(dst) and len(src) == len(tps)
    src, dst, tps, features = ids(src), ids(dst), kinds(tps), kinds(features)
    assert features.shape[1] == 2
    out = np.zeros((len(src), features[:, 1].sum()), dtype=dtype)
    sizes = features * (1, out.itemsize)
    ok(send("GetEdgeFeature", "graph", ptr(src, "c_int64"), ptr(dst, "c_int64"), ptr(tps, "c_int32"), len(src), times(ts), ptr(sizes, "c_int32"), len(features), ptr(out, "c_uint8"), out.nbytes))
    return out


def edge_features_plain_spec(meta, src, dst, tps, features, dtype):
    return edge_features_spec(meta, src, dst, tps, features, dtype, None)


def sparse(name, features, dtype):
    indices, index_sizes, values, value_sizes, dims = received(name, 5)
    n = len(features)
    dims = np.copy(np.ctypeslib.as_array(dims, [n]))
    coords, found = [], []
    for i in range(n):
        if index_sizes[i] == 0:
            coords.append(np.empty(0, dtype=np.int64))
            found.append(np.empty(0, dtype=dtype))
        else:
            coords.append(np.copy(np.ctypeslib.as_array(indices[i], [index_sizes[i]])).astype(np.int64).reshape((-1, dims[i] + 1)))
            found.append(np.copy(np.ctypeslib.as_array(values[i], [value_sizes[i]])).view(dtype))
    return coords, found, dims


def received(name, n):
    pass


def node_sparse_features(graph, nodes, features, dtype, ts):
    return graph.node_sparse_features(nodes, features, dtype, ts)


def node_sparse_features_plain(graph, nodes, features, dtype):
    return graph.node_sparse_features(nodes, features, dtype)


def node_sparse_features_spec(meta, nodes, features, dtype, ts):
    nodes, features = ids(nodes), kinds(features)
    assert len(features.shape) == 1
    ok(send("GetNodeSparseFeature", "graph", ptr(nodes, "c_int64"), len(nodes), times(ts), ptr(features, "c_int32"), len(features), anything()))
    return sparse("GetNodeSparseFeature", features, dtype)


def node_sparse_features_plain_spec(meta, nodes, features, dtype):
    return node_sparse_features_spec(meta, nodes, features, dtype, None)


def edge_sparse_features(graph, src, dst, tps, features, dtype, ts):
    return graph.edge_sparse_features(src, dst, tps, features, dtype, ts)


def edge_sparse_features_plain(graph, src, dst, tps, features, dtype):
    return graph.edge_sparse_features(src, dst, tps, features, dtype)


def edge_sparse_features_spec(meta, src, dst, tps, features, dtype, ts):
    assert len(src) == len(dst) and len(src) == len(tps)
    src, dst, tps, features = ids(src), ids(dst), kinds(tps), kinds(features)
    assert len(features.shape) == 1
    ok(send("GetEdgeSparseFeature", "graph", ptr(src, "c_int64"), ptr(dst, "c_int64"), ptr(tps, "c_int32"), len(src), times(ts), ptr(features, "c_int32"), len(features), anything()))
    return sparse("GetEdgeSparseFeature", features, dtype)


def edge_sparse_features_plain_spec(meta, src, dst, tps, features, dtype):
    return edge_sparse_features_spec(meta, src, dst, tps, features, dtype, None)


def text(name, dtype, dims):
    size, values = received(name, 2)
    out = np.empty(0, dtype=dtype) if size == 0 else np.copy(np.ctypeslib.as_array(values, [size])).view(dtype)
    return out, dims // out.itemsize


def node_string_features(graph, nodes, features, dtype, ts):
    return graph.node_string_features(nodes, features, dtype, ts)


def node_string_features_plain(graph, nodes, features, dtype):
    return graph.node_string_features(nodes, features, dtype)


def node_string_features_spec(meta, nodes, features, dtype, ts):
    nodes, features = ids(nodes), kinds(features)
    assert len(features.shape) == 1
    dims = np.zeros((len(nodes), len(features)), dtype=np.int64)
    ok(send("GetNodeStringFeature", "graph", ptr(nodes, "c_int64"), len(nodes), times(ts), ptr(features, "c_int32"), len(features), ptr(dims, "c_int64"), anything()))
    return text("GetNodeStringFeature", dtype, dims)


def node_string_features_plain_spec(meta, nodes, features, dtype):
    return node_string_features_spec(meta, nodes, features, dtype, None)


def edge_string_features(graph, src, dst, tps, features, dtype, ts):
    return graph.edge_string_features(src, dst, tps, features, dtype, ts)


def edge_string_features_plain(graph, src, dst, tps, features, dtype):
    return graph.edge_string_features(src, dst, tps, features, dtype)


def edge_string_features_spec(meta, src, dst, tps, features, dtype, ts):
    assert len(src) == len(dst) and len(src) == len(tps)
    src, dst, tps, features = ids(src), ids(dst), kinds(tps), kinds(features)
    assert len(features.shape) == 1
    dims = np.zeros((len(src), len(features)), dtype=np.int64)
    ok(send("GetEdgeStringFeature", "graph", ptr(src, "c_int64"), ptr(dst, "c_int64"), ptr(tps, "c_int32"), len(src), times(ts), ptr(features, "c_int32"), len(features),
        ptr(dims, "c_int64"), anything()))
    return text("GetEdgeStringFeature", dtype, dims)


def edge_string_features_plain_spec(meta, src, dst, tps, features, dtype):
    return edge_string_features_spec(meta, src, dst, tps, features, dtype, None)


# ---- neighbours
def neighbor_counts(graph, nodes, types, ts):
    return graph.neighbor_counts(nodes, types, ts)


def neighbor_counts_plain(graph, nodes, types):
    return graph.neighbor_counts(nodes, types)


def neighbor_counts_spec(meta, nodes, types, ts):
    nodes, types = ids(nodes), chosen(types)
    out = np.empty(len(nodes), dtype=np.uint64)
    ok(send("NeighborCount", "graph", ptr(nodes, "c_int64"), len(nodes), times(ts), listed(types), len(types), ptr(out, "c_uint64")))
    return out


def neighbor_counts_plain_spec(meta, nodes, types):
    return neighbor_counts_spec(meta, nodes, types, None)


def neighbors(graph, nodes, types, ts, created):
    return graph.neighbors(nodes, types, ts, created)


def neighbors_plain(graph, nodes, types):
    return graph.neighbors(nodes, types)


def neighbors_spec(meta, nodes, types, ts, created):
    nodes, types = ids(nodes), chosen(types)
    counts = np.empty(len(nodes), dtype=np.uint64)
    ok(send("GetNeighbors", "graph", created, ptr(nodes, "c_int64"), len(nodes), times(ts), listed(types), len(types), ptr(counts, "c_uint64"), anything()))
    a, w, t, s, n = received("GetNeighbors", 5)
    out = np.empty(0, dtype=np.int64) if n == 0 else np.copy(np.ctypeslib.as_array(a, [n]))
    weights = np.empty(0, dtype=np.float32) if n == 0 else np.copy(np.ctypeslib.as_array(w, [n]))
    found = np.empty(0, dtype=np.int32) if n == 0 else np.copy(np.ctypeslib.as_array(t, [n]))
    stamps = np.empty(0, dtype=np.int64) if n == 0 else np.copy(np.ctypeslib.as_array(s, [n]))
    if created:
        return out, weights, found, counts, stamps
    return out, weights, found, counts


def neighbors_plain_spec(meta, nodes, types):
    return neighbors_spec(meta, nodes, types, None, False)


def weighted(graph, nodes, types, count, node, weight, etype, seed, ts, created):
    return graph.weighted_sample_neighbors(nodes, types, count=count, default_node=node, default_weight=weight, default_edge_type=etype, seed=seed, timestamps=ts, return_edge_created_ts=created)


def weighted_plain(graph, nodes, types):
    return graph.weighted_sample_neighbors(nodes, types)


def weighted_spec(meta, nodes, types, count, node, weight, etype, seed, ts, created):
    nodes, types = ids(nodes), chosen(types)
    out = np.full((len(nodes), count), node, dtype=np.int64)
    weights = np.full((len(nodes), count), weight, dtype=np.float32)
    found = np.full((len(nodes), count), etype, dtype=np.int32)
    stamps = None
    if created:
        assert meta.watermark >= 0
        stamps = np.full((len(nodes), count), -1, dtype=np.int64)
    ok(send("WeightedSampleNeighbor", "graph", created, drawn(seed), ptr(nodes, "c_int64"), len(nodes), listed(types), len(types), times(ts), count, ptr(out, "c_int64"), ptr(found, "c_int32"),
        ptr(weights, "c_float"), ptr(stamps, "c_int64") if created else None, node, weight, etype))
    if created:
        return out, weights, found, stamps
    return out, weights, found


def weighted_plain_spec(meta, nodes, types):
    return weighted_spec(meta, nodes, types, 10, -1, 0.0, -1, None, None, False)


def uniform(graph, alone, nodes, types, count, node, etype, seed, ts, created):
    return graph.uniform_sample_neighbors(alone, nodes, types, count=count, default_node=node, default_type=etype, seed=seed, timestamps=ts, return_edge_created_ts=created)


def uniform_plain(graph, alone, nodes, types):
    return graph.uniform_sample_neighbors(alone, nodes, types)


def uniform_spec(meta, alone, nodes, types, count, node, etype, seed, ts, created):
    nodes, types = ids(nodes), chosen(types)
    out = np.full((len(nodes), count), node, dtype=np.int64)
    found = np.full((len(nodes), count), etype, dtype=np.int32)
    stamps = None
    if created:
        assert meta.watermark >= 0
        stamps = np.full((len(nodes), count), -1, dtype=np.int64)
    ok(send("UniformSampleNeighbor", "graph", alone, created, drawn(seed), ptr(nodes, "c_int64"), len(nodes), listed(types), len(types), times(ts), count, ptr(out, "c_int64"), ptr(found, "c_int32"),
        ptr(stamps, "c_int64") if created else None, node, etype))
    if created:
        return out, found, stamps
    return out, found


def uniform_plain_spec(meta, alone, nodes, types):
    return uniform_spec(meta, alone, nodes, types, 10, -1, -1, None, None, False)


def lastn(graph, nodes, types, ts, count, node, weight, etype, stamp, created):
    return graph.lastn_neighbors(nodes, types, ts, count=count, default_node=node, default_weight=weight, default_edge_type=etype, default_timestamp=stamp, return_edge_created_ts=created)


def lastn_plain(graph, nodes, types, ts):
    return graph.lastn_neighbors(nodes, types, ts)


def lastn_spec(meta, nodes, types, ts, count, node, weight, etype, stamp, created):
    assert meta.watermark >= 0
    nodes, ts, types = ids(nodes), ids(ts), chosen(types)
    assert len(nodes) == len(ts)
    out = np.full((len(nodes), count), node, dtype=np.int64)
    weights = np.full((len(nodes), count), weight, dtype=np.float32)
    found = np.full((len(nodes), count), etype, dtype=np.int32)
    stamps = None
    if created:
        stamps = np.full((len(nodes), count), stamp, dtype=np.int64)
    ok(send("LastNCreatedNeighbor", "graph", created, ptr(nodes, "c_int64"), len(nodes), listed(types), len(types), ptr(ts, "c_int64"), count, ptr(out, "c_int64"), ptr(found, "c_int32"),
        ptr(weights, "c_float"), ptr(stamps, "c_int64") if created else None, node, weight, etype, stamp))
    if created:
        return out, weights, found, stamps
    return out, weights, found


def lastn_plain_spec(meta, nodes, types, ts):
    return lastn_spec(meta, nodes, types, ts, 10, -1, 0.0, -1, -1, False)


def ppr(graph, nodes, types, count, alpha, eps, node, weight, ts):
    return graph.ppr_neighbors(nodes, types, count=count, alpha=alpha, eps=eps, default_node=node, default_weight=weight, timestamps=ts)


def ppr_plain(graph, nodes, types):
    return graph.ppr_neighbors(nodes, types)


def ppr_spec(meta, nodes, types, count, alpha, eps, node, weight, ts):
    nodes, types = ids(nodes), chosen(types)
    out = np.full((len(nodes), count), node, dtype=np.int64)
    weights = np.full((len(nodes), count), weight, dtype=np.float32)
    ok(send("PPRSampleNeighbor", "graph", ptr(nodes, "c_int64"), len(nodes), times(ts), listed(types), len(types), count, alpha, eps, node, weight, ptr(out, "c_int64"), ptr(weights, "c_float")))
    return out, weights


def ppr_plain_spec(meta, nodes, types):
    return ppr_spec(meta, nodes, types, 10, 0.5, 1e-4, -1, 0.0, None)


def walk(graph, nodes, types, length, p, q, node, seed, ts):
    return graph.random_walk(nodes, types, length, p, q, default_node=node, seed=seed, timestamps=ts)


def walk_plain(graph, nodes, types, length, p, q):
    return graph.random_walk(nodes, types, length, p, q)


def walk_spec(meta, nodes, types, length, p, q, node, seed, ts):
    nodes, types = ids(nodes), chosen(types)
    out = np.empty((len(nodes), length + 1), dtype=np.int64)
    ok(send("RandomWalk", "graph", drawn(seed), p, q, node, ptr(nodes, "c_int64"), len(nodes), times(ts), listed(types), len(types), length, ptr(out, "c_int64")))
    return out


def walk_plain_spec(meta, nodes, types, length, p, q):
    return walk_spec(meta, nodes, types, length, p, q, -1, None, None)


def node_types(graph, nodes, default):
    return graph.node_types(nodes, default)


def node_types_spec(meta, nodes, default):
    nodes = ids(nodes)
    out = np.empty(len(nodes), dtype=np.int32)
    ok(send("GetNodeType", "graph", ptr(nodes, "c_int64"), len(nodes), ptr(out, "c_int32"), default))
    return out


# ---- counts by type
def node_total(graph, types):
    return graph.get_node_type_count(types)


def node_total_spec(meta, types):
    assert len(types) > 0
    n = 0
    for t in set(types):
        if 0 <= t < meta.node_type_count:
            n += meta.node_count_per_type[t]
    return n


def edge_total(graph, types):
    return graph.get_edge_type_count(types)


def edge_total_spec(meta, types):
    assert len(types) > 0
    n = 0
    for t in set(types):
        if 0 <= t < meta.edge_type_count:
            n += meta.edge_count_per_type[t]
    return n


# ---- samplers
def usable(types, total, counts):
    if isinstance(types, int) and types == -1:
        types = list(range(total))
    out = [t for t in chosen(types) if 0 <= t < total and counts[t] > 0]
    assert len(out) > 0
    return out


def sample_nodes_weighted(graph, types, size, seed):
    return NodeSampler(graph, types, "weighted").sample(size, seed)


def sample_nodes_uniform(graph, types, size, seed):
    return NodeSampler(graph, types, "uniform").sample(size, seed)


def sample_nodes_distinct(graph, types, size, seed):
    return NodeSampler(graph, types, "withoutreplacement").sample(size, seed)


def sample_nodes_plain(graph, types, size):
    return NodeSampler(graph, types).sample(size)


def nodes_of(meta, name, types, size, seed):
    types = usable(types, meta.node_type_count, meta.node_count_per_type)
    ok(send(name, "graph", "sampler", len(types), listed(types)))
    out = np.empty(size, dtype=np.int64)
    found = np.empty(size, dtype=np.int32)
    ok(send("SampleNodes", "sampler", drawn(seed), size, ptr(out, "c_int64"), ptr(found, "c_int32")))
    return out, found


def sample_nodes_weighted_spec(meta, types, size, seed):
    return nodes_of(meta, "CreateWeightedNodeSampler", types, size, seed)


def sample_nodes_uniform_spec(meta, types, size, seed):
    return nodes_of(meta, "CreateUniformNodeSampler", types, size, seed)


def sample_nodes_distinct_spec(meta, types, size, seed):
    return nodes_of(meta, "CreateUniformNodeSamplerWithoutReplacement", types, size, seed)


def sample_nodes_plain_spec(meta, types, size):
    return nodes_of(meta, "CreateWeightedNodeSampler", types, size, None)


def sample_edges_weighted(graph, types, size, seed):
    return EdgeSampler(graph, types, "weighted").sample(size, seed)


def sample_edges_uniform(graph, types, size, seed):
    return EdgeSampler(graph, types, "uniform").sample(size, seed)


def sample_edges_distinct(graph, types, size, seed):
    return EdgeSampler(graph, types, "withoutreplacement").sample(size, seed)


def sample_edges_plain(graph, types, size):
    return EdgeSampler(graph, types).sample(size)


def edges_of(meta, name, types, size, seed):
    types = usable(types, meta.edge_type_count, meta.edge_count_per_type)
    ok(send(name, "graph", "sampler", len(types), listed(types)))
    src = np.empty(size, dtype=np.int64)
    dst = np.empty(size, dtype=np.int64)
    found = np.empty(size, dtype=np.int32)
    ok(send("SampleEdges", "sampler", drawn(seed), size, ptr(src, "c_int64"), ptr(dst, "c_int64"), ptr(found, "c_int32")))
    return src, dst, found


def sample_edges_weighted_spec(meta, types, size, seed):
    return edges_of(meta, "CreateWeightedEdgeSampler", types, size, seed)


def sample_edges_uniform_spec(meta, types, size, seed):
    return edges_of(meta, "CreateUniformEdgeSampler", types, size, seed)


def sample_edges_distinct_spec(meta, types, size, seed):
    return edges_of(meta, "CreateUniformEdgeSamplerWithoutReplacement", types, size, seed)


def sample_edges_plain_spec(meta, types, size):
    return edges_of(meta, "CreateWeightedEdgeSampler", types, size, None)
'''

KNOWN = ("stay", "download", "place of", "np.asarray", "np.asanyarray", "squeezed", "converted", ".max", "np.empty")
FLAT = ("nodes", "src", "dst", "tps", "ts")
QUERIES = {
    "node_features": "node features", "edge_features": "edge features", "node_sparse_features": "sparse node features", "edge_sparse_features": "sparse edge features",
    "node_string_features": "text node features", "edge_string_features": "text edge features", "neighbor_counts": "neighbour counts", "neighbors": "all neighbours",
    "weighted": "weighted neighbours", "uniform": "uniform neighbours", "lastn": "latest neighbours", "ppr": "page rank neighbours", "walk": "random walk",
    "node_types": "node types", "node_total": "number of nodes", "edge_total": "number of edges",
    "sample_nodes_weighted": "weighted nodes", "sample_nodes_uniform": "uniform nodes", "sample_nodes_distinct": "distinct nodes",
    "sample_edges_weighted": "weighted edges", "sample_edges_uniform": "uniform edges", "sample_edges_distinct": "distinct edges",
}


def build(c):
    h = Header(c.prog.repo)
    tree = ast.parse(DRV)
    fns = {f.name: [a.arg for a in f.args.args] for f in tree.body if isinstance(f, ast.FunctionDef)}
    more = []
    for n, ps in fns.items():
        if ps[:1] == ["graph"]:
            rest = "".join(", " + p for p in ps[1:])
            more.append(f"def local_{n}(place{rest}):\n    return {n}(MemoryGraph(place){rest})\n")
            more.append(f"def remote_{n}(servers{rest}):\n    return {n}(DistributedGraph(servers){rest})\n")
    return source(c, native_text(h) + DRV + "\n".join(more)), h, fns


def h_meta(fl, cls, b, args, kw, node):
    return mk("sym", "meta")


def h_read_meta(fl, cls, b, args, kw, node):
    a = list(args) + [const("")]
    put_log(fl, "native", "metadata", *[fl.fz(kw.get(n, a[i] if i < len(a) else NONE)) for i, n in enumerate(("path", "config_path"))])
    return mk("sym", "meta")


def h_place(fl, *a):
    return mk("sym", "place")


def h_stay(fl, cls, b, args, kw, node):
    return mk("call", "stay", (fl.fz(args[0] if args else kw["path"]),), (), NONE)


def h_download(fl, f, b, args, kw, node):
    """Partitions that were fetched are found at another place afterwards."""
    path = fl.fz(args[0] if args else kw["path"])
    parts = args[1] if len(args) > 1 else kw["partitions"]
    old = pairs(fl.fz(parts))
    h = 1 + height(old)
    i = bv(h)
    x = seq_idx(old, i)
    fl.set_content(parts, mk_flat(seq_len(old), h, mk("list", mk("tuple", mk("call", "place of", (path, old, i), (), NONE), seq_idx(x, ONE)))))
    return mk("call", "download", (path, old), (), NONE)


def h_received(fl, f, b, args, kw, node):
    return mk("tuple", *[mk("sym", f"{cval(args[0])}.{i}") for i in range(cval(args[1]))])


def flow(c, m, h, name, retried=False):
    lib = Lib(c, m, h, retried=retried, quiet=("CreateLocalGraph", "CreateRemoteClient"))
    hooks = lib.hooks()
    hooks.update({"new:Meta": h_meta, "new:GraphPath": h_place, "download_graph_data": h_place, "received": h_received})
    for k in ("node_type_count", "edge_type_count"):
        COUNTS.add(mk("attr", mk("sym", "meta"), k).dig)
    fl = run_driver(c, m, name, hooks=hooks)
    fl.lib = lib
    return fl


def opening(c, m, h, name, quiet=()):
    lib = Lib(c, m, h, quiet=quiet)
    hooks = lib.hooks()
    hooks.update({
        "new:Meta": h_read_meta, "new:GraphPath": h_stay, "download_graph_data": h_download, 
        "tempfile.TemporaryDirectory": lambda fl, f, b, a, kw, n: fl.construct(m.classes["TempDir"], a, kw, n), "fresh_dir": lambda fl, f, b, a, kw, n: mk("sym", "fresh dir"),
        "removed": lambda fl, f, b, a, kw, n: put_log(fl, "native", "removed", fl.fz(a[0])) or NONE, ".reset": log_method("native", "reset"),
    })
    fl = run_driver(c, m, name, hooks=hooks)
    fl.lib = lib
    return fl


def opened(c, m, h, name, what, cls):
    g = c.prog.need_class(CL, cls)
    for sub_, extra in (("", ""), ("_plain", " by default")):
        a, b = opening(c, m, h, name + sub_), opening(c, m, h, name + sub_ + "_spec")
        loc = floc(g.find("__init__"))
        c.equal("opened", what + extra, flat(log_of(a, "native"), ()), flat(log_of(b, "native"), ()), loc, known=KNOWN)
        c.equal("opened", what + extra + " metadata", a.ret, b.ret, loc, known=KNOWN)
        c.equal("refused", what + extra, canon(rejections(a)), canon(rejections(b)), loc)
        if cls == "DistributedGraph":
            d = opening(c, m, h, "open_remote_plain_spec")
            got = a.lib.policy or NONE
            c.equal("opened", what + extra + " retries", raised(got, FALSE), b.lib.policy, loc, known=KNOWN)
            c.equal("opened", what + extra + " retries after an unusable option", raised(got, TRUE), d.lib.policy, loc, known=KNOWN)
        else:
            p = a.lib.policy or NONE
            once = not p.op == "call" or dict(p.args[2]).get("reraise") is TRUE and attempts(dict(p.args[2]).get("stop")) <= 1
            c.expect(once, "opened", what + extra + " one attempt", f"a failing query of a graph in memory is repeated or reported as another error: {show(p)}", loc)


def attempts(t):
    if t is not None and t.op == "call" and t.args[0] == "tenacity.stop_after_attempt":
        n = (list(t.args[1]) + [v for _, v in t.args[2]] + [NONE])[0]
        return cval(n) if is_const(n) else 2
    return 2


def raised(t, v):
    """t when decoding an option fails (or not)."""
    return canon(rewrite(t, lambda x: v if x.op == "exc" else x))


def closed(c, m, h):
    a, b = opening(c, m, h, "close", ("CreateLocalGraph",)), opening(c, m, h, "close_spec")
    c.equal("closed", "graph", log_of(a, "native"), log_of(b, "native"), floc(c.prog.need_class(CL, "MemoryGraph").find("reset")))
    a = opening(c, m, h, "drop", ("CreateLocalGraph",))
    c.equal("closed", "graph that is dropped", log_of(a, "native"), log_of(b, "native"), floc(c.prog.need_class(CL, "MemoryGraph").find("reset")))
    a = flow(c, m, h, "local_drop_sampler")
    b = flow(c, m, h, "close_sampler_spec")
    c.equal("closed", "samplers that are dropped", log_of(a, "native"), log_of(b, "native"), floc(c.prog.need_class(CL, "NodeSampler").find("reset")))
    a, b = flow(c, m, h, "local_close_sampler"), flow(c, m, h, "close_sampler_spec")
    c.equal("closed", "samplers", log_of(a, "native"), log_of(b, "native"), floc(c.prog.need_class(CL, "NodeSampler").find("reset")))


def filled(t):
    return t.op == "call" and t.args[0] == "written"


def element(t):
    """Element type of an array made here, or filled by the library."""
    while t.op == "call" and t.args[0] == "written":
        t = t.args[1][-1]
    if t.op == "call" and t.args[0] in ("np.zeros", "np.ones", "np.empty", "np.full"):
        return dict(t.args[2]).get("dtype")
    return None


def flat(t, names):
    """One dimensional arrays: their size is their length."""

    def f(x):
        if x.op == "attr" and x.args[1] == "size" and any(y.op == "sym" and y.args[0] in names for y in subterms(x.args[0])):
            return seq_len(x.args[0])
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1] is ZERO:
            return seq_len(x.args[0].args[0])
        if x.op == "attr" and x.args[1] == "shape" and x.args[0].op == "call" and x.args[0].args[0] == "np.array":
            return mk("attr", x.args[0].args[1][0], "shape")
        if x.op == "attr" and x.args[1] == "itemsize" and element(x.args[0]) is not None:
            return mk("attr", mk("call", "np.dtype", (element(x.args[0]),), (), NONE), "itemsize")
        if x.op == "call" and x.args[0] in ("np.zeros", "np.ones") and len(x.args[1]) == 1 and [k for k, _ in x.args[2]] == ["dtype"]:
            return mk("call", "np.full", (x.args[1][0], ONE if x.args[0] == "np.ones" else ZERO), x.args[2], x.args[3])
        if x.op == "call" and x.args[0] == "np.squeeze" and len(x.args[1]) == 1 and not x.args[2] and filled(x.args[1][0]):
            return mk("call", "squeezed", x.args[1], (), NONE)
        if x.op == "call" and x.args[0] == ".astype" and len(x.args[1]) == 2 and not x.args[2] and filled(x.args[1][0]):
            own = element(x.args[1][0])
            return x.args[1][0] if own is x.args[1][1] else x if own is None else mk("call", "converted", x.args[1], (), NONE)
        return x

    return canon(rewrite(t, f))


def query(c, m, h, fns, name, what):
    g = c.prog.need_class(CL, "MemoryGraph")
    names = FLAT + (("features",) if "sparse" in name or "string" in name else ())
    for sub_, extra in (("", ""), ("_plain", " by default")):
        if name + sub_ not in fns:
            continue
        a = flow(c, m, h, "local_" + name + sub_)
        b = flow(c, m, h, name + sub_ + "_spec")
        loc = next((e.loc for e in a.events if e.kind == "call" and e.name.startswith("native.")), floc(g.find("__init__")))
        if a.failed or b.failed:
            c.undecided("asked", what + extra, "analysis budget exceeded", loc)
            continue
        c.equal("asked", what + extra, flat(log_of(a, "native"), names), flat(log_of(b, "native"), names), loc, known=KNOWN)
        c.equal("answer", what + extra, flat(a.ret, names), flat(b.ret, names), loc, known=KNOWN)
        c.equal("refused", what + extra, flat(rejections(a), names), flat(rejections(b), names), loc)
        if not sub_ or name + sub_ not in fns:
            r = flow(c, m, h, "remote_" + name + sub_, retried=True)
            s = flow(c, m, h, name + sub_ + "_spec", retried=True)
            if not name.endswith("total"):
                c.equal("remote", what + extra, flat(log_of(r, "native"), names), flat(log_of(s, "native"), names), loc, known=KNOWN)


def run(c):
    c.prog.need_class(CL, "DistributedGraph")
    m, h, fns = build(c)
    c.clause("opened", "local graph", opened, m, h, "open_local", "local graph", "MemoryGraph")
    c.clause("opened", "remote graph", opened, m, h, "open_remote", "remote graph", "DistributedGraph")
    c.clause("closed", "graph", closed, m, h)
    for n, what in QUERIES.items():
        c.clause("asked", what, query, m, h, fns, n, what)
    c.floor("asked", 35)
    c.floor("answer", 35)
    c.floor("refused", 35)
    c.floor("remote", 20)
    c.floor("opened", 12)
    c.floor("closed", 4)
    c.rule("asked", "the native function called, its arguments and their contents are what the query asks for")
    c.rule("answer", "what the query returns is built from the buffers the native function filled")
    c.rule("refused", "the conditions under which the query raises, failures of the library included")
    c.rule("remote", "the same query of a remote graph goes through its retry policy")
    c.rule("opened", "partitions, places, storage, credentials, options and retry policy handed over on opening")
    c.rule("closed", "the native handle is released and fetched files removed")
