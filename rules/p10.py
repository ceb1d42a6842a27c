"""Samplers: which batches every loader of every worker gets, and how many are announced."""
from .common import *
from vlib.canon import arrays as canon

S = GE + ".samplers"
DRV = '''
import csv
import glob
import math
import numpy as np
from deepgnn.graph_engine.samplers import FileNodeSampler, FileEdgeSampler, FileTupleSampler, FileTupleSamplerV2
from deepgnn.graph_engine.samplers import RangeNodeSampler, RangeEdgeSampler, CSVNodeSampler, GENodeSampler, GEEdgeSampler
from deepgnn.graph_engine._base import Graph, SamplingStrategy


def anything():
    pass


def take(sampler, calls):
    out = []
    it = iter(sampler)
    for k in range(calls):
        out.append(next(it))
    return len(sampler), out


def node(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    return take(FileNodeSampler(path, size, epochs=epochs, shuffle=shuffle, drop_last=drop, backfill_id=fill, worker_index=worker, num_workers=workers,
        data_parallel_num=loaders, data_parallel_index=loader), calls)


def edge(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim):
    return take(FileEdgeSampler(etype, path, size, epochs=epochs, shuffle=shuffle, delimeter=delim, drop_last=drop, backfill_id=fill, worker_index=worker,
        num_workers=workers, data_parallel_num=loaders, data_parallel_index=loader), calls)


def edge_features(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim, dim):
    return take(FileEdgeSampler(etype, path, size, epochs=epochs, shuffle=shuffle, delimeter=delim, feature_dim=3, feature_type=np.float32, drop_last=drop,
        backfill_id=fill, worker_index=worker, num_workers=workers, data_parallel_num=loaders, data_parallel_index=loader), calls)


def edge_numbers(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim):
    return take(FileEdgeSampler(etype, path, size, epochs=epochs, shuffle=shuffle, delimeter=delim, feature_dim=3, feature_type=np.int64, drop_last=drop,
        backfill_id=fill, worker_index=worker, num_workers=workers, data_parallel_num=loaders, data_parallel_index=loader), calls)


def pair(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    return take(FileTupleSampler(path, size, epochs=epochs, shuffle=shuffle, drop_last=drop, backfill=fill, worker_index=worker, num_workers=workers,
        data_parallel_num=loaders, data_parallel_index=loader), calls)


def record(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    return take(FileTupleSamplerV2(path, size, epochs=epochs, shuffle=shuffle, drop_last=drop, backfill=fill, worker_index=worker, num_workers=workers,
        data_parallel_num=loaders, data_parallel_index=loader), calls)


def record_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    ids, labels, features = [], [], []
    for i, l in enumerate(open(path)):
        if i % workers == worker:
            cols = l.split("\t")
            assert len(cols) == 3
            ids.append(np.int64(int(cols[0])))
            labels.append(np.float32(float(cols[1])))
            features.append(np.array([float(x) for x in cols[2].split(" ")], np.float32))
    return batches([np.array(ids), np.array(labels), np.array(features)], [fill, fill, fill], size, epochs, shuffle, drop, loaders, loader, calls)


def share(pattern, worker, workers):
    files = sorted(glob.glob(pattern))
    if len(files) < workers:
        raise RuntimeError()
    return files[worker:len(files):workers]


def batches(columns, fills, size, epochs: "count", shuffle, drop, loaders, loader, calls):
    n = len(columns[0])
    assert n > 0
    for c in columns:
        assert len(c) == n
    total = epochs * n
    order = np.concatenate([np.random.permutation(n) if shuffle else np.arange(n) for _ in range(epochs)])
    out = []
    for k in range(calls):
        lo = (k * loaders + loader) * size
        if lo >= total or (lo + size > total and drop):
            raise StopIteration
        if lo + size <= total:
            b = [c[order[lo:lo + size]] for c in columns]
        else:
            b = [padded(c[order[lo:]], size, f) for c, f in zip(columns, fills)]
        out.append(b[0] if len(b) == 1 else b)
    if drop:
        return math.floor(total / (size * loaders)), out
    return math.ceil(total / (size * loaders)), out


def padded(rows, size, fill):
    shape = list(rows.shape)
    shape[0] = size
    v = np.full(shape, fill, dtype=rows.dtype)
    v[:len(rows)] = rows
    return v


def nodes_of(path, worker, workers):
    return np.concatenate([np.fromfile(f, dtype=np.int64, sep="\\n") for f in share(path, worker, workers)])


def node_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    nodes = nodes_of(path, worker, workers)
    return batches([nodes], [fill], size, epochs, shuffle, drop, loaders, loader, calls)


def lines(path, worker, workers):
    return [l for f in share(path, worker, workers) for l in open(f)]


def edge_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim):
    e = [[int(l.split(delim)[0]), int(l.split(delim)[1])] for l in lines(path, worker, workers)]
    e = np.concatenate([np.array(e, dtype=np.int64), np.full((len(e), 1), etype)], axis=1)
    return batches([e], [np.array([fill, fill, etype], dtype=np.int64)], size, epochs, shuffle, drop, loaders, loader, calls)


def edge_features_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim, dim):
    return edges_with(float, np.float32, path, size, epochs, shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim)


def edge_numbers_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim):
    return edges_with(int, np.int64, path, size, epochs, shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim)


def edges_with(number, dtype, path, size, epochs, shuffle, drop, fill, worker, workers, loaders, loader, calls, etype, delim):
    e = []
    fs = []
    for f in share(path, worker, workers):
        for l in open(f):
            col = l.split(delim)
            assert 5 <= len(col)
            e.append([int(col[0]), int(col[1])])
            fs.append([number(i) for i in col[2:]])
    e = np.concatenate([np.array(e, dtype=np.int64), np.full((len(e), 1), etype)], axis=1)
    fs = np.array(fs, dtype=dtype)
    return batches([e, fs], [np.array([fill, fill, etype], dtype=np.int64), np.zeros(shape=(3), dtype=np.float32)], size, epochs, shuffle, drop, loaders, loader, calls)


def pair_spec(path, size, epochs: "count", shuffle, drop, fill, worker, workers, loaders, loader, calls):
    data = []
    for i, l in enumerate(open(path)):
        if i % workers == worker:
            cols = l.split("\\t")
            assert len(cols) == 2
            data.append([int(cols[0]), int(cols[1])])
    data = np.array(data, dtype=np.int64)
    return batches([data], [np.array([fill, fill], dtype=np.int64)], size, epochs, shuffle, drop, loaders, loader, calls)


def range_node(first, last, size, worker, workers, fill, loaders, loader, calls):
    return take(RangeNodeSampler(first, last, size, worker, workers, fill, data_parallel_num=loaders, data_parallel_index=loader), calls)


def range_edge(first, last, size, worker, workers, fill, loaders, loader, calls, etype):
    return take(RangeEdgeSampler(etype, first, last, size, worker, workers, fill, data_parallel_num=loaders, data_parallel_index=loader), calls)


def ids(first, last, size, worker, workers, fill, loaders, loader, calls):
    assert first + worker * size * loaders < last
    out = []
    for k in range(calls):
        lo = first + (k * workers + worker) * size * loaders + loader
        if lo >= last:
            raise StopIteration
        b = np.arange(lo, lo + size * loaders, step=loaders)
        if lo + size * loaders > last:
            b[math.ceil((last - lo) / loaders):] = fill
        out.append(b)
    return math.ceil((last - first - worker * size * loaders) / (size * workers * loaders)), out


def range_node_spec(first, last, size, worker, workers, fill, loaders, loader, calls):
    return ids(first, last, size, worker, workers, fill, loaders, loader, calls)


def range_edge_spec(first, last, size, worker, workers, fill, loaders, loader, calls, etype):
    n, out = ids(first, last, size * 2, worker, workers, fill, loaders, loader, calls)
    return n, [np.concatenate([b.reshape(-1, 2), np.full((size, 1), etype, dtype=np.int64)], axis=1) for b in out]


def table(path, size, epochs: "count", loaders, loader, calls):
    return take(CSVNodeSampler(size, path, epochs, data_parallel_num=loaders, data_parallel_index=loader), calls)


def rows_of(path):
    rows = []
    with open(path, "r") as f:
        for d in csv.reader(f):
            if len(d) != 0:
                rows.append([int(c) for c in d])
    return rows


def table_spec(path, size, epochs: "count", loaders, loader, calls):
    return rows_in(rows_of(path), size, epochs, loaders, loader, calls)


def rows_in(rows, size, epochs, loaders, loader, calls):
    n = math.ceil((len(rows) - loader) / (size * loaders))
    out = []
    for k in range(calls):
        if k >= epochs * n:
            raise StopIteration
        lo = k % n * (size * loaders) + loader
        out.append(np.array(rows)[lo:min(lo + size * loaders, len(rows)):loaders])
    return math.ceil(len(rows) / (size * loaders)) * epochs, out


def graph_nodes(graph: Graph, types, size, epochs: "count", num, workers, strategy, loaders, loader, calls):
    return take(GENodeSampler(graph, types, size, epochs, sample_num=num, num_workers=workers, strategy=strategy, data_parallel_num=loaders, data_parallel_index=loader), calls)


def graph_edges(graph: Graph, types, size, epochs: "count", num, workers, strategy, loaders, loader, calls):
    return take(GEEdgeSampler(graph, types, size, epochs, sample_num=num, num_workers=workers, strategy=strategy, data_parallel_num=loaders, data_parallel_index=loader), calls)


def graph_nodes_spec(graph: Graph, types, size, epochs: "count", num, workers, strategy, loaders, loader, calls):
    if num == -1:
        num = graph.node_count(types)
    n = math.ceil(epochs * num / (size * workers * loaders))
    return drawn_nodes(graph, types, size, n, strategy, calls)


def drawn_nodes(graph, types, size, n, strategy, calls):
    out = []
    for k in range(calls):
        if k >= n:
            raise StopIteration
        b = graph.sample_nodes(size, types, strategy)
        out.append(b[0] if isinstance(types, np.ndarray) else b)
    return n, out


def graph_edges_spec(graph: Graph, types, size, epochs: "count", num, workers, strategy, loaders, loader, calls):
    if num == -1:
        num = graph.edge_count(types)
    n = math.ceil(epochs * num / (size * workers * loaders))
    return drawn_edges(graph, types, size, n, strategy, calls)


def drawn_edges(graph, types, size, n, strategy, calls):
    out = []
    for k in range(calls):
        if k >= n:
            raise StopIteration
        out.append(graph.sample_edges(size, types, strategy))
    return n, out


def node_plain(path, size, calls):
    return take(FileNodeSampler(path, size), calls)


def node_plain_spec(path, size, calls):
    return node_spec(path, size, 1, False, False, -1, 0, 1, 1, 0, calls)


def edge_plain(path, size, calls, etype):
    return take(FileEdgeSampler(etype, path, size), calls)


def edge_plain_spec(path, size, calls, etype):
    return edge_spec(path, size, 1, False, False, -1, 0, 1, 1, 0, calls, etype, "\t")


def edge_features_plain(path, size, calls, etype):
    return take(FileEdgeSampler(etype, path, size, feature_dim=3), calls)


def edge_features_plain_spec(path, size, calls, etype):
    return edge_features_spec(path, size, 1, False, False, -1, 0, 1, 1, 0, calls, etype, "\t", 3)


def pair_plain(path, size, calls):
    return take(FileTupleSampler(path, size), calls)


def pair_plain_spec(path, size, calls):
    return pair_spec(path, size, 1, False, False, -1, 0, 1, 1, 0, calls)


def record_plain(path, size, calls):
    return take(FileTupleSamplerV2(path, size), calls)


def record_plain_spec(path, size, calls):
    return record_spec(path, size, 1, False, False, -1, 0, 1, 1, 0, calls)


def range_node_plain(first, last, size, worker, workers, fill, calls):
    return take(RangeNodeSampler(first, last, size, worker, workers, fill), calls)


def range_node_plain_spec(first, last, size, worker, workers, fill, calls):
    return ids(first, last, size, worker, workers, fill, 1, 0, calls)


def range_edge_plain(first, last, size, worker, workers, fill, calls, etype):
    return take(RangeEdgeSampler(etype, first, last, size, worker, workers, fill), calls)


def range_edge_plain_spec(first, last, size, worker, workers, fill, calls, etype):
    return range_edge_spec(first, last, size, worker, workers, fill, 1, 0, calls, etype)


def table_plain(path, size, calls):
    return take(CSVNodeSampler(size, path), calls)


def table_plain_spec(path, size, calls):
    return table_spec(path, size, 1, 1, 0, calls)


def graph_nodes_plain(graph: Graph, types, size, epochs: "count", calls):
    return take(GENodeSampler(graph, types, size, epochs), calls)


def graph_nodes_plain_spec(graph: Graph, types, size, epochs: "count", calls):
    return graph_nodes_spec(graph, types, size, epochs, -1, 1, SamplingStrategy.Weighted, 1, 0, calls)


def graph_edges_plain(graph: Graph, types, size, epochs: "count", calls):
    return take(GEEdgeSampler(graph, types, size, epochs), calls)


def graph_edges_plain_spec(graph: Graph, types, size, epochs: "count", calls):
    return graph_edges_spec(graph, types, size, epochs, -1, 1, SamplingStrategy.Weighted, 1, 0, calls)


def node_moved(path, size, loaders, loader, calls):
    sampler = FileNodeSampler(path, size)
    sampler.data_parallel_num = loaders
    sampler.data_parallel_index = loader
    assert_same(sampler.data_parallel_num, loaders)
    assert_same(sampler.data_parallel_index, loader)
    return take(sampler, calls)


def assert_same(a, b):
    assert a == b


def node_moved_spec(path, size, loaders, loader, calls):
    return node_spec(path, size, 1, False, False, -1, 0, 1, loaders, loader, calls)


def again(sampler, calls):
    it = iter(sampler)
    for b in range(3):
        next(it)
    return take(sampler, calls)


def node_again(path, size, calls):
    return again(FileNodeSampler(path, size), calls)


def node_again_spec(path, size, calls):
    nodes = nodes_of(path, 0, 1)
    batches([nodes], [-1], size, 1, False, False, 1, 0, 3)
    return batches([nodes], [-1], size, 1, False, False, 1, 0, calls)


def range_node_again(first, last, size, worker, workers, fill, calls):
    return again(RangeNodeSampler(first, last, size, worker, workers, fill), calls)


def range_node_again_spec(first, last, size, worker, workers, fill, calls):
    ids(first, last, size, worker, workers, fill, 1, 0, 3)
    return ids(first, last, size, worker, workers, fill, 1, 0, calls)


def table_again(path, size, calls):
    return again(CSVNodeSampler(size, path), calls)


def table_again_spec(path, size, calls):
    rows = rows_of(path)
    rows_in(rows, size, 1, 1, 0, 3)
    return rows_in(rows, size, 1, 1, 0, calls)


def graph_nodes_again(graph: Graph, types, size, epochs: "count", calls):
    return again(GENodeSampler(graph, types, size, epochs), calls)


def graph_nodes_again_spec(graph: Graph, types, size, epochs: "count", calls):
    n = math.ceil(epochs * graph.node_count(types) / size)
    drawn_nodes(graph, types, size, n, SamplingStrategy.Weighted, 3)
    return drawn_nodes(graph, types, size, n, SamplingStrategy.Weighted, calls)


def graph_edges_again(graph: Graph, types, size, epochs: "count", calls):
    return again(GEEdgeSampler(graph, types, size, epochs), calls)


def graph_edges_again_spec(graph: Graph, types, size, epochs: "count", calls):
    n = math.ceil(epochs * graph.edge_count(types) / size)
    drawn_edges(graph, types, size, n, SamplingStrategy.Weighted, 3)
    return drawn_edges(graph, types, size, n, SamplingStrategy.Weighted, calls)
'''
TEXT = '''
import random
from deepgnn.graph_engine.samplers import TextFileSampler
from deepgnn.graph_engine._adl_reader import TextFileIterator
from deepgnn.graph_engine._base import get_fs


def files(path, worker, workers, shuffle):
    return TextFileIterator(path, worker_index=worker, num_workers=workers, shuffle=shuffle).files


def listed(path):
    fs, _ = get_fs(path)
    if fs.isfile(path):
        return [path]
    return [f if isinstance(f, str) else f["name"] for f in fs.ls(path)]


def files_spec(path, worker, workers, shuffle):
    found = listed(path)
    if len(found) < workers:
        raise RuntimeError()
    found = sorted(found)
    mine = [found[i] for i in range(worker, len(found), workers)]
    if shuffle:
        random.shuffle(mine)
    return mine


def files_sliced(path, worker, workers, shuffle):
    mine = sorted(listed(path))[worker::workers]
    if shuffle:
        random.shuffle(mine)
    return mine


def files_bounded(path, worker, workers, shuffle):
    mine = [f for i, f in enumerate(sorted(listed(path))) if i % workers == worker]
    if shuffle:
        random.shuffle(mine)
    return mine


class Reader:
    def __init__(self, batches, k):
        self.batches = batches
        self.k = k

    def __next__(self):
        if self.k >= len(self.batches):
            raise StopIteration
        b = [self.batches[self.k].first] + list(self.batches[self.k])
        self.k += 1
        return b

    def reset(self):
        self.k = 0

    def join(self):
        pass


def made(store, path, config, size, room, epochs, shuffle, drop, worker, workers, block, queue, loaders, loader):
    TextFileSampler(store, path, adl_config=config, batch_size=size, buffer_size=room, epochs=epochs, shuffle=shuffle, drop_last=drop, worker_index=worker,
        num_workers=workers, read_block_in_M=block, buffer_queue_size=queue, data_parallel_num=loaders, data_parallel_index=loader)


def made_spec(store, path, config, size, room, epochs, shuffle, drop, worker, workers, block, queue, loaders, loader):
    reader(path, store, config, size, epochs, block, queue, worker * loaders + loader, workers * loaders, shuffle, drop)


def made_plain(store, path):
    TextFileSampler(store, path)


def made_plain_spec(store, path):
    reader(path, store, None, 512, 1, 50, 3, 0, 1, False, False)


def reader():
    pass


def rest(path, held: "list", size, room, shuffle):
    return one(path, held, True, size, room, shuffle)


def rest_spec(path, held: "list", size, room, shuffle):
    return one_spec(path, held, True, size, room, shuffle)


def more(path, held: "list", size, room, shuffle):
    return one(path, held, False, size, room, shuffle)


def more_spec(path, held: "list", size, room, shuffle):
    return one_spec(path, held, False, size, room, shuffle)


def one(path, held: "list", over, size, room, shuffle):
    s = TextFileSampler("", path, batch_size=size, buffer_size=room, shuffle=shuffle)
    s.buf = list(held)
    s.end = over
    return next(s), s.buf, s.end


def one_spec(path, held: "list", over, size, room, shuffle):
    rest = list(held)
    if room < 3 * size:
        room = 3 * size
    if over and len(rest) == 0:
        raise StopIteration
    more = False
    r = pending()
    while not over and len(rest) < room:
        try:
            rest.extend(next(r))
            more = True
        except StopIteration:
            over = True
            break
    if len(rest) == 0:
        raise StopIteration
    if shuffle and more:
        random.shuffle(rest)
    b = rest[:size]
    return b + [""] * (size - len(b)), rest[size:], over


def pending():
    pass


class Broken(Reader):
    def __next__(self):
        raise OSError


def failing(path, line):
    s = TextFileSampler("", path, batch_size=1, buffer_size=3)
    s.buf = [line]
    s.end = False
    return next(s)


def failing_spec(path, line):
    raise OSError


def anew(path, held: "list", over, size, room):
    s = TextFileSampler("", path, batch_size=size, buffer_size=room)
    s.buf = list(held)
    s.end = over
    it = iter(s)
    return it.buf, it.end, it is s, s.file_iter.k


def anew_spec(path, held: "list", over, size, room):
    return [], False, True, 0


def first(path, size, room):
    s = TextFileSampler("", path, batch_size=size, buffer_size=room)
    return s.buf, s.end


def first_spec(path, size, room):
    return [], False
'''
KINDS_ = {
    "node": ("FileNodeSampler", "nodes of files"),
    "edge": ("FileEdgeSampler", "edges of files"),
    "edge_features": ("FileEdgeSampler", "edges with features"),
    "edge_numbers": ("FileEdgeSampler", "edges with numbers"),
    "pair": ("FileTupleSampler", "pairs of a file"),
    "record": ("FileTupleSamplerV2", "records of a file"),
    "range_node": ("RangeNodeSampler", "ids of a range"),
    "range_edge": ("RangeEdgeSampler", "edges of a range"),
    "table": ("CSVNodeSampler", "rows of a table"),
    "graph_nodes": ("GENodeSampler", "nodes of a graph"),
    "graph_edges": ("GEEdgeSampler", "edges of a graph"),
}


WAYS = {"plain": "by default", "moved": "after changing the loader", "again": "in a second pass"}
MORE = [n + "_plain" for n in KINDS_ if n != "edge_numbers"] + ["node_moved", "node_again", "range_node_again", "table_again", "graph_nodes_again", "graph_edges_again"]


def kind_of(c, name):
    base, _, way = name.rpartition("_")
    cls, what = KINDS_[name] if name in KINDS_ else KINDS_[base]
    if name not in KINDS_:
        what += " " + WAYS[way]
    k = c.prog.need_class(S, cls)
    m = source(c, DRV)
    h = {}
    ext = lambda q: "_base.Graph." in q
    a, b = run_driver(c, m, name, hooks=h, extern=ext), run_driver(c, m, name + "_spec", hooks=h, extern=ext)
    loc = floc(k.find("__iter__"))
    free = source(c, "\n".join(x for x in DRV.split("\n") if x.strip() not in OPTIONAL))
    f = run_driver(c, free, name + "_spec", hooks=h, extern=ext)
    norm = canon if not name.startswith("record") else lambda t: canon(rewrite(t, has_rows))
    ra, rb = norm(rejections(a)), norm(rejections(b))
    c.equal("stops", what, ra, rb, loc, alt=(norm(rejections(f)),))
    ga, gb = norm(a.ret), norm(b.ret)
    for rule, i in (("announced", ZERO), ("batches", ONE)):
        c.equal(rule, what, ite(or_(ra, rb), NONE, seq_idx(ga, i)), ite(or_(ra, rb), NONE, seq_idx(gb, i)), loc, known=("$scat", "np.empty", "np.random.permutation"))


READER = ("filename", "store_name", "adl_config", "batch_size", "epochs", "read_block_in_M", "buffer_queue_size", "worker_index", "num_workers", "shuffle", "drop_last")


def text(c):
    """Batches of lines: what the reader of the files is asked for, and what is made of its lines."""
    k = c.prog.need_class(S, "TextFileSampler")
    init = c.prog.need_class(GE + "._adl_reader", "TextFileIterator").find("__init__")
    m = source(c, TEXT)

    def opened(fl, cls, b, args, kw, node):
        fa, fk = fl.norm_args(init, tuple(fl.fz(a) for a in args), tuple(sorted((n, fl.fz(v)) for n, v in kw.items())), True)
        names = [a.arg for a in init.node.args.args[1:]]
        given = dict(zip(names, fa))
        given.update(fk)
        dflt = dict(zip(names[len(names) - len(init.node.args.defaults):], init.node.args.defaults))
        put_log(fl, "reader", "open", *[given[n] if n in given else const(ast.literal_eval(dflt[n])) if n in dflt else mk("absent", n) for n in READER])
        return pending(fl, node)

    def pending(fl, node):
        return fl.construct(m.classes["Broken" if fl.frames[0].func.name == "failing" else "Reader"], [mk("sym", "batches"), mk("sym", "done")], {}, node)

    def wanted(fl, f, b, args, kw, node):
        put_log(fl, "reader", "open", *[fl.fz(a) for a in args])
        return NONE

    loc = floc(c.prog.need_class(GE + "._adl_reader", "TextFileIterator").find("get_worker_files"))
    for single, what in ((TRUE, "a text file"), (FALSE, "text files of a worker")):
        f = {".isfile": lambda fl, b, args, kw, node: single}
        a, b = run_driver(c, m, "files", hooks=f), run_driver(c, m, "files_spec", hooks=f)
        others = tuple(canon(run_driver(c, m, n, hooks=f).ret) for n in ("files_sliced", "files_bounded"))
        c.equal("stops", what, canon(rejections(a)), canon(rejections(b)), loc)
        c.equal("batches", what, canon(a.ret), canon(b.ret), loc, alt=others)
    h = {"new:TextFileIterator": opened, "reader": wanted, "pending": lambda fl, f, b, args, kw, node: pending(fl, node)}
    loc = floc(k.find("__init__"))
    for n, what in (("made", "lines of files"), ("made_plain", "lines of files by default")):
        a, b = run_driver(c, m, n, hooks=h), run_driver(c, m, n + "_spec", hooks=h)
        c.equal("reader", what, log_of(a, "reader"), log_of(b, "reader"), loc)
    loc = floc(k.find("__next__"))
    for n, what in (("rest", "last lines of files"), ("more", "lines of files"), ("failing", "lines of files that cannot be read"), ("anew", "lines of files in a second pass"), ("first", "lines of files in the first pass")):
        a, b = run_driver(c, m, n, hooks=h), run_driver(c, m, n + "_spec", hooks=h)
        ra, rb = rejections(a), rejections(b)
        c.equal("stops", what, ra, rb, loc, short=(ra, rb))
        c.equal("batches", what, ite(or_(ra, rb), NONE, a.ret), ite(or_(ra, rb), NONE, b.ret), loc, short=(a.ret, b.ret))


# inputs without any example may be rejected or give no batch
OPTIONAL = ("assert n > 0", "for c in columns:", "assert len(c) == n")


def has_rows(x):
    """A record sampler needs a first line to know its columns: it has one."""
    if x.op == "exists" and x.args[2].op == "eq" and contains(x.args[2], lambda z: z.op == "mod"):
        return TRUE
    if x.op == "lt" and x.args[0].op == "psum" and x.args[1] is ONE:
        return FALSE
    return x


def run(c):
    c.rule("announced", "number of batches a sampler announces")
    c.rule("batches", "contents of every batch of every loader of every worker")
    c.rule("stops", "when a sampler stops or rejects its input")
    for n in KINDS_:
        c.clause("batches", KINDS_[n][1], kind_of, n)
    for n in MORE:
        c.clause("batches", n, kind_of, n)
    c.rule("reader", "what the reader of text files is asked for")
    c.clause("batches", "lines of files", text)
    c.floor("reader", 2)
    c.floor("announced", 20)
    c.floor("batches", 20)
    c.floor("stops", 20)
