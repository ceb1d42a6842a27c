"""Where a graph's files come from: fetching remote partitions, starting and stopping a server, reading remote metadata."""
from .common import *
from .native import *

DRV = '''
import ctypes
import json
import os
import platform
import tempfile
from fsspec.implementations.local import LocalFileSystem
from deepgnn.graph_engine._base import get_fs
from deepgnn.graph_engine.snark._downloader import download_graph_data, GraphPath
from deepgnn.graph_engine.snark.meta import Meta, download_meta
from deepgnn.graph_engine.snark.server import Server
from deepgnn.graph_engine.snark.client import PartitionStorageType


def send(name, *args):
    pass


def ok(status):
    if status != 0:
        raise Exception()


def classpath(config):
    pass


class TempDir:
    def __init__(self, *args, **kw):
        self.name = fresh_dir()

    def __enter__(self):
        return self.name

    def __exit__(self, a, b, c):
        self.cleanup()

    def cleanup(self):
        removed(self.name)


def fresh_dir():
    pass


def removed(name):
    pass


# ---- fetching
def fetch(path, parts: "list"):
    place = download_graph_data(path, parts)
    return place, parts


def fetch_spec(path, parts: "list"):
    fs, _ = get_fs(path)
    if isinstance(fs, LocalFileSystem):
        return GraphPath(path), parts
    place = tempfile.TemporaryDirectory()
    fs.get(fs.sep.join([path, "meta.json"]), os.path.sep.join([place.name, "meta.json"]))
    meta = Meta(place.name)
    for i in range(len(parts)):
        at, number = parts[i]
        fs, _ = get_fs(at)
        if isinstance(fs, LocalFileSystem):
            continue
        fs.get([fs.sep.join([at, n.format(number)]) for n in ["node_{}_*.map", "node_{}_*.index", "edge_{}_*.index", "neighbors_{}_*.index"]], place.name)
        fs.get([fs.sep.join([at, n.format(number)]) for n in ["node_*_{}.alias", "edge_*_{}.alias"]], place.name)
        if meta.watermark >= 0:
            fs.get(fs.sep.join([at, "edge_{}_*.timestamp".format(number)]), place.name)
        if meta._node_feature_count > 0:
            fs.get([fs.sep.join([at, n.format(number)]) for n in ["node_features_{}_*.index", "node_features_{}_*.data"]], place.name)
        if meta._edge_feature_count > 0:
            fs.get([fs.sep.join([at, n.format(number)]) for n in ["edge_features_{}_*.index", "edge_features_{}_*.data"]], place.name)
        parts[i] = (place.name, number)
    return GraphPath(place), parts


def place_name(path):
    return GraphPath(path).name


def place_name_spec(path):
    return path.name if isinstance(path, tempfile.TemporaryDirectory) else path


def place_reset(path):
    GraphPath(path).reset()


def place_reset_spec(path):
    if isinstance(path, tempfile.TemporaryDirectory):
        path.cleanup()


# ---- remote metadata
def meta_at(path, dest, config):
    return download_meta(path, dest, config)


def meta_at_spec(path, dest, config):
    if path.startswith("hdfs://") or path.startswith("adl://") or path.startswith("file:///"):
        classpath(config)
        ok(send("HDFSMoveMeta", bytes(os.path.sep.join([path, "meta.json"]), "utf-8"), bytes(os.path.sep.join([dest, "meta.json"]), "utf-8"), bytes(config, "utf-8")))
        return os.path.sep.join([dest, "meta.json"])
    return os.path.sep.join([path, "meta.json"])


def read_meta(path, config):
    m = Meta(path, config)
    return (m.version, m.node_count, m.edge_count, m.node_type_count, m.edge_type_count, m._node_feature_count, m._edge_feature_count, m.partition_count,
            m._node_weights, m._edge_weights, m.node_count_per_type, m.edge_count_per_type, m.watermark)


def read_meta_spec(path, config):
    try:
        with open(download_meta(path, tempfile.TemporaryDirectory().name, config), "r") as f:
            d = json.load(f)
    except FileNotFoundError:
        raise FileNotFoundError()
    if d["binary_data_version"][0] != "v":
        raise RuntimeError()
    nodes = [0.0] * d["node_type_count"]
    edges = [0.0] * d["edge_type_count"]
    for p in d["partitions"]:
        for i in range(d["node_type_count"]):
            nodes[i] += d["partitions"][p]["node_weight"][i]
        for i in range(d["edge_type_count"]):
            edges[i] += d["partitions"][p]["edge_weight"][i]
    return (d["binary_data_version"], d["node_count"], d["edge_count"], d["node_type_count"], d["edge_type_count"], d["node_feature_count"], d["edge_feature_count"], len(d["partitions"]),
            nodes, edges, d["node_count_per_type"], d["edge_count_per_type"], d["watermark"])


# ---- server
def serve(path: str, parts, host, ssl, storage, config, stream, nofeatures, notimes):
    Server(path, parts, host, ssl, storage, config, stream, nofeatures, notimes)


def serve_plain(path: str, parts, host):
    Server(path, parts, host)


def serve_spec(path: str, parts, host, ssl, storage, config, stream, nofeatures, notimes):
    if storage == PartitionStorageType.disk and stream:
        raise ValueError()
    if parts is None:
        parts = [(path, 0)]
    located = []
    for p in parts:
        if isinstance(p, int):
            located.append((path, p))
        else:
            assert len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], int)
            located.append((p[0], p[1]))
    if path.startswith("hdfs://") or path.startswith("adl://") or path.startswith("file:///"):
        classpath(config)
    place = GraphPath(path) if stream else download_graph_data(path, located)
    numbers = (ctypes.c_uint32 * len(located))()
    for i in range(len(located)):
        numbers[i] = located[i][1]
    places = (ctypes.c_char_p * len(located))()
    for i in range(len(located)):
        places[i] = bytes(located[i][0], "utf-8")
    ok(send("StartServer", "server", bytes(place.name, "utf-8"), len(located), numbers, places, bytes(host, "utf-8"),
            None if ssl is None else bytes(ssl["ssl_key"], "utf-8"), None if ssl is None else bytes(ssl["ssl_cert"], "utf-8"), None if ssl is None else bytes(ssl["ssl_root"], "utf-8"),
            storage, bytes(config, "utf-8"), nofeatures, notimes))


def serve_plain_spec(path: str, parts, host):
    serve_spec(path, parts, host, None, PartitionStorageType.memory, "", False, False, False)


def stop(path: str, parts, host):
    Server(path, parts, host).reset()


def stop_spec(path: str, parts, host):
    located = []
    if parts is None:
        parts = [(path, 0)]
    for p in parts:
        if isinstance(p, int):
            located.append((path, p))
        else:
            assert len(p) == 2 and isinstance(p[0], str) and isinstance(p[1], int)
            located.append((p[0], p[1]))
    if path.startswith("hdfs://") or path.startswith("adl://") or path.startswith("file:///"):
        classpath("")
    place = download_graph_data(path, located)
    ok(send("ResetServer", "server"))
    place.reset()
'''


KNOWN = ("stay", "download", "place of", "metadata", ".split", ".strip")


def build(c):
    h = Header(c.prog.repo)
    return source(c, native_text(h) + DRV), h


def h_stay(fl, cls, b, args, kw, node):
    return mk("call", "stay", (fl.fz(args[0] if args else kw["path"]),), (), NONE)


def h_download(fl, f, b, args, kw, node):
    """Partitions that were fetched are found at another place afterwards."""
    path = fl.fz(args[0] if args else kw["path"])
    parts = args[1] if len(args) > 1 else kw["partitions"]
    old = pairs(fl.fz(parts))
    h = 1 + height(old)
    i = bv(h)
    x = seq_idx(old, i)
    fl.set_content(parts, mk_flat(seq_len(old), h, mk("list", mk("tuple", mk("call", "place of", (path, old, i), (), NONE), seq_idx(x, ONE)))))
    return mk("call", "download", (path, old), (), NONE)


def h_classpath(fl, f, b, args, kw, node):
    put_log(fl, "native", "classpath", fl.fz((list(args) + list(kw.values()))[0]))
    return NONE


def tempdirs(m):
    return {
        "tempfile.TemporaryDirectory": lambda fl, f, b, a, kw, n: fl.construct(m.classes["TempDir"], [], {}, n), "fresh_dir": lambda fl, f, b, a, kw, n: mk("sym", "fresh dir"),
        "removed": lambda fl, f, b, a, kw, n: put_log(fl, "native", "removed", fl.fz(a[0])) or NONE,
    }


def serving(c, m, h, name, quiet=()):
    lib = Lib(c, m, h, quiet=quiet)
    hooks = lib.hooks()
    hooks.update(tempdirs(m))
    hooks.update({"new:GraphPath": h_stay, "download_graph_data": h_download, "_set_hadoop_classpath": h_classpath, "classpath": h_classpath, ".reset": log_method("native", "reset")})
    fl = run_driver(c, m, name, hooks=hooks)
    fl.lib = lib
    return fl


# ---- fetching: every single file as one entry, in no particular order
def each(seq, f):
    if seq.op in ("list", "tuple"):
        return mk("list", *[f(x) for x in seq.args])
    if seq.op == "cat":
        return cat([each(x, f) for x in seq.args])
    if seq.op == "ite":
        return ite_seq(seq.args[0], each(seq.args[1], f), each(seq.args[2], f))
    if seq.op == "flat":
        return mk_flat(seq.args[0], seq.args[1], each(seq.args[2], f))
    if kind(seq) == "str" or seq.op in ("fmt", "call", "const"):
        return mk("list", f(seq))
    h = 1 + height(seq)
    return mk_flat(seq_len(seq), h, mk("list", f(seq_idx(seq, bv(h)))))


def h_get(fl, b, args, kw, node):
    a = list(args) + [kw.get("rpath"), kw.get("lpath")][len(args):]
    what, to = fl.fz(a[0]), fl.fz(a[1])
    at = fl.fz(b)
    key = ("h", mk("call", "open", (const("calls of fetch"), const("wb")), (), ONE), "$out")
    fl.setv(key, cat([fl.getv(key), each(what, lambda x: mk("call", "fetched", (at, x, to), (), NONE))]))
    fl.emit("call", ".get", (at, what, to), (), b, NONE, node)
    return NONE


def bag_items(seq):
    items = {}

    def go(x, g):
        if x.op == "list":
            for y in x.args:
                o = items.get(y.dig)
                items[y.dig] = (y, or_(o[1], g) if o else g)
        elif x.op == "cat":
            for y in x.args:
                go(y, g)
        elif x.op == "ite":
            go(x.args[1], and_(g, x.args[0]))
            go(x.args[2], and_(g, not_(x.args[0])))
        elif x.op == "flat":
            D, h, body = x.args
            for y, g2 in bag_items(body):
                z = mk_flat(D, h, ite_seq(g2, y if y.op == "flat" else mk("list", y), mk("list")))
                o = items.get(z.dig)
                items[z.dig] = (z, or_(o[1], g) if o else g)
        else:
            items[x.dig] = (x, g)

    go(seq, TRUE)
    return [(y, g) for _, (y, g) in sorted(items.items())]


def bag(seq):
    """The entries of a log in no particular order, each with the condition under which it is there."""
    return mk("tuple", *[mk("tuple", g, y) for y, g in bag_items(seq)])


def fetching(c, m, h, name):
    hooks = tempdirs(m)
    hooks.update({"new:Meta": lambda fl, cls, b, a, kw, n: mk("call", "metadata", (fl.fz(a[0]),), (), NONE), "new:GraphPath": h_stay, ".get": h_get,
                  "get_fs": lambda fl, f, b, a, kw, n: mk("tuple", mk("call", "file system of", (fl.fz(a[0]),), (), NONE), NONE)})
    return run_driver(c, m, name, hooks=hooks)


def fetched(c, m, h):
    loc = floc(c.prog.need_func(SN + "._downloader", "download_graph_data"))
    a, b = fetching(c, m, h, "fetch"), fetching(c, m, h, "fetch_spec")
    c.equal("fetched", "files of remote partitions", bag(log_of(a, "fetch")), bag(log_of(b, "fetch")), loc, known=KNOWN)
    c.equal("fetched", "places of partitions", a.ret, b.ret, loc, known=KNOWN)
    for n, what in (("place_name", "folder of a graph"), ("place_reset", "removal of fetched files")):
        hooks = {".cleanup": log_method("native", "cleanup")}
        a, b = run_driver(c, m, n, hooks=hooks), run_driver(c, m, n + "_spec", hooks=hooks)
        c.equal("fetched", what, mk("tuple", a.ret, log_of(a, "native")), mk("tuple", b.ret, log_of(b, "native")), loc)


def same_log(c, rule, what, a, b, loc):
    c.equal(rule, what, canon(log_of(a, "native")), canon(log_of(b, "native")), loc, known=KNOWN)
    c.equal("refused", what, canon(rejections(a)), canon(rejections(b)), loc)


def served(c, m, h):
    k = c.prog.need_class(SN + ".server", "Server")
    loc = floc(k.find("__init__"))
    for n, what in (("serve", "server"), ("serve_plain", "server by default")):
        same_log(c, "served", what, serving(c, m, h, n), serving(c, m, h, n + "_spec"), loc)
    same_log(c, "served", "stopped server", serving(c, m, h, "stop", ("StartServer",)), serving(c, m, h, "stop_spec"), floc(k.find("reset")))


def described(c, m, h):
    a, b = serving(c, m, h, "meta_at"), serving(c, m, h, "meta_at_spec")
    loc = floc(c.prog.need_func(SN + ".meta", "download_meta"))
    same_log(c, "described", "remote metadata", a, b, loc)
    c.equal("described", "place of metadata", a.ret, b.ret, loc)
    k = c.prog.need_class(SN + ".meta", "Meta")
    a, b = (run_driver(c, m, n, hooks=dict(tempdirs(m), **{"download_meta": h_local})) for n in ("read_meta", "read_meta_spec"))
    names = ("version", "number of nodes", "number of edges", "node types", "edge types", "node features", "edge features", "partitions", "node weights", "edge weights", "nodes per type", "edges per type", "watermark")
    for i, n in enumerate(names):
        c.equal("described", n, seq_idx(a.ret, const(i)), seq_idx(b.ret, const(i)), floc(k.find("__init__")))
    c.equal("refused", "metadata", present(a), present(b), floc(k.find("__init__")))


def present(fl):
    """Rejections when the file is there."""
    return canon(rewrite(rejections(fl), lambda x: FALSE if x.op == "exc" else x))


def h_local(fl, f, b, args, kw, node):
    fa, fk = fl.norm_args(fl.FUNCS[f.dig][0], tuple(fl.fz(a) for a in args), tuple(sorted((k, fl.fz(v)) for k, v in kw.items())), False)
    return mk("call", "metadata file", fa, fk, NONE)


def run(c):
    m, h = build(c)
    c.clause("served", "server", served, m, h)
    c.clause("described", "remote metadata", described, m, h)
    c.clause("fetched", "files of remote partitions", fetched, m, h)
    c.floor("served", 3)
    c.floor("described", 14)
    c.floor("fetched", 4)
    c.rule("served", "a server is started for exactly the requested partitions, places, address, certificates, storage and switches, and stopped together with its fetched files")
    c.rule("described", "metadata is read from where it lies and every figure comes from its own field")
    c.rule("fetched", "every file the loader may open is fetched from the partition's own file system, and the partition is looked for where it was fetched to")
    c.rule("refused", "exactly the malformed requests are refused")
