"""The conversion pipeline around the writers: worker, dispatchers, converter, merger."""
from vlib import terms as TT

from .common import *

DSP = SN + ".dispatcher"
WORKER = '''
from multiprocessing.connection import Connection
from deepgnn.graph_engine.snark.converter.process import (
    converter_process, FLAG_ALL_DONE, FLAG_WORKER_FINISHED_PROCESSING,
)
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter


def code(q_in, q_out, folder, suffix, decoder, skip_node, skip_edge, watermark):
    converter_process(q_in, q_out, folder, suffix, decoder, skip_node, skip_edge, watermark)


def spec(q_in, q_out, folder, suffix, decoder, skip_node, skip_edge, watermark):
    if isinstance(decoder, type):
        decoder = decoder()
    w = BinaryWriter(str(folder), suffix, skip_node, skip_edge, watermark)
    while True:
        if type(q_in) == Connection:
            line = q_in.recv()
        else:
            line = q_in.get()
        if line == FLAG_ALL_DONE:
            break
        w.add(decoder.decode(line))
    w.close()
    q_out.put((FLAG_WORKER_FINISHED_PROCESSING, {
        "node_count": w.node_count,
        "edge_count": w.edge_count,
        "node_type_count": w.node_type_num,
        "edge_type_count": w.edge_type_num,
        "node_feature_count": w.node_feature_count,
        "edge_feature_count": w.edge_feature_count,
        "partition": {
            "id": suffix,
            "node_weight": w.node_weight,
            "node_type_count": w.node_type_count,
            "edge_weight": w.edge_weight,
            "edge_type_count": w.edge_type_count,
        },
    }))
'''

SPAWN = '''
import multiprocessing as mp
import os
import threading
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher, QueueDispatcher
from deepgnn.graph_engine.snark.converter.process import converter_process, FLAG_ALL_DONE, FLAG_WORKER_FINISHED_PROCESSING

KEYS = ("node_count", "edge_count", "node_type_num", "edge_type_num", "node_feature_count", "edge_feature_count")


def pipe(folder, n: "count", decoder, process: "optional", offset, use_threads, skip_node, skip_edge, watermark, lines):
    d = PipeDispatcher(folder, n, decoder, process, offset, use_threads, skip_node, skip_edge, watermark)
    for line in lines:
        d.dispatch(line)
    d.join()
    return {
        "node_count": d.prop("node_count"),
        "edge_count": d.prop("edge_count"),
        "node_type_num": d.prop("node_type_num"),
        "edge_type_num": d.prop("edge_type_num"),
        "node_feature_count": d.prop("node_feature_count"),
        "edge_feature_count": d.prop("edge_feature_count"),
        "partitions": d.prop("partitions"),
    }


def pipe_spec(folder, n: "count", decoder, process: "optional", offset, use_threads, skip_node, skip_edge, watermark, lines):
    process = process or converter_process
    make = threading.Thread if use_threads else mp.Process
    pipes = [mp.Pipe(False) for _ in range(n)]
    replies = mp.Queue(n)
    workers = [
        make(target=process, args=(pipes[i][0], replies, folder, i + offset, decoder, skip_node, skip_edge, watermark))
        for i in range(n)
    ]
    for w in workers:
        w.start()
    for i, line in enumerate(lines):
        pipes[i % n][1].send(line)
    for i in range(n):
        pipes[i][1].send(FLAG_ALL_DONE)
    return gather(range(n), replies, folder, skip_node, skip_edge)


def queue(folder, n: "count", func, decoder, process: "optional", offset, use_threads, skip_node, skip_edge, watermark, lines):
    d = QueueDispatcher(folder, n, func, decoder, process, offset, use_threads, skip_node, skip_edge, watermark)
    for line in lines:
        d.dispatch(line)
    d.join()
    return {
        "node_count": d.prop("node_count"),
        "edge_count": d.prop("edge_count"),
        "node_type_num": d.prop("node_type_num"),
        "edge_type_num": d.prop("edge_type_num"),
        "node_feature_count": d.prop("node_feature_count"),
        "edge_feature_count": d.prop("edge_feature_count"),
        "partitions": d.prop("partitions"),
    }


def queue_spec(folder, n: "count", func, decoder, process: "optional", offset, use_threads, skip_node, skip_edge, watermark, lines):
    process = process or converter_process
    make = threading.Thread if use_threads else mp.Process
    queues = [mp.Queue(2) for _ in range(n)]
    replies = mp.Queue(n)
    workers = [
        make(target=process, args=(queues[i], replies, folder, i + offset, decoder, skip_node, skip_edge, watermark))
        for i in range(n)
    ]
    for w in workers:
        w.start()
    used = set()
    for line in lines:
        p = func(line)
        queues[p].put(line)
        used.add(p)
    for i in used:
        queues[i].put(FLAG_ALL_DONE)
    return gather(used, replies, folder, skip_node, skip_edge)


def gather(used, replies, folder, skip_node, skip_edge):
    nodes, edges, nt, et, nf, ef = 0, 0, 0, 0, 0, 0
    parts = []
    for _ in used:
        flag, out = replies.get()
        assert flag == FLAG_WORKER_FINISHED_PROCESSING
        nodes += out["node_count"]
        edges += out["edge_count"]
        nt = max(nt, out["node_type_count"])
        et = max(et, out["edge_type_count"])
        nf = max(nf, out["node_feature_count"])
        ef = max(ef, out["edge_feature_count"])
        parts.append(out["partition"])
    for p in parts:
        a = len(p["node_type_count"])
        b = len(p["edge_type_count"])
        p["node_type_count"].extend([0] * (nt - a))
        p["node_weight"].extend([0] * (nt - a))
        p["edge_type_count"].extend([0] * (et - b))
        p["edge_weight"].extend([0] * (et - b))
        if not skip_node:
            for tp in range(a, nt):
                open(os.path.join(folder, f"node_{tp}_{p['id']}.alias"), "wb").close()
        if not skip_edge:
            for tp in range(b, et):
                open(os.path.join(folder, f"edge_{tp}_{p['id']}.alias"), "wb").close()
    return {
        "node_count": nodes,
        "edge_count": edges,
        "node_type_num": nt,
        "edge_type_num": et,
        "node_feature_count": nf,
        "edge_feature_count": ef,
        "partitions": parts,
    }
'''


def worker(c):
    m = source(c, WORKER)
    k = c.prog.need_class(SN + ".converter.writers", "BinaryWriter")
    hooks = {".put": log_method("worker", "put", NONE)}
    hooks.update(writer_hooks(c))
    return run_driver(c, m, "code", hooks=hooks), run_driver(c, m, "spec", hooks=hooks)


COUNTERS = (
    "node_count", "edge_count", "node_type_num", "edge_type_num", "node_feature_count", "edge_feature_count",
    "node_weight", "edge_weight", "node_type_count", "edge_type_count",
)


def writer_hooks(c):
    """A partition writer whose calls are logged; its counters read after closing differ from those read before."""
    k = c.prog.need_class(SN + ".converter.writers", "BinaryWriter")
    mine = lambda r: r.op == "call" and r.args[0] == "BinaryWriter"  # noqa: E731

    def made(fl, cls, b, args, kw, node):
        fa = tuple(fl.fz(a) for a in args)
        pa, pk = fl.norm_args(k.find("__init__"), fa, tuple(sorted((x, fl.fz(v)) for x, v in kw.items())), True)
        t = mk("call", "BinaryWriter", pa, pk, ONE)
        put_log(fl, "worker", "writer", t)
        fl.CLS[t.dig] = k
        return t

    log = log_method("worker", "close", NONE, mine)

    def close(fl, b, args, kw, node):
        r = log(fl, b, args, kw, node)
        if r is not None:
            for n in COUNTERS:
                fl.setv(("h", b, n), mk("call", "final " + n, (b,), (), NONE))
        return r

    add_ = log_method("worker", "add", NONE, mine)
    return {
        "new:BinaryWriter": made,
        k.find("add").qual: lambda fl, f, b, args, kw, node: add_(fl, b, args, kw, node),
        k.find("close").qual: lambda fl, f, b, args, kw, node: close(fl, b, args, kw, node),
    }


def dispatch(c, kind_):
    m = source(c, SPAWN)
    lo, lm = log_opened("empty tables")

    def ext(log):
        def h(fl, b, args, kw, node):
            if b.op == "obj":
                return None
            x = fl.fz(args[0])
            f = b.args[1] if b.op == "idx" and is_const(b.args[1]) else const("?")
            key = ("h", mk("call", "open", (const(f"calls of {log} {cval(f)}"), const("wb")), (), ONE), "$out")
            e = mk("list", mk("entry", "extend", fl.fz(b) if b.op not in ("idx", "attr") else b, x))
            fl.setv(key, cat([fl.getv(key), ite_seq(nonempty(x), e, mk("list"))]))
            return None

        return h

    hooks = {
        "multiprocessing.Process": log_ext("workers", "process"),
        "threading.Thread": log_ext("workers", "thread"),
        ".start": log_method("started", "start", NONE),
        ".send": log_method("sent", "send", NONE),
        ".put": log_method("sent", "put", NONE),
        ".open": lm,
        "open": lo,
        ".extend": ext("padding"),
    }
    return run_driver(c, m, kind_, hooks=hooks), run_driver(c, m, kind_ + "_spec", hooks=hooks)

CONVERT = '''
import json
import math
import fsspec
from deepgnn.graph_engine._base import get_fs
from deepgnn.graph_engine._adl_reader import TextFileIterator
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter
from deepgnn.graph_engine.snark.decoders import JsonDecoder
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher
from deepgnn.graph_engine.snark.meta import BINARY_DATA_VERSION


def code(graph, out, decoder, partitions, index, count, step, buffer, queue, threads, skip_node, skip_edge, watermark):
    MultiWorkersConverter(
        graph, out, decoder, partitions, index, count, step, buffer, queue, threads, None, skip_node, skip_edge, None, False, watermark
    ).convert()


def spec(graph, out, decoder, partitions, index, count, step, buffer, queue, threads, skip_node, skip_edge, watermark):
    if decoder is None:
        decoder = JsonDecoder()
    share = int(math.ceil(partitions / count))
    first = share * index
    if first + share > partitions:
        share = partitions - first
    fs, _ = get_fs(graph)
    use_threads = True
    if hasattr(fsspec.implementations, "hdfs") and isinstance(fs, fsspec.implementations.hdfs.PyArrowHDFS):
        use_threads = False
    d = PipeDispatcher(
        out, share, decoder, partition_offset=first, use_threads=use_threads,
        skip_node_sampler=skip_node, skip_edge_sampler=skip_edge, watermark=watermark,
    )
    if share <= 0:
        return
    it = TextFileIterator(
        filename=graph, store_name=None, batch_size=step, epochs=1, read_block_in_M=buffer, buffer_queue_size=queue,
        thread_count=threads, worker_index=index, num_workers=count,
    )
    finish(out, d, it, index, count, watermark)


class Some:
    pass


def given(out, index, count, partitions, watermark):
    d, it = Some(), Some()
    MultiWorkersConverter(
        "g", out, 1, partition_count=partitions, worker_index=index, worker_count=count, dispatcher=d, file_iterator=it, watermark=watermark
    ).convert()


def given_spec(out, index, count, partitions, watermark):
    d, it = Some(), Some()
    share = int(math.ceil(partitions / count))
    first = share * index
    if first + share > partitions:
        share = partitions - first
    if share <= 0:
        return
    finish(out, d, it, index, count, watermark)


def finish(out, d, it, index, count, watermark):
    for batch in it:
        for line in batch:
            d.dispatch(line)
    d.join()
    parts = sorted(d.prop("partitions"), key=lambda x: x["id"])
    edges = [0] * int(d.prop("edge_type_num"))
    nodes = [0] * int(d.prop("node_type_num"))
    weights = {}
    for p in parts:
        edges = [a + b for a, b in zip(edges, p["edge_type_count"])]
        nodes = [a + b for a, b in zip(nodes, p["node_type_count"])]
        i = p["id"] if isinstance(p, dict) else 0
        weights[f"{i}"] = {"node_weight": p["node_weight"], "edge_weight": p["edge_weight"]}
    save(out, index, count, watermark, d.prop, nodes, edges, weights)


def save(out, index, count, watermark, prop, nodes, edges, weights):
    fs, _ = get_fs(out)
    with fs.open("{}/meta{}.json".format(out, "" if count == 1 else f"_{index}"), "w") as f:
        f.write(json.dumps({
            "binary_data_version": BINARY_DATA_VERSION,
            "node_count": prop("node_count"),
            "edge_count": prop("edge_count"),
            "node_type_count": prop("node_type_num"),
            "edge_type_count": prop("edge_type_num"),
            "node_feature_count": prop("node_feature_count"),
            "edge_feature_count": prop("edge_feature_count"),
            "partitions": weights,
            "node_count_per_type": nodes,
            "edge_count_per_type": edges,
            "watermark": -1 if watermark is None else watermark,
        }))


def debug(out, decoder, count, watermark):
    it = Some()
    MultiWorkersConverter("g", out, decoder, worker_count=count, file_iterator=it, debug=True, watermark=watermark).convert()


def debug_spec(out, decoder, count, watermark):
    it = Some()
    if decoder is None:
        decoder = JsonDecoder()
    if isinstance(decoder, type):
        decoder = decoder()
    w = BinaryWriter(out, 0, watermark=watermark)
    for batch in it:
        for line in batch:
            w.add(decoder.decode(line))
    w.close()
    get = lambda k: getattr(w, k)
    weights = {"0": {"node_weight": w.node_weight, "edge_weight": w.edge_weight}}
    nodes = [0] * int(w.node_type_num)
    edges = [0] * int(w.edge_type_num)
    nodes = [a + b for a, b in zip(nodes, w.node_type_count)]
    edges = [a + b for a, b in zip(edges, w.edge_type_count)]
    save(out, 0, 1, watermark, get, nodes, edges, weights)
'''


def final(x):
    """A number or list a dispatcher or writer reports at the end: (what it belongs to, name)."""
    if x.op == "call" and x.args[0] == "prop" and len(x.args[1]) == 2 and is_const(x.args[1][1]):
        return x, str(cval(x.args[1][1]))
    if x.op == "call" and str(x.args[0]).startswith("final "):
        return x, x.args[0][6:]
    return None, ""


def reported(x):
    return final(x)[1] in ("node_count", "edge_count", "node_type_num", "edge_type_num", "node_feature_count", "edge_feature_count")


def per_type(x):
    """Lists of counts have an entry for every type (the padding is decided under gather)."""
    y, name = final(x)
    if y is not None and name in ("node_type_count", "edge_type_count") and y.args[0] != "prop":
        return mk("call", "int", (mk("call", "final " + name.replace("_count", "_num"), *y.args[1:]),), (), NONE)
    if x.op == "idx" and is_const(x.args[1]) and cval(x.args[1]) in ("node_type_count", "edge_type_count"):
        for z in subterms(x.args[0]):
            if final(z)[1] == "partitions":
                n = const(cval(x.args[1]).replace("_count", "_num"))
                return mk("call", "int", (mk("call", "prop", (z.args[1][0], n), z.args[2], z.args[3]),), (), NONE)
    return None


def convert(c, which):
    """The converter with the dispatcher left abstract: what it is given, and what is saved from it afterwards."""
    m = source(c, CONVERT)
    TT.COUNT_RULES[:] = [reported]
    TT.LEN_RULES[:] = [per_type]
    k = c.prog.need_class(DSP, "PipeDispatcher")
    clock = ("h", mk("ext", "dispatcher"), "$ver")

    def act(what):
        def h(fl, b, args, kw, node):
            put_log(fl, "dispatched", what, fl.fz(b), *[fl.fz(a) for a in args])
            fl.setv(clock, mk("joined") if what == "join" else mk("working"))
            return NONE

        return h

    def prop(fl, b, args, kw, node):
        a = fl.fz(args[0]) if args else fl.fz(kw["name"])
        return mk("call", "prop", (fl.fz(b), a), (), fl.getv(clock))

    meth = {"dispatch": act("dispatch"), "join": act("join"), "prop": prop}
    hooks = {}
    for n, h in meth.items():
        hooks["." + n] = (lambda n, h: lambda fl, b, args, kw, node: h(fl, b, args, kw, node) if n != "join" or b.op in ("sym", "inst") else None)(n, h)
        hooks[k.find(n).qual] = (lambda h: lambda fl, f, b, args, kw, node: h(fl, b, args, kw, node))(h)

    def ext(q):
        return q.endswith((".PipeDispatcher", ".TextFileIterator", ".JsonDecoder"))

    hooks.update(writer_hooks(c))
    hooks["decode"] = lambda fl, f, b, args, kw, node: mk("call", ".decode", (b, fl.fz(argument(f, args, kw, 0, "line"))), (), NONE)
    a = run_driver(c, m, which, hooks=hooks, extern=ext)
    b = run_driver(c, m, "spec" if which == "code" else which + "_spec", hooks=hooks, extern=ext)
    return a, b


def dumped(x):
    return x.op == "call" and x.args[0] == "json.dumps" and len(x.args[1]) == 1


def json_part(content, key):
    """Value stored under one key of a file that holds one JSON object."""

    def text(x):
        return lift(lambda d: entry(d, key), x.args[1][0]) if dumped(x) else x

    def f(x):
        if x.op == "list" and len(x.args) == 1 and all(dumped(y) for _, y in cases(x.args[0])):
            return lift(text, x.args[0])
        return x

    return lift(f, content)


def json_keys(content):
    out = []
    for _, x in cases(content):
        if x.op == "list" and len(x.args) == 1:
            for _, y in cases(x.args[0]):
                if dumped(y):
                    for _, d in cases(y.args[1][0]):
                        out += [k for k in dict_keys(d) if k not in out]
    return out


MERGE = '''
import json
import os
import re
from deepgnn.graph_engine._base import get_fs
from deepgnn.graph_engine.snark.meta_merger import Meta, merge, merge_metadata_files


def parse(fs, path):
    m = Meta(fs, path)
    return shape(m, m.get_partition)


def parse_spec(fs, path):
    m = load(fs, path)
    return shape(m, m.get)


def shape(m, get):
    parts, after = get(3)
    return {
        "version": m.version,
        "node_count": m.node_count,
        "edge_count": m.edge_count,
        "node_type_count": m.node_type_count,
        "edge_type_count": m.edge_type_count,
        "node_feature_count": m.node_feature_count,
        "edge_feature_count": m.edge_feature_count,
        "node_count_per_type": m.node_count_per_type,
        "edge_count_per_type": m.edge_count_per_type,
        "watermark": m.watermark,
        "partitions": parts,
        "next partition": after,
    }


class Loaded:
    def __init__(self, meta):
        self.version = meta["binary_data_version"]
        if self.version[0] != "v":
            raise RuntimeError("")
        self.node_count = meta["node_count"]
        self.edge_count = meta["edge_count"]
        self.node_type_count = meta["node_type_count"]
        self.edge_type_count = meta["edge_type_count"]
        self.node_feature_count = meta["node_feature_count"]
        self.edge_feature_count = meta["edge_feature_count"]
        self.node_count_per_type = meta["node_count_per_type"]
        self.edge_count_per_type = meta["edge_count_per_type"]
        self.watermark = meta["watermark"]
        self.rows = meta["partitions"]

    def get(self, offset):
        out = {}
        for j, i in enumerate(self.rows):
            out[f"{offset + j}"] = {
                "node_weight": [0.0 + self.rows[i]["node_weight"][k] for k in range(self.node_type_count)],
                "edge_weight": [0.0 + self.rows[i]["edge_weight"][k] for k in range(self.edge_type_count)],
            }
        return out, offset + len(self.rows)


def load(fs, path):
    with fs.open(path, "r") as f:
        return Loaded(json.load(f))


def combine(fs, out, metas):
    merge(fs, out, metas)


def combine_spec(fs, out, metas):
    for m in metas:
        assert m.version == metas[0].version
    parts = {}
    offset = 0
    for m in metas:
        data, offset = m.get_partition(offset)
        parts.update(data)
    content = {
        "binary_data_version": metas[0].version,
        "node_count": sum(m.node_count for m in metas),
        "edge_count": sum(m.edge_count for m in metas),
        "node_type_count": metas[0].node_type_count,
        "edge_type_count": metas[0].edge_type_count,
        "node_feature_count": int(metas[0].node_feature_count),
        "edge_feature_count": int(metas[0].edge_feature_count),
        "watermark": int(metas[0].watermark),
        "partitions": parts,
        "node_count_per_type": [sum(m.node_count_per_type[t] for m in metas) for t in range(int(metas[0].node_type_count))],
        "edge_count_per_type": [sum(m.edge_count_per_type[t] for m in metas) for t in range(int(metas[0].edge_type_count))],
    }
    with fs.open("{}/meta.json".format(out), "w") as f:
        f.write(json.dumps(content))


def files(path):
    merge_metadata_files(path)


def files_spec(path):
    fs, _ = get_fs(path)
    names = [f if isinstance(f, str) else f["name"] for f in fs.glob(os.path.join(path, "meta_*"))]
    if len(names) == 0:
        return
    names = sorted(names, key=lambda f: [int(x) for x in re.findall(r"\\\\d+", os.path.basename(f))])
    merge(fs, path, [Meta(fs, f) for f in names])
'''


def numeric_sort(t):
    """sorted(x, key=...) with a key that converts to int is "sorted by number"; other keys are left alone."""

    def f(x):
        if x.op == "call" and x.args[0] == "sorted" and x.args[2]:
            key = dict(x.args[2]).get("key")
            if key is not None and contains(key, lambda y: y.op == "call" and y.args[0] == "int"):
                return mk("call", "sorted by number", x.args[1], (), NONE)
        return x

    return rewrite(t, f)


def merger(c, which):
    m = source(c, MERGE)
    TT.COUNT_RULES[:] = [lambda x: x.op == "attr" and x.args[1] in ("node_type_count", "edge_type_count")]
    hooks = {}
    ext = None
    if which == "files":
        mm = c.prog.need_func(SN + ".meta_merger", "merge")
        hooks = {"merge": logged("merge", "merge", mm)}
        ext = lambda q: q.endswith("meta_merger.Meta")
    if which == "combine":
        hooks = {".get_partition": lambda fl, b, args, kw, node: mk("tuple", *[mk("call", "get_partition", (fl.fz(b), fl.fz(args[0]), const(i)), (), NONE) for i in (0, 1)])}
    return run_driver(c, m, which, hooks=hooks, extern=ext), run_driver(c, m, which + "_spec", hooks=hooks, extern=ext)

LOADED = '''
import json
from deepgnn.graph_engine.snark.meta import Meta, download_meta


def code(path, config):
    m = Meta(path, config)
    return {
        "version": m.version,
        "node_count": m.node_count,
        "edge_count": m.edge_count,
        "node_type_count": m.node_type_count,
        "edge_type_count": m.edge_type_count,
        "partition_count": m.partition_count,
        "node_count_per_type": m.node_count_per_type,
        "edge_count_per_type": m.edge_count_per_type,
        "watermark": m.watermark,
    }


def spec(path, config):
    try:
        with open(download_meta(path, "", config), "r") as f:
            m = json.load(f)
    except FileNotFoundError:
        raise FileNotFoundError("")
    if m["binary_data_version"][0] != "v":
        raise RuntimeError("")
    return {
        "version": m["binary_data_version"],
        "node_count": m["node_count"],
        "edge_count": m["edge_count"],
        "node_type_count": m["node_type_count"],
        "edge_type_count": m["edge_type_count"],
        "partition_count": len(m["partitions"]),
        "node_count_per_type": m["node_count_per_type"],
        "edge_count_per_type": m["edge_count_per_type"],
        "watermark": m["watermark"],
    }
'''


def loaded(c):
    m = source(c, LOADED)
    hooks = {"download_meta": lambda fl, f, b, args, kw, node: mk(
        "call", "download_meta", (fl.fz(argument(f, args, kw, 0, "src_path")), fl.fz(argument(f, args, kw, 2, "config_path"))), (), NONE)}
    return run_driver(c, m, "code", hooks=hooks), run_driver(c, m, "spec", hooks=hooks)
