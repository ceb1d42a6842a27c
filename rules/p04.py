"""Totals in the metadata, from the writers to the merged file."""
from vlib.canon import arrays

from . import bw, pipe
from .common import *

PAD = ("node_weight", "edge_weight", "node_type_count", "edge_type_count")


def writers(c):
    w = c.prog.need_class(bw.W, "BinaryWriter")
    loc = floc(w.find("add"))
    a, b = bw.pair(c)
    for k in dict_keys(b.ret):
        c.equal("totals", k, entry(a.ret, k), entry(b.ret, k), loc)


def report(c):
    f = c.prog.need_func(SN + ".converter.process", "converter_process")
    a, b = pipe.worker(c)
    c.equal("report", "converter_process", log_of(a, "worker"), log_of(b, "worker"), floc(f))


def gather(c, kind_, name):
    loc = floc(c.prog.need_class(pipe.DSP, name).find("join"))
    a, b = pipe.dispatch(c, kind_)
    for k in dict_keys(b.ret):
        c.equal("gather", f"{name} {k}", entry(a.ret, k), entry(b.ret, k), loc)
    for k in PAD:
        c.equal("gather", f"{name} padding of {k}", aligned(log_of(a, "padding " + k)), aligned(log_of(b, "padding " + k)), loc)
    c.equal("gather", f"{name} failed worker", rejections(a), rejections(b), loc)


def aligned(t):
    """The lists of weights and of counts a worker reports have one entry per type each (decided under totals)."""

    def f(x):
        if x.op == "len" and x.args[0].op == "idx" and is_const(x.args[0].args[1]):
            k = str(cval(x.args[0].args[1]))
            if k.endswith("_weight"):
                return mk("len", mk("idx", x.args[0].args[0], const(k.replace("_weight", "_type_count"))))
        return x

    return rewrite(t, f)


def saved(c, which):
    loc = floc(c.prog.need_class(SN + ".convert", "MultiWorkersConverter").find("convert"))
    a, b = pipe.convert(c, which)
    json_equal(c, "saved", which, a, b, loc)


def json_equal(c, rule, what, a, b, loc):
    co = {norm_path(k): v for k, v in outputs(a).items()}
    for p, want in {norm_path(k): v for k, v in outputs(b).items()}.items():
        if p not in co:
            c.violate(rule, f"{what} {p}", f"no file of that name is written (written: {sorted(co)})", loc)
            continue
        got = co[p]
        if not pipe.json_keys(got) and got.op == "list" and not got.args:
            c.violate(rule, f"{what} {p}", "nothing is written to the file", loc)
            continue
        if not pipe.json_keys(got):
            c.undecided(rule, f"{what} {p}", "contents not recognised as one JSON object", loc)
            continue
        for k in pipe.json_keys(want):
            c.equal(rule, f"{what} {k}", arrays(pipe.json_part(got, k)), arrays(pipe.json_part(want, k)), loc)


def merged(c):
    M = c.prog.need_class(SN + ".meta_merger", "Meta")
    f = c.prog.need_func(SN + ".meta_merger", "merge")
    g = c.prog.need_func(SN + ".meta_merger", "merge_metadata_files")
    a, b = pipe.merger(c, "parse")
    for k in dict_keys(b.ret):
        c.equal("merged", "read " + k, entry(a.ret, k), entry(b.ret, k), floc(M.find("__init__")))
    c.equal("merged", "refused file", rejections(a), rejections(b), floc(M.find("__init__")))
    a, b = pipe.merger(c, "combine")
    json_equal(c, "merged", "write", a, b, floc(f))
    c.equal("merged", "mixed versions", rejections(a), rejections(b), floc(f))
    a, b = pipe.merger(c, "files")
    c.equal("merged", "input files", pipe.numeric_sort(log_of(a, "merge")), pipe.numeric_sort(log_of(b, "merge")), floc(g))


def load(c):
    M = c.prog.need_class(SN + ".meta", "Meta")
    a, b = pipe.loaded(c)
    for k in dict_keys(b.ret):
        c.equal("load", k, entry(a.ret, k), entry(b.ret, k), floc(M.find("__init__")))
    c.equal("load", "refused file", rejections(a), rejections(b), floc(M.find("__init__")))


def run(c):
    c.rule("totals", "counters kept by a partition writer, as functions of the records")
    c.rule("report", "numbers a worker sends back, sent after its files are closed")
    c.rule("gather", "sums, maxima and zero padding over all workers' reports")
    c.rule("saved", "every field of the metadata file a converter writes")
    c.rule("merged", "every field of the merged metadata file")
    c.rule("load", "fields read back from the metadata file")
    c.clause("totals", "BinaryWriter", writers)
    c.clause("report", "converter_process", report)
    c.clause("gather", "PipeDispatcher", gather, "pipe", "PipeDispatcher")
    c.clause("gather", "QueueDispatcher", gather, "queue", "QueueDispatcher")
    c.clause("saved", "converter", saved, "code")
    c.clause("saved", "converter with dispatcher", saved, "given")
    c.clause("saved", "converter without workers", saved, "debug")
    c.clause("merged", "meta_merger", merged)
    c.clause("load", "Meta", load)
    c.floor("totals", 10)
    c.floor("report", 1)
    c.floor("gather", 24)
    c.floor("saved", 22)
    c.floor("merged", 25)
    c.floor("load", 10)
