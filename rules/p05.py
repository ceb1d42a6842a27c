"""Every input line reaches exactly one worker and is written before the conversion ends."""
from vlib.canon import arrays

from . import pipe
from .common import *


def worker(c):
    f = c.prog.need_func(SN + ".converter.process", "converter_process")
    a, b = pipe.worker(c)
    c.equal("worker", "converter_process", log_of(a, "worker"), log_of(b, "worker"), floc(f))


def route(c, kind_, name):
    k = c.prog.need_class(pipe.DSP, name)
    a, b = pipe.dispatch(c, kind_)
    c.equal("workers", name + " arguments", log_of(a, "workers"), log_of(b, "workers"), floc(k.find("__init__")))
    c.equal("workers", name + " started", log_of(a, "started"), log_of(b, "started"), floc(k.find("__init__")))
    c.equal("route", name + " lines", log_of(a, "sent"), log_of(b, "sent"), floc(k.find("dispatch")))
    c.equal("join", name + " replies", entry(a.ret, "partitions"), entry(b.ret, "partitions"), floc(k.find("join")))
    c.equal("join", name + " failed worker", rejections(a), rejections(b), floc(k.find("join")))
    c.equal("join", name + " tables of absent types", log_of(a, "empty tables"), log_of(b, "empty tables"), floc(k.find("join")))
    gets = [e.order for e in a.events if e.kind == "call" and e.name == ".get" and e.recv is not None and e.recv.op == "call" and "Queue" in str(e.recv.args[0])]
    ends = [e for e in a.events if e.kind == "call" and e.name in (".terminate", ".kill")]
    early = [e for e in ends if gets and e.order < max(gets)]
    if early:
        c.violate("join", name + " workers left alone", "workers are ended before all have reported", early[0].loc)
    else:
        c.hold("join", name + " workers left alone", f"{len(ends)} calls that end workers, {len(gets)} that take reports", floc(k.find("join")))


def feed(c, which):
    k = c.prog.need_class(SN + ".convert", "MultiWorkersConverter")
    a, b = pipe.convert(c, which)
    log = "worker" if which == "debug" else "dispatched"
    c.equal("feed", "MultiWorkersConverter " + which, arrays(log_of(a, log)), arrays(log_of(b, log)), floc(k.find("convert")))


OPTIONS = {"partition_offset": 0, "use_threads": False, "skip_node_sampler": False, "skip_edge_sampler": False, "watermark": None}


def omitted(c):
    for n in ("PipeDispatcher", "QueueDispatcher"):
        defaults(c, "omitted", c.prog.need_class(pipe.DSP, n).find("__init__"), OPTIONS)
    defaults(
        c, "omitted", c.prog.need_class(SN + ".convert", "MultiWorkersConverter").find("__init__"),
        {"partition_count": 1, "worker_index": 0, "worker_count": 1, "skip_node_sampler": False, "skip_edge_sampler": False, "debug": False, "watermark": None},
    )


def run(c):
    c.rule("omitted", "meaning of options left out: no offset, no skipped tables, no watermark, one worker")
    c.rule("worker", "a worker decodes and adds every received line until the end marker, then closes, then reports")
    c.rule("workers", "number, arguments and partition numbers of the started workers")
    c.rule("route", "destination of every line, and of the end marker")
    c.rule("join", "one reply awaited per worker that was given work; failed workers are refused")
    c.rule("feed", "lines, partition range and options handed to the dispatcher; join before the totals are read")
    c.clause("worker", "converter_process", worker)
    c.clause("route", "PipeDispatcher", route, "pipe", "PipeDispatcher")
    c.clause("route", "QueueDispatcher", route, "queue", "QueueDispatcher")
    c.clause("feed", "converter", feed, "code")
    c.clause("feed", "converter with dispatcher", feed, "given")
    c.clause("feed", "converter without workers", feed, "debug")
    c.clause("omitted", "options", omitted)
    c.floor("worker", 1)
    c.floor("workers", 4)
    c.floor("route", 2)
    c.floor("join", 8)
    c.floor("feed", 2)
