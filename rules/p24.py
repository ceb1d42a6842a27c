"""Written lines that are uploaded: chunks, channels, files of a thread, and the end."""
from .common import *

UP = GE + ".adl_uploader"
DRV = '''
import multiprocessing
import queue
import threading
from azure.datalake.store import core, lib
from deepgnn.graph_engine._adl_reader import AdlCredentialParser
from deepgnn.graph_engine.adl_uploader import AdlDataWriter, MultiThreadsAdlDataWriter


# (these are given their meaning by the check)
def told(what, *args):
    pass


def channel(number):
    pass


def at_work(index):
    pass


def arrived(number):
    pass


def alive(what, number):
    pass


def target():
    pass


class Target:
    pass


def writer(processes):
    return AdlDataWriter("store", "prefix", 3, processes, 4, 100, 20)


# ---- chunks of lines
def lines(processes: "count", most: "count", rows: "list"):
    w = AdlDataWriter("store", "prefix", 3, processes, 4, 100, most)
    told("begun")
    return w.writelines(rows)


def lines_spec(processes: "count", most: "count", rows: "list"):
    told("begun")
    start = 0
    turn = 0
    while start < len(rows):
        told("put", turn % processes, bytes("\\n".join([str(x) for x in rows[start:start + most]]) + "\\n", "utf-8"))
        start += most
        turn += 1
    return True


def text(processes: "count", rows: "list"):
    w = writer(processes)
    told("begun")
    for x in rows:
        w.write(x)


def text_spec(processes: "count", rows: "list"):
    told("begun")
    for i, x in enumerate(rows):
        told("put", i % processes, bytes(x, "utf-8"))


def after_end(processes: "count", rows: "list"):
    w = writer(processes)
    w.close()
    told("begun")
    return w.writelines(rows), len(rows) > 0


def after_end_spec(processes: "count", rows: "list"):
    told("begun")
    return len(rows) == 0, len(rows) > 0


# ---- processes
def processes(processes: "count", store, prefix, files, threads, size: "count", most):
    AdlDataWriter(store, prefix, files, processes, threads, size, most)


def processes_spec(processes: "count", store, prefix, files, threads, size: "count", most):
    for i in range(processes):
        told("queue", int(size / processes))
    for i in range(processes):
        told("process", i)
    for i in range(processes):
        told("start process", i)


def ended(processes: "count"):
    w = writer(processes)
    told("begun")
    w.close()
    w.close()


def ended_spec(processes: "count"):
    told("begun")
    for i in range(processes):
        if alive("process", i):
            told("put", i, None)
    for i in range(processes):
        told("wait for process", i)


def block(processes: "count"):
    with writer(processes) as w:
        told("begun", w.is_running)


def block_spec(processes: "count"):
    told("begun", True)
    for i in range(processes):
        if alive("process", i):
            told("put", i, None)
    for i in range(processes):
        told("wait for process", i)


def process(processes: "count", store, prefix, files, threads, size: "count", most, index):
    AdlDataWriter(store, prefix, files, processes, threads, size, most)
    told("begun")
    at_work(index)


def process_spec(processes: "count", store, prefix, files, threads, size: "count", most, index):
    told("begun")
    w = MultiThreadsAdlDataWriter(AdlCredentialParser.read_credentials(), index, store, prefix, files, threads)
    while True:
        chunk = arrived(index)
        if chunk is None or not w.is_alive():
            break
        w.enqueue(chunk)
    w.stop()


# ---- threads of a process
def threads(config, number, store, prefix, files, threads: "count"):
    w = MultiThreadsAdlDataWriter(config, number, store, prefix, files, threads)
    return w.is_alive()


def threads_spec(config, number, store, prefix, files, threads: "count"):
    token = lib.auth(tenant_id=config["TENANT_ID"], client_secret=config["CLIENT_SECRET"], client_id=config["CLIENT_ID"])
    told("store", token, store)
    for i in range(threads):
        told("thread", i)
    for i in range(threads):
        told("start thread", i)
    return True


def handed(config, number, store, prefix, files, threads: "count", chunk):
    w = MultiThreadsAdlDataWriter(config, number, store, prefix, files, threads)
    told("begun")
    w.enqueue(chunk)
    w.stop()
    w.stop()
    return w.is_alive()


def handed_spec(config, number, store, prefix, files, threads: "count", chunk):
    told("begun")
    told("put", 0, chunk)
    for i in range(threads):
        if alive("thread", i):
            told("put", 0, None)
    for i in range(threads):
        told("wait for thread", i)
    return False


def thread(config, number, store, prefix, files: "count", threads: "count", index):
    MultiThreadsAdlDataWriter(config, number, store, prefix, files, threads)
    told("begun")
    at_work(index)


def thread_spec(config, number, store, prefix, files: "count", threads: "count", index):
    told("begun")
    n = 0
    k = 0
    while True:
        chunk = arrived(0)
        if chunk is None:
            break
        if n == 0 or files > 0 and n % files == 0:
            if n != 0:
                told("close", target())
            told("open", prefix + f"_{number}_{index}_{k}.tsv", "wb")
            k += 1
        told("write", target(), chunk)
        told("done")
        n += 1
    if n != 0:
        told("close", target())
    told("done")
'''
QUEUES = ("queue.Queue", "queue.SimpleQueue", "multiprocessing.Queue", "multiprocessing.JoinableQueue", "multiprocessing.SimpleQueue")
WORKERS = {"threading.Thread": "thread", "multiprocessing.Process": "process"}


class Scene:
    """Queues, workers and files as the drivers see them."""

    def __init__(self, m, inner=False):
        self.m = m
        self.work = []
        self.file = mk("inst", m.classes["Target"].qual, "open file")
        self.hooks = {
            "told": self.h_told, "target": lambda fl, f, b, a, k, n: self.file, "at_work": self.h_at_work, "arrived": self.h_arrived, "alive": lambda fl, f, b, a, k, n: mk("atom", "alive", *[fl.fz(x) for x in a]),
            "$explicit": {"ValueError", "Full", "Exception", "BaseException"},
            "azure.datalake.store.core.AzureDLFileSystem": self.h_store, "time.sleep": h_none, "read_credentials": lambda fl, f, b, a, k, n: mk("sym", "credentials"),
            ".put": self.h_put, ".get": self.h_get, ".task_done": self.h_task_done, ".start": self.h_start, ".join": self.h_join, ".is_alive": self.h_alive,
            ".open": self.h_open, ".write": self.h_write, ".close": self.h_close, ".cancel_join_thread": lambda fl, b, a, k, n: NONE,
        }
        for q in QUEUES:
            self.hooks[q] = self.h_queue
        for w in WORKERS:
            self.hooks[w] = self.worker(WORKERS[w])
        if inner:
            self.hooks.update({"new:MultiThreadsAdlDataWriter": self.h_inner, ".enqueue": self.of_inner("hand over"), ".stop": self.of_inner("stop")})

    def h_told(self, fl, f, b, args, kw, node):
        a = [fl.fz(x) for x in args]
        if a[0] is const("begun"):
            fl.setv(LOG, mk("list"))
        put_log(fl, "queues" if a[0] is const("queue") else "told", cval(a[0]), *a[1:])
        return NONE

    def h_inner(self, fl, cls, b, args, kw, node):
        a = [fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(NAMES)]
        put_log(fl, "told", "uploader", *a)
        return mk("uploader")

    def of_inner(self, what):
        def h(fl, b, args, kw, node):
            if fl.fz(b).op != "uploader":
                return None
            put_log(fl, "told", what, *[fl.fz(x) for x in args])
            return NONE

        return h

    def h_queue(self, fl, f, b, args, kw, node):
        if fl.loops:
            put_log(fl, "queues", "queue", fl.fz(argument(f, args, kw, 0, "maxsize")))
        return mk("channel", fl.loops[-1][0] if fl.loops else ZERO)

    def worker(self, what):
        return lambda fl, f, b, args, kw, node: self.h_worker(fl, what, args, kw)

    def h_worker(self, fl, what, args, kw):
        target, given = argument(None, args, kw, 1, "target"), fl.fz(argument(None, args, kw, 3, "args"))
        if given.op not in ("tuple", "list") or not given.args or not fl.loops:
            return mk("worker", "other", ZERO)
        put_log(fl, "told", what, *given.args)
        self.work.append((target, given.args, fl.loops[-1][0]))
        return mk("worker", what, fl.loops[-1][0])

    def h_at_work(self, fl, f, b, args, kw, node):
        target, given, it = self.work[-1]
        return fl.call_value(target, [subst(x, {it.dig: fl.fz(args[0])}) for x in given], {}, node)

    def h_arrived(self, fl, f, b, args, kw, node):
        n = fl.getv(ARRIVED)
        n = ZERO if n.op == "undef" else n
        fl.setv(ARRIVED, add(n, ONE))
        return mk("call", "arrived", (fl.fz(args[0]), n), (), NONE)

    def h_store(self, fl, f, b, args, kw, node):
        put_log(fl, "told", "store", fl.fz(argument(f, args, kw, 0, "token")), fl.fz(kw.get("store_name", NONE)))
        return mk("store")

    def h_put(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op != "channel":
            return None
        put_log(fl, "told", "put", b.args[0], fl.fz(args[0]))
        return NONE

    def h_get(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op != "channel":
            return None
        return self.h_arrived(fl, None, b, [b.args[0]], {}, node)

    def h_task_done(self, fl, b, args, kw, node):
        put_log(fl, "told", "done")
        return NONE

    def h_start(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op != "worker":
            return None
        if b.args[0] != "other":
            put_log(fl, "told", "start " + b.args[0], b.args[1])
        return NONE

    def h_join(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op != "worker":
            return None
        put_log(fl, "told", "wait for " + b.args[0], b.args[1], *[fl.fz(x) for x in args])
        return NONE

    def h_alive(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op == "uploader":
            return mk("atom", "uploader alive", fl.getv(ARRIVED))
        return mk("atom", "alive", const(b.args[0]), b.args[1]) if b.op == "worker" else None

    def h_open(self, fl, b, args, kw, node):
        if fl.fz(b).op != "store":
            return None
        put_log(fl, "told", "open", fl.fz(argument(None, args, kw, 0, "path")), fl.fz(argument(None, args, kw, 1, "mode")))
        return self.file

    def h_write(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op == "inst" and b is not self.file:
            return None
        put_log(fl, "told", "write", b, fl.fz(args[0]))
        return NONE

    def h_close(self, fl, b, args, kw, node):
        b = fl.fz(b)
        if b.op == "inst" and b is not self.file:
            return None
        put_log(fl, "told", "close", b)
        return NONE


LOG = ("h", mk("call", "open", (const("calls of told"), const("wb")), (), ONE), "$out")
NAMES = ("adl_config", "process_idx", "store_name", "file_path_prefix", "max_chunks_per_file", "threads_per_process")
ARRIVED = ("h", mk("sym", "chunks"), "$n")
CASES = {
    "lines": "AdlDataWriter.writelines", "text": "AdlDataWriter.write", "after_end": "AdlDataWriter.writelines", "processes": "AdlDataWriter.__init__", "ended": "AdlDataWriter.close", "block": "AdlDataWriter.__exit__",
    "process": "AdlDataWriter.__init__", "threads": "MultiThreadsAdlDataWriter.__init__", "handed": "MultiThreadsAdlDataWriter.stop", "thread": "MultiThreadsAdlDataWriter.__init__",
}


def plain(t):
    """Texts and sizes in one form, however they are spelled."""

    def f(x):
        if x.op == "call" and x.args[0] == ".encode" and len(x.args[1]) <= 2 and not x.args[2]:
            return mk("call", "bytes", (x.args[1][0], x.args[1][1] if len(x.args[1]) == 2 else const("utf-8")), (), NONE)
        if x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1 and x.args[1][0].op == "div":
            return floordiv(*x.args[1][0].args)
        if x.op == "fmt" and len(x.args) == 2 and x.args[1] is const("\n") and x.args[0].op == "call" and x.args[0].args[0] == ".join" and x.args[0].args[1][0] is const("\n"):
            # every line is followed by a break; there is one at least
            lines = x.args[0].args[1][1]
            if lines.op == "flat" and lines.args[2].op == "list" and len(lines.args[2].args) == 1:
                return mk("call", ".join", (const(""), renorm("flat", lines.args[:2] + (mk("list", fmt([lines.args[2].args[0], x.args[1]])),))), (), NONE)
        return x

    return rewrite(t, f)


def case(c, name):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=Scene(m, name == "process").hooks) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_func(UP, CASES[name]))
    c.equal("upload", name + " returns", a.ret, b.ret, loc)
    c.equal("upload", name, plain(log_of(a, "told")), plain(log_of(b, "told")), loc)
    if name == "processes":
        c.equal("upload", name + " queues", plain(log_of(a, "queues")), plain(log_of(b, "queues")), loc)


def run(c):
    c.rule("upload", "lines handed over, their processes, threads and files")
    for n in CASES:
        c.clause("upload", n, case, n)
    c.floor("upload", 20)
