"""Batches fetched ahead or on demand: every batch of the sampler is queried and its result handed out."""
from vlib import terms as TT
from vlib.canon import arrays as canon

from .common import *

PF = GE + ".prefetch"
DS = GE + ".graph_dataset"
DRV = '''
from inspect import signature
from deepgnn.graph_engine._base import Graph
from deepgnn.graph_engine.samplers import BaseSampler
from deepgnn.graph_engine.backends.common import GraphEngineBackend
from deepgnn.graph_engine._adl_reader import FetchDone
from deepgnn.graph_engine.prefetch import Generator, BoundedExecutor
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset, BackendType, create_backend
from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
from deepgnn.graph_engine.backends.snark.client import SnarkLocalBackend, SnarkDistributedBackend


# (these are given their meaning by the check)
def note(*what):
    pass


def arriving(*what):
    pass


def fails(batch):
    pass


def closed():
    pass


def answer(graph, batch):
    pass


def told(stop):
    pass


def thread(fn):
    pass


def task(fn):
    pass


def named(batch):
    pass


def taken():
    pass


class Result:
    pass


class Failed(Exception):
    pass


class Refused(RuntimeError):
    pass


def attempt(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except BaseException:
        note("failed")


def attempt_task(fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except BaseException:
        note("failed")


def query(graph, batch):
    note("query", graph, batch)
    if fails(batch):
        raise Failed
    return answer(graph, batch)


# ---- fetching ahead
def ahead(graph, sampler: "list", size: "count", parallel: "count"):
    Generator(graph, sampler, query, size, parallel)


def ahead_spec(graph, sampler: "list", size: "count", parallel: "count"):
    note("queue", size)
    note("pool", 1)

    def fetch():
        note("pool", parallel)
        n = 0
        for batch in sampler:
            if told():
                note("close", True)
                return
            n = n + 1

            def one():
                try:
                    found = query(graph, batch)
                except Failed:
                    note("failure")
                    note("close", False)
                    raise
                note("put", found)

            try:
                task(one)
            except Refused:
                note("failure")
                note("close", True)
                raise
        note("end", n)
        note("close", True)

    thread(fetch)


def refused(graph, batch, size: "count", parallel: "count"):
    Generator(graph, [batch], query, size, parallel)


def refused_spec(graph, batch, size: "count", parallel: "count"):
    ahead_spec(graph, [batch], size, parallel)


def slots(graph, batch, parallel: "count"):
    Generator(graph, [batch], query, 9, parallel)


def slots_spec(graph, batch, parallel: "count"):
    note("slots", parallel if parallel > 20 else 20)
    if told():
        return
    note("wait for a slot")
    if closed():
        note("free")
        note("failed")
    else:
        note("freed when done")


def submitted(graph, batch, room):
    with BoundedExecutor(30, room) as pool:
        pool.submit(query, graph, batch=batch)


def submitted_spec(graph, batch, room):
    room = room if room > 0 else 20
    note("slots", 30 if 30 > room else room)
    note("wait for a slot")
    if closed():
        note("free")
        raise RuntimeError
    note("asked", query, graph, named(batch))
    note("freed when done")


def broken(parallel: "count", why):
    return True if BoundedExecutor(parallel).__exit__(Failed, why, None) else False


def broken_spec(parallel: "count", why):
    note("pool", parallel)
    return False


# ---- handing out
def plain(graph, sampler: "list", n: "count"):
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    note("and then")
    return next(g)


def plain_spec(graph, sampler: "list", n: "count"):
    for i in range(n):
        taken()
    note("and then")
    return taken()


def ended(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    arriving(FetchDone(total))
    try:
        return next(g)
    except StopIteration:
        note("stop")


def ended_spec(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    for i in range(n):
        taken()
    taken()
    if n == total:
        note("stop")
        return None
    return taken()


def empty(graph, sampler: "list"):
    g = iter(Generator(graph, sampler, query))
    arriving(FetchDone(0))
    try:
        next(g)
    except StopIteration:
        note("stop")
    try:
        next(g)
    except StopIteration:
        note("stop")


def empty_spec(graph, sampler: "list"):
    taken()
    note("stop")
    note("stop")


def late(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    arriving(FetchDone(total))
    try:
        next(g)
    except StopIteration:
        return
    try:
        return next(g)
    except StopIteration:
        note("stop")


def late_spec(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    for i in range(n):
        taken()
    taken()
    if n == total:
        return None
    taken()
    if n + 1 == total:
        note("stop")
        return None
    return taken()


def over(graph, sampler: "list", n: "count"):
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    arriving(FetchDone(n))
    try:
        next(g)
    except StopIteration:
        note("stop")
    try:
        next(g)
    except StopIteration:
        note("stop")


def over_spec(graph, sampler: "list", n: "count"):
    for i in range(n):
        taken()
    taken()
    note("stop")
    note("stop")


def failed(graph, sampler: "list", n: "count"):
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    arriving(FetchDone(exception="why"))
    try:
        next(g)
    except StopIteration:
        note("stop")
    except Exception:
        note("raised")


def failed_spec(graph, sampler: "list", n: "count"):
    for i in range(n):
        taken()
    taken()
    note("raised")


def failed_late(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    g = iter(Generator(graph, sampler, query))
    arriving()
    for i in range(n):
        next(g)
    arriving(FetchDone(total), FetchDone(exception="why"))
    try:
        next(g)
    except StopIteration:
        note("stop")
    except Exception:
        note("raised")


def failed_late_spec(graph, sampler: "list", n: "count", more: "count"):
    total = n + more
    for i in range(n):
        taken()
    taken()
    if n == total:
        note("stop")
        return
    taken()
    note("raised")


# ---- giving up
def joined(graph, sampler: "list"):
    g = Generator(graph, sampler, query)
    g.join()


def joined_spec(graph, sampler: "list"):
    note("stop")
    note("until over", True)
    note("drain")
    note("until empty")


def joined_all(graph, sampler: "list"):
    g = Generator(graph, sampler, query, 9, 9, 2)
    g.join()


def joined_all_spec(graph, sampler: "list"):
    joined_spec(graph, sampler)


def dropped(graph, sampler: "list"):
    g = Generator(graph, sampler, query)
    g.__del__()


def dropped_spec(graph, sampler: "list"):
    joined_spec(graph, sampler)


# ---- data sets
def the_graph():
    pass


class Backend(GraphEngineBackend):
    @property
    def graph(self):
        return the_graph()


BACKEND = Backend()


class Kind(BaseSampler):
    def __init__(self, first, second):
        pass


def settings(query, batch, workers, index, epochs, prefetch, more):
    d = DeepGNNDataset(Kind, query, BACKEND, workers, index, batch, epochs, prefetch, **more)
    return d.num_workers, d.worker_index, d.batch_size, d.epochs, d.enable_prefetch, d.query_fn, d.sampler_class, d.backend, d.graph, len(d)


def settings_spec(query, batch, workers, index, epochs, prefetch, more):
    return workers, index, batch, epochs, prefetch, query, Kind, BACKEND, the_graph(), len(chosen(more))


def plain_settings(query):
    d = DeepGNNDataset(Kind, query, BACKEND)
    return d.num_workers, d.worker_index, d.batch_size, d.epochs, d.enable_prefetch


def plain_settings_spec(query):
    return 1, 0, 1, 1, False


def on_demand(query, more):
    data = iter(iter(DeepGNNDataset(Kind, query, BACKEND, **more)))
    return next(data), next(data)


def on_demand_spec(query, more):
    s = iter(chosen(more))
    first = query(the_graph(), next(s))
    return first, query(the_graph(), next(s))


def again(query, more):
    d = DeepGNNDataset(Kind, query, BACKEND, **more)
    return next(iter(d)), next(iter(d))


def again_spec(query, more):
    s = chosen(more)
    return query(the_graph(), next(iter(s))), query(the_graph(), next(iter(s)))


def sampled(query, more):
    return DeepGNNDataset(Kind, query, BACKEND, **more).sampler


def sampled_spec(query, more):
    return chosen(more)


def own(k):
    pass


def has_own(k):
    pass


def chosen(more):
    wanted = signature(Kind.__init__).parameters
    given = {}
    for k in wanted:
        if k != "self":
            if wanted[k].annotation == Graph:
                given[k] = the_graph()
            elif k in more:
                given[k] = more[k]
            elif has_own(k):
                given[k] = own(k)
    return Kind(**given)


def prefetched(query, more):
    iter(DeepGNNDataset(Kind, query, BACKEND, enable_prefetch=True, **more))


def prefetched_spec(query, more):
    note("ahead", the_graph(), chosen(more), query, more.get("prefetch_queue_size", 10), more.get("prefetch_worker_size", 2), 1)


def remote_backend(options: BackendOptions, leader):
    options.backend = BackendType.SNARK
    options.graph_type = GraphType.REMOTE
    return create_backend(options, leader)


def remote_backend_spec(options: BackendOptions, leader):
    return SnarkDistributedBackend(options=options, is_leader=leader)


def local_backend(options: BackendOptions, leader):
    options.backend = BackendType.SNARK
    options.graph_type = GraphType.LOCAL
    return create_backend(options, leader)


def local_backend_spec(options: BackendOptions, leader):
    assert options.data_dir
    return SnarkLocalBackend(options=options, is_leader=leader)


def chosen_backend(options: BackendOptions, leader):
    return create_backend(options, leader)


def chosen_backend_spec(options: BackendOptions, leader):
    if options.backend == BackendType.CUSTOM:
        kind = options.custom_backendclass
    else:
        assert BackendType(options.backend) == BackendType.SNARK
        if options.graph_type == GraphType.LOCAL:
            assert options.data_dir
            kind = SnarkLocalBackend
        elif options.graph_type == GraphType.REMOTE:
            kind = SnarkDistributedBackend
    return kind(options=options, is_leader=leader)
'''
LOG = ("h", mk("call", "open", (const("calls of calls"), const("wb")), (), ONE), "$out")
POOLS = ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor")
QUEUES = ("queue.Queue", "queue.SimpleQueue", "queue.LifoQueue")
EVENT = mk("inst", "threading.Event", "stop")


def made(b, *names):
    return b.op == "call" and b.args[0] in names


def h_note(fl, f, b, args, kw, node):
    a = [fl.fz(x) for x in args]
    put_log(fl, "calls", cval(a[0]), *a[1:])
    return NONE


def hurry(fl, args, kw):
    """A result is waited for, as is room for one."""
    a = [fl.fz(x) for x in args]
    block = a[0] if a else fl.fz(kw.get("block", TRUE))
    limit = a[1] if len(a) > 1 else fl.fz(kw.get("timeout", NONE))
    if block is not TRUE or limit is not NONE:
        put_log(fl, "calls", "not waiting", block, limit)


def apart(fl, fn):
    before = fl.getv(LOG)
    fl.S.vals[LOG] = mk("list")
    fn()
    did = fl.S.vals[LOG]
    fl.S.vals[LOG] = before
    return did


class Scene:
    """Queue, threads and events as the drivers see them."""

    def __init__(self, m, parts=("calls",)):
        self.m = m
        self.slots = "slots" in parts
        self.threads = "handed" not in parts
        self.closing = "closing" in parts
        self.direct = "direct" in parts
        self.result = mk("inst", m.classes["Result"].qual, "result")
        self.coming = []
        self.depth = self.inside = self.begun = 0
        self.hooks = {
            "note": self.h_note, "arriving": self.h_arriving, "fails": lambda fl, f, b, a, k, n: mk("atom", "the query fails", fl.fz(a[0])), "closed": lambda fl, f, b, a, k, n: mk("atom", "the pool is closed"),
            "told": lambda fl, f, b, a, k, n: mk("atom", "told to stop"), "answer": lambda fl, f, b, a, k, n: mk("call", "answer", tuple(fl.fz(x) for x in a), (), NONE),
            "taken": self.h_taken, "thread": self.h_thread, "named": lambda fl, f, b, a, k, n: mk("arg", "batch", fl.fz(a[0])), "task": self.h_task, "$explicit": {"", "RuntimeError", "Exception", "BaseException", "Failed", "Refused", "StopIteration"},
            ".submit": self.h_submit, ".put": self.h_put, ".get": self.h_get, ".task_done": self.h_task_done, ".is_set": self.h_is_set,
            ".shutdown": self.h_shutdown, "$exit": self.h_exit,
            "traceback.print_exc": h_none, "traceback.format_exc": lambda fl, f, b, a, k, n: const("trace"),
        }
        for e in ("threading.Event", "multiprocessing.Event"):
            self.hooks[e] = lambda fl, f, b, a, k, n: EVENT
        for q in QUEUES:
            self.hooks[q] = self.h_queue
        for p in POOLS:
            self.hooks[p] = self.h_pool
        for s in ("threading.BoundedSemaphore", "threading.Semaphore"):
            self.hooks[s] = self.h_slots
        self.hooks.update({".acquire": self.h_acquire, ".release": self.h_release, ".add_done_callback": self.h_callback})

    def h_note(self, fl, f, b, args, kw, node):
        return NONE if self.closing and fl.fz(args[0]) is const("close") else h_note(fl, f, b, args, kw, node)

    def attempt(self, fl, fn, args, kw, node):
        name = "attempt_task" if self.inside else "attempt"
        self.inside += 1
        try:
            return apart(fl, lambda: fl.invoke(fl.function_term(self.m.funcs[name], None, None), [fn] + list(args), dict(kw), node))
        finally:
            self.inside -= 1

    def h_arriving(self, fl, f, b, args, kw, node):
        self.coming = list(args)
        self.depth = len(fl.loops)
        return NONE

    def h_queue(self, fl, f, b, args, kw, node):
        if not self.slots and self.threads:
            put_log(fl, "calls", "queue", fl.fz(argument(f, args, kw, 0, "maxsize")))
        return None

    def h_pool(self, fl, f, b, args, kw, node):
        if not self.slots and self.threads:
            put_log(fl, "calls", "pool", fl.fz(argument(f, args, kw, 0, "max_workers")))
        return None

    def h_slots(self, fl, f, b, args, kw, node):
        if self.slots:
            put_log(fl, "calls", "slots", fl.fz(argument(f, args, kw, 0, "value")))
        return None

    def is_slots(self, b):
        return made(b, "threading.BoundedSemaphore", "threading.Semaphore")

    def h_acquire(self, fl, b, args, kw, node):
        if not self.is_slots(fl.fz(b)):
            return None
        if self.slots:
            put_log(fl, "calls", "wait for a slot")
        return TRUE

    def h_release(self, fl, b, args, kw, node):
        if not self.is_slots(fl.fz(b)):
            return None
        if self.slots:
            put_log(fl, "calls", "free")
        return NONE

    def h_callback(self, fl, b, args, kw, node):
        did = apart(fl, lambda: fl.call_value(args[0], [b], {}, node))
        if self.slots and did is mk("list", mk("entry", "free")):
            put_log(fl, "calls", "freed when done")
        elif did is not mk("list"):
            put_log(fl, "calls", "when done", did)
        return NONE

    def h_submit(self, fl, b, args, kw, node):
        if not made(fl.fz(b), *POOLS) or not args:
            return None
        if self.direct:
            fl.branch(mk("atom", "the pool is closed"), lambda: fl.do_raise("RuntimeError", (), node), lambda: None)
            put_log(fl, "calls", "asked", *[fl.fz(x) for x in args], *[mk("arg", k, fl.fz(v)) for k, v in sorted(kw.items())])
            return mk("future", ZERO)
        depth = getattr(fl, "within", 0)
        if not self.threads:
            self.begun += 1
            return mk("future", const(self.begun))
        if depth and self.closing:
            fl.branch(mk("atom", "the pool is closed"), lambda: fl.do_raise("RuntimeError", (), node), lambda: None)
        fl.within = depth + 1
        try:
            did = self.attempt(fl, args[0], args[1:], kw, node)
        finally:
            fl.within = depth
        if self.slots:
            if not depth:
                fl.setv(LOG, cat([fl.getv(LOG), did]))
        else:
            put_log(fl, "calls", "task" if depth else "thread", did)
        return mk("future", const(depth))

    def h_thread(self, fl, f, b, args, kw, node):
        put_log(fl, "calls", "thread", self.attempt(fl, args[0], [], {}, node))
        return NONE

    def h_task(self, fl, f, b, args, kw, node):
        if self.closing:
            fl.branch(mk("atom", "the pool is closed"), lambda: fl.do_raise("Refused", (), node), lambda: None)
        put_log(fl, "calls", "task", self.attempt(fl, args[0], [], {}, node))
        return NONE

    def h_shutdown(self, fl, b, args, kw, node):
        if not made(fl.fz(b), *POOLS):
            return None
        if not self.closing and self.threads:
            put_log(fl, "calls", "close", fl.truth(argument(None, args, kw, 0, "wait")) if args or "wait" in kw else TRUE)
        return NONE

    def h_exit(self, fl, v, node):
        if made(fl.fz(v), *POOLS) and not self.closing and self.threads:
            put_log(fl, "calls", "close", TRUE)

    def h_is_set(self, fl, b, args, kw, node):
        return mk("atom", "told to stop")

    def h_put(self, fl, b, args, kw, node):
        if not made(fl.fz(b), *QUEUES):
            return None
        if self.slots:
            return NONE
        hurry(fl, args[1:], kw)

        def one(v):
            if v.op == "inst" and v.args[0].endswith("FetchDone"):
                e = fl.read_attr(v, "exception_info", node)
                fl.branch(TT.isnone(e), lambda: put_log(fl, "calls", "end", fl.fz(fl.read_attr(v, "count", node))), lambda: put_log(fl, "calls", "failure"))
            else:
                put_log(fl, "calls", "put", fl.fz(v))

        one(args[0])
        return NONE

    def h_get(self, fl, b, args, kw, node):
        if not made(fl.fz(b), *QUEUES):
            return None
        hurry(fl, args, kw)
        put_log(fl, "calls", "get")
        if not self.coming:
            return self.result
        return self.coming.pop(0) if len(fl.loops) == self.depth else fl.opaque("items in a loop", node)

    def h_task_done(self, fl, b, args, kw, node):
        if not made(fl.fz(b), *QUEUES):
            return None
        put_log(fl, "ticks", "done")
        return NONE

    def h_taken(self, fl, f, b, args, kw, node):
        put_log(fl, "calls", "get")
        put_log(fl, "ticks", "done")
        return self.result


def waiting(m, scene):
    """Giving up: loops that wait for the fetching thread, and whether the queue is emptied meanwhile."""
    left = mk("call", "results left", (), (), NONE)
    TT.COUNTS.add(left.dig)
    KINDS[left.dig] = "int"
    inner, got, waited, drained = [], [], set(), []

    def all_over(stop, n):
        """Once every thread is over, and not as long as one is not."""
        each = [mk("atom", "fetching is over", mk("future", const(i + 1))) for i in range(n)]
        if not n or subst(stop, {x.dig: TRUE for x in each}) is not TRUE:
            return False
        return all(subst(stop, {x.dig: const(x is not late) for x in each}) is FALSE for late in each)

    def is_queue(fl, b):
        return made(fl.fz(b), *QUEUES)

    def h_poll(fl, stop, node):
        if stop is None:
            put_log(fl, "calls", "loop", fl.opaque("loop", node))
            return
        if stop is TRUE:
            return
        if stop is TT.eq(left, ZERO):
            what = "drain" if got[-2:] == ["get", "task_done"] else "empty"
        elif all_over(stop, scene.begun) or stop.op == "atom" and stop.args[0] == "fetching is over":
            what = "over"
        else:
            what = None
        del got[:]
        if fl.loops:
            inner.append(what)
        elif what == "over":
            waited.update(x.dig for x in subterms(stop) if x.op == "future")
            drained.append("drain" in inner)
            del inner[:]
            if len(waited) == scene.begun:
                put_log(fl, "calls", "until over", const(all(drained)))
        elif what == "drain":
            put_log(fl, "calls", "drain")
        else:
            put_log(fl, "calls", "other loop", *([] if what or contains(stop, lambda x: x is left or x.op == "future") else [fl.opaque("loop", node)]))

    def h_get(fl, b, args, kw, node):
        if not is_queue(fl, b):
            return None
        got.append("get")
        return scene.result

    def h_task_done(fl, b, args, kw, node):
        if not is_queue(fl, b):
            return None
        got.append("task_done")
        return NONE

    def h_join(fl, b, args, kw, node):
        if not is_queue(fl, b):
            return None
        put_log(fl, "calls", "until empty")
        return NONE

    def h_set(fl, b, args, kw, node):
        put_log(fl, "calls", "stop")
        return NONE

    return {
        "$poll": h_poll, ".get": h_get, ".get_nowait": h_get, ".task_done": h_task_done, ".join": h_join, ".set": h_set, ".is_alive": lambda fl, b, a, k, n: TRUE, ".done": lambda fl, b, a, k, n: mk("atom", "fetching is over", fl.fz(b)),
        ".qsize": lambda fl, b, a, k, n: left if is_queue(fl, b) else None, ".empty": lambda fl, b, a, k, n: TT.eq(left, ZERO) if is_queue(fl, b) else None, "time.sleep": h_none,
    }


def of_data_sets(c):
    """Attributes of a data set asked for by name are its settings."""
    cls = c.prog.need_class(DS, "DeepGNNDataset")

    def its(what):
        def h(fl, f, b, args, kw, node):
            if cls not in getattr(fl.class_of(args[0]), "mro", list)() or is_const(fl.fz(args[1])):
                return None
            return mk("call", what, (fl.fz(args[1]),), (), NONE)

        return h

    def of(what):
        return lambda fl, f, b, args, kw, node: mk("call", what, (fl.fz(args[0]),), (), NONE)

    def ahead(fl, k, b, args, kw, node):
        a = [fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(("graph", "sampler", "model_query_fn", "prefetch_size", "max_parallel"))]
        put_log(fl, "calls", "ahead", *a, fl.fz(argument(None, args, kw, 5, "max_workers")) if len(args) > 5 or "max_workers" in kw else ONE)
        return mk("call", "ahead", (), (), NONE)

    graph = mk("inst", GE + "._base.Graph", "the graph")

    def sampler(fl, k, b, args, kw, node):
        return mk("call", "sampler", tuple(fl.fz(x) for x in args), tuple(sorted((n, fl.fz(x)) for n, x in kw.items())), NONE)

    def begun(fl, f, b, args, kw, node):
        if len(args) == 1 and made(fl.fz(args[0]), "sampler"):
            put_log(fl, "calls", "begin")
            return mk("call", "iter", (fl.fz(args[0]),), (), NONE)
        return None

    def backend(name):
        return lambda fl, k, b, args, kw, node: mk("call", name, (fl.fz(argument(None, args, kw, 0, "options")), fl.fz(argument(None, args, kw, 1, "is_leader"))), (), NONE)

    def member(fl, k, b, args, kw, node):
        a = fl.fz(args[0])
        return a if is_const(a) and str(cval(a)).startswith("BackendType.") else None

    return {"new:SnarkLocalBackend": backend("local"), "new:SnarkDistributedBackend": backend("distributed"), "new:BackendType": member, "the_graph": lambda fl, f, b, a, k, n: graph, "new:Kind": sampler, "iter": begun, "hasattr": its("has its own"), "getattr": its("its own"), "has_own": of("has its own"), "own": of("its own"), "new:Generator": ahead}


def both(c, name, parts=("calls",)):
    out = []
    m = source(c, DRV)
    for n in (name, name + "_spec"):
        s = Scene(m, parts)
        hooks = dict(s.hooks)
        if "giving up" in parts:
            hooks.update(waiting(m, s))
        if "data set" in parts:
            hooks = dict(of_data_sets(c), note=h_note)
        fl = new_flow(c, hooks=hooks, extern=lambda q: "Backend." in q)
        fl.CLS[s.result.dig] = m.classes["Result"]
        try:
            fl.ret = fl.run(m.funcs[n])
            fl.failed = None
        except (Budget, RecursionError) as ex:
            fl.failed = type(ex).__name__
            fl.ret = mk("opaque", "budget", "", "")
        if n is name:
            c.saw(fl)
        out.append(fl)
    return out


def scenario(c, rule, name, loc, *parts):
    a, b = both(c, name, parts)
    c.equal(rule, name, canon(log_of(a, "calls")), canon(log_of(b, "calls")), loc)
    if name == "submitted":
        c.equal(rule, name + " refused", rejections(a), rejections(b), loc)
    if name == "broken":
        c.equal(rule, "failure in a pool goes on", a.ret, b.ret, loc)
    if rule == "handed out":
        c.equal(rule, name + " ticked off", log_of(a, "ticks"), log_of(b, "ticks"), loc)
    if rule in ("handed out", "data set"):
        c.equal(rule, name + " result", canon(a.ret), canon(b.ret), loc, known=("ahead", "next"))
    if rule == "data set":
        c.equal(rule, name + " refused", rejections(a), rejections(b), loc)


def run(c):
    g = c.prog.need_class(PF, "Generator")
    d = c.prog.need_class(DS, "DeepGNNDataset")
    c.rule("ahead", "what the fetching thread does with every batch of the sampler")
    for n, parts in (("ahead", ()), ("slots", ("slots", "closing")), ("refused", ("closing",)), ("submitted", ("slots", "closing", "direct")), ("broken", ("closing",))):
        c.clause("ahead", n, scenario, "ahead", n, floc(g.find("__init__")), *parts)
    c.rule("handed out", "results handed out, and when the iteration ends or fails")
    for n in ("plain", "ended", "empty", "late", "over", "failed", "failed_late"):
        c.clause("handed out", n, scenario, "handed out", n, floc(g.find("__next__")), "handed")
    c.rule("giving up", "the fetching thread is told to stop and cannot stay blocked")
    for n in ("joined", "joined_all", "dropped"):
        c.clause("giving up", n, scenario, "giving up", n, floc(g.find("join")), "handed", "giving up")
    c.rule("data set", "settings, arguments of the sampler, results on demand or ahead, choice of the backend")
    for n in ("settings", "plain_settings", "sampled", "on_demand", "again", "prefetched", "chosen_backend", "remote_backend", "local_backend"):
        f = c.prog.need_func(DS, "create_backend") if n.endswith("backend") else d.find("__init__")
        c.clause("data set", n, scenario, "data set", n, floc(f), "data set")
    defaults(c, "data set", c.prog.need_func(DS, "create_backend"), dict(is_leader=False))
    defaults(c, "data set", g.find("__init__"), dict(max_workers=1))
    c.floor("ahead", 7)
    c.floor("handed out", 21)
    c.floor("giving up", 3)
    c.floor("data set", 29)
