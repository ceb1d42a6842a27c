"""Cluster start: which process runs which server, which partitions a server has, what clients connect to."""
from vlib.canon import arrays as canon
from vlib.seqs import open_, seq_idx, seq_len

from .common import *

BK = GE + ".backends.snark"
DRV = '''
import json
import os
import tempfile
from deepgnn.graph_engine.backends.options import BackendOptions
from deepgnn.graph_engine.backends.snark.client import SnarkLocalBackend, SnarkDistributedBackend
from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedClient, SynchronizedServer
from deepgnn.graph_engine.snark.local import Client as LocalClient
from deepgnn.graph_engine.snark.distributed import Client as DistributedClient, Server
from deepgnn.graph_engine.snark.server import Server as NativeServer
from deepgnn.graph_engine.snark.client import PartitionStorageType
from deepgnn.graph_engine.snark.meta import download_meta


def anything():
    pass


# ---- a graph in memory
def local(options):
    b = SnarkLocalBackend(options)
    g = b.graph
    b.close()
    return g


def local_spec(options):
    return LocalClient(options.data_dir, options.partitions, options.storage_type, options.config_path, options.stream)


# ---- servers that run already
def given(options):
    options.skip_ge_start = True
    b = SnarkDistributedBackend(options)
    g = b.graph
    h = b.graph
    b.close()
    return g, h


def given_spec(options):
    c = DistributedClient(
        options.servers,
        options.ssl_cert if options.enable_ssl else None,
        grpc_options=options.grpc_options,
        num_threads=options.num_threads,
        num_cq_per_thread=options.num_cq_per_thread,
    )
    c.reset()
    return c, c


def unused(options):
    options.skip_ge_start = True
    b = SnarkDistributedBackend(options)
    b.close()


def unused_spec(options):
    pass


# ---- servers to be started
def started(options, host, more: "list", index, rank):
    options.skip_ge_start = False
    options.servers = [host, *more]
    options.server_idx = int(index)
    options.client_rank = int(rank)
    SnarkDistributedBackend(options)


def stopped(options, host, more: "list"):
    options.skip_ge_start = False
    options.servers = [host, *more]
    options.server_idx = 0
    options.client_rank = 7
    b = SnarkDistributedBackend(options)
    g = b.graph
    b.close()
    return g


def client_only(options, host, more: "list"):
    options.skip_ge_start = False
    options.servers = [host, *more]
    options.server_idx = -1
    options.client_rank = 7
    b = SnarkDistributedBackend(options)
    g = b.graph
    b.close()
    return g


def stopped_spec(options, host, more: "list"):
    options.servers = [host, *more]
    options.server_idx = 0
    options.client_rank = 7
    server, client = start(options, 0, 7)
    g = client.client
    client.reset()
    server.reset()
    return g


def client_only_spec(options, host, more: "list"):
    options.servers = [host, *more]
    options.server_idx = -1
    options.client_rank = 7
    _, client = start(options, -1, 7)
    g = client.client
    client.reset()
    return g


def found(options, index, rank, engines):
    options.skip_ge_start = False
    options.num_ge = int(engines)
    options.servers = []
    options.server_idx = int(index)
    options.client_rank = int(rank)
    SnarkDistributedBackend(options)
    return options.servers


class Helper:
    def __init__(self, *args):
        pass


def found_spec(options, index, rank, engines):
    options.servers = []
    options.num_ge = int(engines)
    options.server_idx = int(index)
    options.client_rank = int(rank)
    return exchange(options)


def exchange(options):
    if options.num_ge == 0:
        with open(os.path.join(options.data_dir, "meta.json"), "r") as f:
            options.num_ge = min(len(json.load(f)["partitions"]), 4)
    server, rank, world = where(options)
    assert server is not None and rank is not None and world is not None
    workers = os.path.join(options.model_dir, "sync", "workers")
    places = os.path.join(options.model_dir, "sync", "addresses")
    os.makedirs(workers, exist_ok=True)
    os.makedirs(places, exist_ok=True)
    s = SynchronizedServer(workers, rank, options.ge_start_timeout, Helper)
    c = SynchronizedClient(workers, rank, world, options.ge_start_timeout, Helper)
    leave(places, rank, server)
    c.client
    named = []
    for f in files(places):
        if index_of(f) >= 0:
            named.append((index_of(f), address_of(f)))
    options.servers = [address for _, address in sorted(named)]
    c.reset()
    s.reset()
    start(options, server, rank)
    return options.servers


def found_world(options):
    options.skip_ge_start = False
    options.servers = []
    options.num_ge = 2
    options.server_idx = None
    options.task_index = None
    SnarkDistributedBackend(options)
    return options.servers


def found_world_spec(options):
    options.servers = []
    options.num_ge = 2
    options.server_idx = None
    options.task_index = None
    return exchange(options)


def found_args(options, index):
    options.skip_ge_start = False
    options.servers = []
    options.num_ge = 2
    options.server_idx = None
    options.task_index = int(index)
    SnarkDistributedBackend(options)
    return options.servers


def found_args_spec(options, index):
    options.servers = []
    options.num_ge = 2
    options.server_idx = None
    options.task_index = int(index)
    return exchange(options)


def found_none(options, index, rank):
    options.skip_ge_start = False
    options.num_ge = 0
    options.servers = None
    options.server_idx = int(index)
    options.client_rank = int(rank)
    options.sync_dir = None
    SnarkDistributedBackend(options)
    return options.servers


def found_none_spec(options, index, rank):
    options.servers = []
    options.num_ge = 0
    options.server_idx = int(index)
    options.client_rank = int(rank)
    options.sync_dir = None
    return exchange(options)


def leave(places, rank, server):
    pass


def files(places):
    pass


def index_of(f):
    pass


def address_of(f):
    pass


def place(workers, rank):
    mine = workers[rank]
    hosts = set()
    for w in sorted(workers):
        host = w.rsplit(":", 1)[0]
        if mine != w:
            hosts.add(host)
            continue
        return -1 if host in hosts else len(hosts)
    return None


def ranked(rank, per_host, local):
    return int(rank) // int(per_host) if int(local) == 0 else -1


def where(options):
    if options.server_idx is not None:
        return options.server_idx, options.client_rank, (
            len(options.servers) if options.servers is not None and len(options.servers) > 0 else options.num_ge
        )
    if os.getenv("LOCAL_RANK") is not None:
        assert os.getenv("WORLD_SIZE") is not None
        assert os.getenv("LOCAL_WORLD_SIZE") is not None
        assert os.getenv("RANK") is not None
        return ranked(os.getenv("RANK"), os.getenv("LOCAL_WORLD_SIZE"), os.getenv("LOCAL_RANK")), int(os.getenv("RANK")), int(os.getenv("WORLD_SIZE"))
    if os.getenv("OMPI_COMM_WORLD_LOCAL_RANK") is not None:
        assert os.getenv("OMPI_COMM_WORLD_RANK") is not None
        assert os.getenv("OMPI_COMM_WORLD_LOCAL_SIZE") is not None
        assert os.getenv("OMPI_COMM_WORLD_SIZE") is not None
        return (
            ranked(os.getenv("OMPI_COMM_WORLD_RANK"), os.getenv("OMPI_COMM_WORLD_LOCAL_SIZE"), os.getenv("OMPI_COMM_WORLD_LOCAL_RANK")),
            int(os.getenv("OMPI_COMM_WORLD_RANK")),
            int(os.getenv("OMPI_COMM_WORLD_SIZE")),
        )
    if os.getenv("HOROVOD_LOCAL_RANK") is not None:
        assert os.getenv("HOROVOD_RANK") is not None
        assert os.getenv("HOROVOD_LOCAL_SIZE") is not None
        assert os.getenv("HOROVOD_SIZE") is not None
        return (
            ranked(os.getenv("HOROVOD_RANK"), os.getenv("HOROVOD_LOCAL_SIZE"), os.getenv("HOROVOD_LOCAL_RANK")),
            int(os.getenv("HOROVOD_RANK")),
            int(os.getenv("HOROVOD_SIZE")),
        )
    if hasattr(options, "task_index") and options.task_index is not None:
        if hasattr(options, "worker_hosts") and options.worker_hosts is not None and len(options.worker_hosts) > 0 and options.worker_hosts[0] != "":
            return place(options.worker_hosts, options.task_index), options.task_index, len(options.worker_hosts)
    if os.getenv("TF_CONFIG") is not None:
        conf = json.loads(os.getenv("TF_CONFIG"))
        if conf["task"]["type"].lower() != "worker":
            return -1, -1, 0
        workers = conf["cluster"]["worker"]
        rank = conf["task"]["index"]
        return place(workers, rank), rank, len(workers)
    return None, None, None


def started_spec(options, host, more: "list", index, rank):
    options.servers = [host, *more]
    start(options, int(index), int(rank))


def placed(options, host, more: "list"):
    options.skip_ge_start = False
    options.servers = [host, *more]
    options.server_idx = None
    options.task_index = None
    SnarkDistributedBackend(options)


def placed_spec(options, host, more: "list"):
    options.servers = [host, *more]
    options.server_idx = None
    options.task_index = None
    server, rank, world = where(options)
    assert server is not None and rank is not None
    start(options, server, rank)


def placed_args(options, host, more: "list", index):
    options.skip_ge_start = False
    options.servers = [host, *more]
    options.server_idx = None
    options.task_index = int(index)
    SnarkDistributedBackend(options)


def placed_args_spec(options, host, more: "list", index):
    options.servers = [host, *more]
    options.server_idx = None
    options.task_index = int(index)
    server, rank, world = where(options)
    assert server is not None and rank is not None
    start(options, server, rank)


def start(options, server, rank):
    folder = options.sync_dir
    if folder is None or len(folder) == 0:
        folder = os.path.join(options.model_dir, "sync")
    os.makedirs(folder, exist_ok=True)
    s = None
    if server >= 0:
        s = SynchronizedServer(
            folder,
            server,
            options.ge_start_timeout,
            Server,
            options.servers[server],
            options.data_dir,
            server,
            len(options.servers),
            ssl_cert=options.ssl_cert,
            storage_type=options.storage_type,
            config_path=options.config_path,
            stream=options.stream,
        )
    c = SynchronizedClient(
        folder,
        rank,
        len(options.servers),
        options.ge_start_timeout,
        DistributedClient,
        options.servers,
        options.ssl_cert,
        grpc_options=options.grpc_options,
        num_threads=options.num_threads,
        num_cq_per_thread=options.num_cq_per_thread,
    )
    return s, c


# ---- partitions of a server
def shards(host, path, index: "count", total: "count", key, root, cert, storage, config, stream, nofeatures, notimes):
    s = Server(host, path, index, total, key, root, cert, storage, config, stream, nofeatures, notimes)
    s.reset()


def shards_spec(host, path, index, total, key, root, cert, storage, config, stream, nofeatures, notimes):
    temp = tempfile.TemporaryDirectory()
    with open(download_meta(path, temp.name, config), "r") as f:
        n = len(json.load(f)["partitions"])
    ssl = None
    if key is not None:
        ssl = {"ssl_key": key, "ssl_root": root, "ssl_cert": cert}
    NativeServer(path, [(path, p) for p in range(index, n, total)], host, ssl, storage, config, stream, nofeatures, notimes).reset()


def shards_plain(host, path, index: "count", total: "count"):
    Server(host, path, index, total).reset()


def shards_plain_spec(host, path, index, total):
    shards_spec(host, path, index, total, None, None, None, PartitionStorageType.memory, "", False, False, False)
'''


def constructed(c, module, name, log, label, methods=()):
    """An object of another part: its construction is logged with normalised arguments."""
    k = c.prog.need_class(module, name)
    f = k.find("__init__")

    def h(fl, cls, b, args, kw, node):
        if cls is not k:
            return None
        fa = tuple(fl.fz(a) for a in args)
        fk = tuple(sorted((x, fl.fz(v)) for x, v in kw.items()))
        pa, pk = fl.norm_args(f, fa, fk, True)
        inst = None
        if "klass" in [p.arg for p in f.node.args.args]:
            pa, pk, inst = inner(fl, f, args, kw, node)
        put_log(fl, log, label, *(pa + tuple(mk("arg", n, v) for n, v in pk)))
        fl.under = getattr(fl, "under", []) + [(label, [fl.fz(x) for x in fl.ctx] + getattr(fl, "locked", []), node)]
        t = mk("call", label, pa, pk, NONE)
        fl.CLS[t.dig] = k
        if inst is not None:
            fl.held = getattr(fl, "held", {})
            fl.held[t.dig] = inst
        return t

    return h, k


def inner(fl, f, args, kw, node):
    """Arguments of a wrapper around an object made from the remaining arguments."""
    names = [p.arg for p in f.node.args.args][1:]
    own = dict(zip(names, args))
    rest = list(args[len(names):])
    own.update((k, v) for k, v in kw.items() if k in names)
    kw = {k: v for k, v in kw.items() if k not in names}
    klass = own.pop("klass", None)
    own = {k: fl.fz(v) for k, v in own.items()}
    inst = None
    if klass is not None and klass.op == "class":
        k = fl.FUNCS[klass.dig][0]
        if not k.qual.startswith(SN + "."):
            # a helper of the backend itself: it is analysed along
            inst = fl.call_value(klass, rest, kw, node)
            return (), tuple(sorted(list(own.items()) + [("klass", mk("ext", "helper"))])), inst
        g = k.find("__init__")
        fa, fk = tuple(fl.fz(a) for a in rest), tuple(sorted((x, fl.fz(v)) for x, v in kw.items()))
        if g is not None:
            fa, fk = fl.norm_args(g, fa, fk, True)
        of = mk("tuple", *(fa + tuple(mk("arg", n, v) for n, v in fk)))
        return (), tuple(sorted(list(own.items()) + [("klass", mk("ext", k.qual)), ("of", of)])), None
    return (), tuple(sorted(list(own.items()) + [("klass", fl.fz(klass) if klass is not None else NONE)])), None


LABELS = {
    "local client": (SN + ".local", "Client"), "remote client": (SN + ".distributed", "Client"), "native server": (SN + ".server", "Server"),
    "client": (BK + ".synchronized", "SynchronizedClient"), "server": (BK + ".synchronized", "SynchronizedServer"),
}


def hooks_for(c):
    hooks, made = {}, {}
    for label, (module, name) in LABELS.items():
        h, k = constructed(c, module, name, "calls", label)
        made.setdefault(name, []).append(h)
        f = k.find("reset")
        if f is not None:
            hooks[f.qual] = reset(label)
        f = k.find("client")
        if f is not None:
            hooks[f.qual] = connected
    for name, hs in made.items():
        hooks["new:" + name] = first(hs)
    f = c.prog.need_func(SN + ".meta", "download_meta")

    def meta(fl, fn, b, args, kw, node):
        pa, pk = fl.norm_args(f, tuple(fl.fz(a) for a in args), tuple(sorted((k, fl.fz(v)) for k, v in kw.items())), False)
        return mk("call", "download_meta", pa, pk, NONE)

    hooks["download_meta"] = meta
    hooks[f.qual] = meta
    for n in ("files", "index_of", "address_of"):
        hooks[n] = opaque_call(n)
    hooks["leave"] = left_behind
    hooks[".acquire"], hooks[".release"] = acquired, released
    hooks["os.makedirs"] = log_ext("calls", "makedirs")
    return hooks


def acquired(fl, b, args, kw, node):
    fl.locked = getattr(fl, "locked", []) + [fl.fz(b)]
    return TRUE


def released(fl, b, args, kw, node):
    fl.locked = [x for x in getattr(fl, "locked", []) if x is not fl.fz(b)]
    return NONE


LOCKS = ("threading.Lock", "threading.RLock", "multiprocessing.Lock", "multiprocessing.RLock", "threading.Semaphore", "threading.BoundedSemaphore", "threading.Condition")


def once(c, loc):
    """Threads share the client of running servers: the first requests of two of them make one."""
    a = run_driver(c, source(c, DRV), "given", hooks=hooks_for(c))
    made = [x for x in getattr(a, "under", []) if x[0] == "remote client"]
    if not made:
        c.undecided("once", "running servers", "no client is made", loc)
    for _, held, node in made:
        if held and not any(x.op == "call" and x.args[0] in LOCKS for x in held):
            c.undecided("once", "running servers", "made inside " + show(held[0]), loc)
        else:
            c.expect(bool(held), "once", "running servers", "the client shared by threads is made without holding a lock", loc)


def opaque_call(name):
    return lambda fl, fn, b, args, kw, node: mk("call", name, tuple(fl.fz(a) for a in args), (), NONE)


def left_behind(fl, fn, b, args, kw, node):
    place, rank, server = [fl.fz(a) for a in args]
    fl.left = mk("list", place, fmt([rank]), fmt([server]))
    return NONE


def connected(fl, fn, b, args, kw, node):
    """The object a synchronised client stands for: made when every server is there."""
    b = fl.FUNCS[fn.dig][2] if b is None else b
    put_log(fl, "calls", "connect", fl.fz(b))
    if fl.fz(b).dig in getattr(fl, "held", {}):
        return fl.held[fl.fz(b).dig]
    return mk("call", "connected", (fl.fz(b),), (), NONE)


def first(hs):
    def h(fl, cls, b, args, kw, node):
        for x in hs:
            r = x(fl, cls, b, args, kw, node)
            if r is not None:
                return r
        return None

    return h


def reset(label):
    def h(fl, fn, b, args, kw, node):
        if b is None:
            return None
        put_log(fl, "calls", "reset " + label, fl.fz(b))
        return NONE

    return h


def both(c, text, a, b, env=None):
    m = source(c, text)
    h = hooks_for(c)
    if env is not None:
        h["$env"] = env
        h.update(getattr(env, "more", {}))
    return run_driver(c, m, a, hooks=h), run_driver(c, m, b, hooks=h)


def made(t):
    return t.op == "call" and t.args[0] in LABELS


def tidy(t):
    """Objects that were made are there; a server has no more partitions than the graph."""

    def f(x):
        if x.op in ("isnone", "truthy") and made(x.args[0]):
            return const(x.op == "truthy")
        if x.op == "min" and len(x.args) == 2:
            for n, m in (x.args, x.args[::-1]):
                if natural(n) and every_nth(m, n):
                    return m
        if x.op == "flat" and x.args[0].op == "max" and len(x.args[0].args) == 2 and ZERO in x.args[0].args:
            a, b = x.args[0].args
            return mk_flat(b if a is ZERO else a, *x.args[1:])
        if x.op == "idx" and x.args[0].op == "idx" and stride(x.args[0].args[1]):
            i, k = stride(x.args[0].args[1])
            return seq_idx(x.args[0].args[0], add(i, mul(k, x.args[1])))
        if x.op == "len" and x.args[0].op == "idx" and stride(x.args[0].args[1]):
            i, k = stride(x.args[0].args[1])
            return steps(seq_len(x.args[0].args[0]), i, k)
        if x.op == "until" and x.args[0].op == "inf" and x.args[2].op == "lt" and x.args[2].args[1] is ONE:
            # n - i - k * step < 1: the steps from i by k stay below n
            lin, c0 = coefs(x.args[2].args[0])
            ks = [m for m in lin if bv(x.args[1]) in m]
            if len(ks) == 1 and len(ks[0]) == 2 and lin[ks[0]] == -1:
                k, = [y for y in ks[0] if y is not bv(x.args[1])]
                if natural(k):
                    return steps(add(x.args[2].args[0], mul(k, bv(x.args[1]))), ZERO, k)
        if x.op == "flat" and x.args[2].op == "ite":
            m = every(x)
            if m is not None:
                return m
        if x.op == "exists" and present(x.args[2], x.args[1]):
            return TRUE
        return x

    t = rewrite(t, f)
    # the worker the search stops at is the one searched for
    stops = {open_(u.args[2], u.args[1], u): TRUE for u in subterms(t) if u.op == "until" and present(u.args[2], u.args[1])}
    if stops:
        t = rewrite(t, lambda x: stops.get(x, x))
    return canon(t)


def stride(x):
    if x.op == "slice" and x.args[1] is NONE and natural(x.args[0]) and natural(x.args[2]):
        return x.args[0], x.args[2]
    return None


def steps(n, i, k):
    """How many of i, i + k, ... are below n (a server index is below the number of servers)."""
    return mk("fdiv", sub(add(n, k), add(i, ONE)), k)


def every(x):
    """[... for p in range(n) if p % k == i] with i < k."""
    v = bv(x.args[1])
    for g, body in cases(x.args[2]):
        if body.op == "list" and not body.args:
            continue
        if g.op != "eq" or g.args[1] is not ZERO:
            return None
        lin, c0 = coefs(g.args[0])
        ms = [m for m in lin if len(m) == 1 and m[0].op == "mod" and m[0].args[0] is v]
        if len(ms) != 1 or abs(lin[ms[0]]) != 1:
            return None
        k = ms[0][0].args[1]
        i = sub(mk("mod", v, k), g.args[0]) if lin[ms[0]] == 1 else add(mk("mod", v, k), g.args[0])
        if not natural(i) or not natural(k) or v in subterms(i):
            return None
        return mk_flat(steps(x.args[0], i, k), x.args[1], open_(body, x.args[1], add(i, mul(k, v))))
    return None


def present(g, h):
    """A worker is in the sorted list of the workers it was taken from."""
    if g.op != "eq":
        return False
    ab = g.args
    if g.args[1] is ZERO:
        lin, _ = coefs(g.args[0])
        if len(lin) != 2 or sorted(lin.values()) != [-1, 1] or any(len(m) != 1 for m in lin):
            return False
        ab = tuple(m[0] for m in lin)
    for a, b in (ab, ab[::-1]):
        if a.op == b.op == "idx" and a.args[1] is bv(h) and a.args[0].op == "call" and a.args[0].args[0] == "sorted" and a.args[0].args[1][0] is b.args[0]:
            return True
    return False


def every_nth(m, n):
    """1 + (n - 1 - i) // k: the number of i, i + k, ... below n."""
    if m.op == "max" and len(m.args) == 2 and ZERO in m.args:
        m = m.args[1] if m.args[0] is ZERO else m.args[0]
    for q, p in ((m, lambda q: sub(q.args[0], q.args[1])), (sub(m, ONE), lambda q: q.args[0])):
        if q.op == "fdiv" and natural(sub(sub(n, ONE), p(q))) and natural(q.args[1]):
            return True
    return False


SOURCES = {
    # how a process finds its place: settings that are there, settings that are not
    "torch": ("LOCAL_RANK", ()),
    "mpi": ("OMPI_COMM_WORLD_LOCAL_RANK", ("LOCAL_RANK",)),
    "horovod": ("HOROVOD_LOCAL_RANK", ("LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_RANK")),
    "worker arguments": (None, ("LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_RANK", "HOROVOD_LOCAL_RANK", "TF_CONFIG")),
    "worker configuration": ("TF_CONFIG", ("LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_RANK", "HOROVOD_LOCAL_RANK")),
    "nothing": (None, ("LOCAL_RANK", "OMPI_COMM_WORLD_LOCAL_RANK", "HOROVOD_LOCAL_RANK", "TF_CONFIG")),
}


def environment(there, absent):
    def env(fl, k):
        if not is_const(k):
            return None
        if cval(k) in absent:
            return NONE
        if cval(k) == there:
            t = sym("env " + there)
            KINDS[t.dig] = "str"
            return t
        return None

    return env


def of_worker(env):
    """The configuration is that of a worker."""
    env.more = {".lower": lambda fl, b, args, kw, node: const("worker")}
    return env


def ranks(c, source_, loc):
    there, absent = SOURCES[source_]
    name = {"worker arguments": "placed_args", "explicit": "placed_given"}.get(source_, "placed")
    simple(c, name, "place from " + source_, loc, environment(there, absent))


KNOWN = ("os.getenv", "glob.glob", ".rstrip", ".readlines", "json.load", "json.loads", ".lower", ".rsplit", ".split", "hasattr") + tuple(LABELS)


def exchanged(c, name, what, loc, env=None):
    """Each process leaves its address for the others and reads theirs: what is read is put together from what was written."""
    a, b = both(c, DRV, name, name + "_spec", env)
    file, lines, why = left(a)
    if file is not None and elsewhere(a):
        c.violate("exchanged", what, "the address left for the others is not that of this process: " + show(list(outputs(a).values())[0]), loc)
    if file is None and why.startswith("0 files"):
        # nothing is left for the others
        c.equal("exchanged", what, tidy(log_of(a, "calls")), tidy(log_of(b, "calls")), loc)
        c.equal("refused", what, tidy(rejections(a)), tidy(rejections(b)), loc)
        return
    if file is None and why.startswith("no address"):
        c.violate("exchanged", what, why, loc)
        return
    if file is None:
        for rule in ("started", "graph", "refused", "exchanged"):
            c.undecided(rule, what, "exchange of addresses not recognised: " + why, loc)
        return
    fix = lambda t: tidy(read_back(t, file, lines))
    c.equal("started", what, fix(log_of(a, "calls")), tidy(log_of(b, "calls")), loc, known=KNOWN)
    c.equal("graph", what, fix(a.ret), tidy(b.ret), loc, known=KNOWN)
    c.equal("refused", what, fix(rejections(a)), tidy(rejections(b)), loc, known=KNOWN)
    (name, _), = outputs(a).items()
    who = [x for x in name.args[1][-1].args if not is_const(x)]
    which, = [x for x in lines if x != "address"]
    c.equal("exchanged", what, tidy(mk("list", mk("call", "os.path.join", file[0], (), NONE), fmt(who), which)), tidy(b.left), loc)


def left(fl):
    """(folder and ending of the file written, lines of it with the address and the server index named)"""
    out = outputs(fl)
    if len(out) != 1:
        return None, None, f"{len(out)} files written"
    (name, data), = out.items()
    if name.op == "call" and name.args[0] == "os.path.join" and (name.args[1][-1].op != "fmt" or not is_const(name.args[1][-1].args[-1])):
        return None, None, "no address file of its own for each process: " + show(name)
    if name.op != "call" or name.args[0] != "os.path.join" or len(name.args[1]) < 2 or name.args[1][-1].op != "fmt" or not is_const(name.args[1][-1].args[-1]):
        return None, None, show(name)
    if data.op != "list":
        return None, None, show(data)
    texts = None
    for g, t in cases(fmt(list(data.args))):
        one = [fmt(line) for line in split_lines(t)]
        if texts is not None and len(texts) != len(one):
            return None, None, show(data)
        texts = one if texts is None else [ite(g, x, y) for x, y in zip(one, texts)]
    out = []
    for text in texts:
        if all(is_address(x) for _, x in cases(text)):
            out.append("address")
        else:
            out.append(text)
    if len([x for x in out if x != "address"]) != 1:
        if all(p.op == "ext" or all(is_const(q) or q.op == "call" or named(q, None) for _, x in cases(p) for q in (x.args if x.op == "fmt" else (x,))) for p in data.args):
            return None, None, "no address and server index on two lines: " + show(data)
        return None, None, show(data)
    return (name.args[1][:-1], str(cval(name.args[1][-1].args[-1]))), out, ""


def elsewhere(fl):
    """No part of what is written is the name of a socket of this process."""
    (_, data), = outputs(fl).items()
    return not any(named(x, 0) for x in subterms(data))


def split_lines(t):
    lines = [[]]
    for q in t.args if t.op == "fmt" else (t,):
        if q.op == "ext" and q.args[0] == "os.linesep" or is_const(q) and cval(q) == "\n":
            lines.append([])
        else:
            lines[-1].append(q)
    return lines


def is_address(t):
    if t.op != "fmt" or len(t.args) not in (2, 3):
        return False
    host, port = t.args[0], t.args[-1]
    if is_const(host):
        return len(t.args) == 2 and cval(host) == "localhost:" and named(port, 1)
    return len(t.args) == 3 and is_const(t.args[1]) and cval(t.args[1]) == ":" and named(host, 0) and named(port, 1)


def named(t, i):
    return t.op == "idx" and (i is None or t.args[1] is const(i)) and t.args[0].op == "call" and t.args[0].args[0] == ".getsockname"


def read_back(t, file, lines):
    folder, ending = file

    def opened(x):
        """The file of a worker that is read."""
        if x.op == "call" and x.args[0] == "open":
            n = x.args[1][0]
            if n.op == "idx" and n.args[0].op == "call" and n.args[0].args[0] == "files":
                return n
        return None

    def f(x):
        if x.op == "call" and x.args[0] == "glob.glob" and len(x.args[1]) == 1:
            n = x.args[1][0]
            if n.op == "call" and n.args[0] == "os.path.join" and n.args[1][:-1] == folder and is_const(n.args[1][-1]) and ending.endswith(str(cval(n.args[1][-1]))[1:]) and str(cval(n.args[1][-1]))[:1] == "*":
                return mk("call", "files", (mk("call", "os.path.join", folder, (), NONE),), (), NONE)
        if x.op == "call" and x.args[0] == "sorted" and x.args[1][0].op == "call" and x.args[1][0].args[0] == "files":
            return x.args[1][0]
        if x.op == "call" and x.args[0] == "sorted" and x.args[2] and x.args[2][0][0] == "key" and x.args[2][0][1] is mk("lambda", 1, mk("idx", mk("lamv", 0), ZERO)):
            # servers have different indexes
            return mk("call", "sorted", x.args[1], x.args[2][1:], x.args[3])
        if x.op == "idx" and opened(x.args[0]) is not None:
            return seq_idx(f(mk("call", ".readlines", (x.args[0],), (), NONE)), x.args[1])
        if x.op == "len" and opened(x.args[0]) is not None:
            return seq_len(f(mk("call", ".readlines", (x.args[0],), (), NONE)))
        if x.op == "call" and x.args[0] in (".readlines", "list") and opened(x.args[1][0]) is not None:
            n = opened(x.args[1][0])
            rows = [mk("call", "address_of", (n,), (), NONE) if r == "address" else mk("call", "index_of", (n,), (), NONE) for r in lines]
            return mk("list", *[fmt([r, mk("ext", "os.linesep")]) if i + 1 < len(rows) else mk("fmt", r) for i, r in enumerate(rows)])
        if x.op == "call" and x.args[0] in (".rstrip", ".strip") and x.args[1][0].op == "fmt" and x.args[1][0].args[-1] is mk("ext", "os.linesep") and len(x.args[1][0].args) == 2:
            return x.args[1][0].args[0]
        if x.op == "call" and x.args[0] == "int" and x.args[1][0].op == "fmt" and len(x.args[1][0].args) == 1:
            return x.args[1][0].args[0]
        return x

    return rewrite(rewrite(t, f), f)


def simple(c, name, what, loc, env=None):
    a, b = both(c, DRV, name, name + "_spec", env)
    c.equal("started", what, tidy(log_of(a, "calls")), tidy(log_of(b, "calls")), loc, known=KNOWN)
    c.equal("graph", what, tidy(a.ret), tidy(b.ret), loc, known=KNOWN)
    c.equal("refused", what, tidy(rejections(a)), tidy(rejections(b)), loc, known=KNOWN)


def run(c):
    k = c.prog.need_class(BK + ".client", "SnarkDistributedBackend")
    lk = c.prog.need_class(BK + ".client", "SnarkLocalBackend")
    sk = c.prog.need_class(SN + ".distributed", "Server")
    c.rule("started", "servers, clients and folders made, in which order and with which arguments")
    c.rule("graph", "the client handed to the user")
    c.rule("exchanged", "the address and server index each process leaves for the others")
    c.rule("refused", "the conditions under which a start is refused")
    c.clause("started", "graph in memory", simple, "local", "graph in memory", floc(lk.find("__init__")))
    loc = floc(k.find("__init__"))
    for n, what in (("given", "running servers"), ("unused", "running servers without requests"), ("started", "servers to start"),
                    ("stopped", "servers to stop"), ("client_only", "client without a server")):
        c.clause("started", what, simple, n, what, loc)
    c.rule("once", "a client shared by threads is made while a lock is held")
    c.clause("once", "running servers", once, loc)
    c.floor("once", 1)
    c.clause("started", "servers to find", exchanged, "found", "servers to find", loc)
    c.clause("started", "servers to find when none are given", exchanged, "found_none", "servers to find when none are given", loc)
    for n in SOURCES:
        if n not in ("nothing",):
            c.clause("started", "servers to find from " + n, exchanged, "found_args" if n == "worker arguments" else "found_world", "servers to find from " + n, loc, of_worker(environment(*SOURCES[n])))
    for n in SOURCES:
        c.clause("started", "place from " + n, ranks, n, loc)
    c.clause("started", "partitions of a server", simple, "shards", "partitions of a server", floc(sk.find("__init__")))
    c.clause("started", "partitions of a server by default", simple, "shards_plain", "partitions of a server by default", floc(sk.find("__init__")))
    c.floor("started", 14)
    c.floor("graph", 14)
    c.floor("refused", 14)
    c.floor("exchanged", 2)
