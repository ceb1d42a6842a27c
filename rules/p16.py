"""Start and stop of a cluster: who waits for whom, and the marks left in the shared folder."""
from vlib import terms as TT
from vlib.canon import arrays as canon

from .common import *

SY = GE + ".backends.snark.synchronized"
DRV = '''
import os
from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedClient, SynchronizedServer


# (these are given their meaning by the check)
def note(*what):
    pass


def other_process():
    pass


def another():
    pass


def wait_for(condition, timeout):
    pass


def absent(pattern):
    pass


def told():
    pass


class Thing:
    def __init__(self, first, second=None):
        note("made", first, second)

    def reset(self):
        note("released", self)


# ---- clients
def opened(path, rank, servers: "count", timeout, x, y):
    SynchronizedClient(path, rank, servers, timeout, Thing, x, second=y)


def opened_spec(path, rank, servers: "count", timeout, x, y):
    mark(path, rank, "client")


def mark(path, index, kind):
    mine = os.path.join(path, f"snark_{index}.{kind}")
    assert not os.path.exists(mine)
    note("create", mine)
    return mine


def connected(path, mine, servers, timeout, x, y):
    theirs = another()
    if theirs is not None:
        return theirs
    late = False
    for i in range(servers):
        if wait_for(os.path.exists(os.path.join(path, f"snark_{i}.server")), timeout):
            late = True
    if late:
        note("remove", mine)
        raise TimeoutError
    return Thing(x, y)


def used(path, rank, servers: "count", timeout, x, y):
    c = SynchronizedClient(path, rank, servers, timeout, Thing, x, second=y)
    try:
        return c.client
    except TimeoutError:
        note("timeout")


def used_spec(path, rank, servers: "count", timeout, x, y):
    mine = mark(path, rank, "client")
    try:
        return connected(path, mine, servers, timeout, x, y)
    except TimeoutError:
        note("timeout")


def reused(path, rank, servers: "count", timeout, x, y):
    c = SynchronizedClient(path, rank, servers, timeout, Thing, x, second=y)
    try:
        return c.client, c.client
    except TimeoutError:
        note("timeout")


def reused_spec(path, rank, servers: "count", timeout, x, y):
    mine = mark(path, rank, "client")
    try:
        t = connected(path, mine, servers, timeout, x, y)
        return t, t
    except TimeoutError:
        note("timeout")


def dropped(path, rank, servers: "count", timeout, x, y):
    c = SynchronizedClient(path, rank, servers, timeout, Thing, x, second=y)
    other_process()
    c.reset()


def dropped_spec(path, rank, servers: "count", timeout, x, y):
    mine = mark(path, rank, "client")
    pid = os.getpid()
    other_process()
    theirs = another()
    if theirs is not None:
        theirs.reset()
    if os.getpid() == pid:
        note("remove", mine)


def closed(path, rank, servers: "count", timeout, x, y):
    c = SynchronizedClient(path, rank, servers, timeout, Thing, x, second=y)
    try:
        c.client
    except TimeoutError:
        return
    other_process()
    c.reset()


def closed_spec(path, rank, servers: "count", timeout, x, y):
    mine = mark(path, rank, "client")
    pid = os.getpid()
    try:
        t = connected(path, mine, servers, timeout, x, y)
    except TimeoutError:
        return
    other_process()
    t.reset()
    if os.getpid() == pid:
        note("remove", mine)


# ---- servers
def started(path, index, timeout, x, y):
    SynchronizedServer(path, index, timeout, Thing, x, second=y)


def started_spec(path, index, timeout, x, y):
    child(path, index, x, y)


def child(path, index, x, y):
    pass


def child_spec(path, index, x, y):
    Thing(x, y)
    mark(path, index, "server")
    told()


def stopped(path, index, timeout, x, y):
    s = SynchronizedServer(path, index, timeout, Thing, x, second=y)
    other_process()
    s.reset()


def stopped_spec(path, index, timeout, x, y):
    pid = os.getpid()
    child(path, index, x, y)
    other_process()
    wait_for(absent(os.path.join(path, "*.client")), timeout)
    note("stop")
    if os.getpid() == pid:
        note("remove", os.path.join(path, f"snark_{index}.server"))
'''
LOG = ("h", mk("call", "open", (const("calls of calls"), const("wb")), (), ONE), "$out")
TASKS = ("h", mk("call", "open", (const("calls of tasks"), const("wb")), (), ONE), "$out")
RACED = mk("atom", "another thread was first")
THREADS = ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor")


def h_note(fl, f, b, args, kw, node):
    a = [fl.fz(x) for x in args]
    put_log(fl, "calls", cval(a[0]), *a[1:])
    return NONE


def apart(fl, fn):
    """What fn does, without doing it: (entries, result)."""
    before = fl.getv(LOG)
    live = fl.S.live
    fl.S.vals[LOG] = mk("list")
    r = fn()
    did = fl.S.vals[LOG]
    fl.S.vals[LOG] = before
    return did, r


def quote(t):
    """A condition as something to wait for: it is about a later time, not about now."""
    if t.op == "ite":
        return mk("waiting", "ite", *[quote(x) for x in t.args])
    if t.op == "truthy" and t.args[0].op == "call" and t.args[0].args[0] == "glob.glob":
        t = TT.nonempty(t.args[0])
    return mk("waiting", t.op, *t.args) if t.op not in ("const", "call") else t


def h_poll(fl, stop, node):
    if stop is None:
        put_log(fl, "calls", "until", fl.opaque("loop", node))
        return
    fl.polled = stop
    for a in flags(stop):
        stop = TT.assume(stop, a, fl.begun.get(a.args[1], TRUE) is not FALSE)
    put_log(fl, "calls", "until", quote(stop))


def flags(t):
    return [a for a in TT.gate_atoms(t).values() if a.op == "atom" and a.args[0] == "flag"]


def h_turn(fl, st, task=None):
    """Flags of a task may be changed by others while it waits."""
    task = task or getattr(fl, "task", None)
    return {k: mk("atom", "flag", k[2]) for k, v in st.vals.items() if k[0] == "h" and k[1] is task and (v in (TRUE, FALSE) or v.op == "ite" and all(x in (TRUE, FALSE) for _, x in cases(v)))} if task is not None else {}


def perform(fl, task, args, kw, node):
    before = getattr(fl, "task", None)
    fl.task = task
    try:
        return apart(fl, lambda: fl.call_value(task, list(args), dict(kw), node))
    finally:
        fl.task = before


def h_submit(fl, b, args, kw, node):
    """A task of another thread: what it waits for."""
    if not args:
        return None
    fl.begun = {k[2]: fl.S.vals[k] for k in h_turn(fl, fl.S, args[0])}
    did, r = perform(fl, args[0], args[1:], kw, node)
    put_log(fl, "tasks", "task", did, args[0], mk("tuple", *args[1:]))
    return mk("future", did, fl.fz(r))


def h_result(fl, b, args, kw, node):
    b = fl.fz(b)
    if b.op != "future":
        return None
    awaited(fl, b.args[0], fl.fz(argument(None, args, kw, 0, "timeout")), node)
    return b.args[1]


def awaited(fl, did, t, node):
    put_log(fl, "calls", "await", did, t)
    fl.branch(mk("late", did, t), lambda: fl.do_raise("TimeoutError", (), node), lambda: None)


def h_wait_for(fl, f, b, args, kw, node):
    did = mk("list", mk("entry", "until", quote(fl.truth(args[0]))))
    t = fl.fz(args[1])
    put_log(fl, "calls", "await", did, t)
    return mk("late", did, t)


def h_enter(fl, v, node):
    """A lock: another thread may have been here before."""
    v = fl.fz(v)
    if v.op != "call" or v.args[0] not in ("threading.Lock", "threading.RLock", "multiprocessing.Lock", "multiprocessing.RLock"):
        return
    held = getattr(fl, "held", [])
    if (v in fl.ctx or v in held) and not v.args[0].endswith("RLock"):
        put_log(fl, "calls", "deadlock")
        return
    for k, x in list(fl.S.vals.items()):
        if k[0] == "h" and x is v and k[1].op == "inst":
            for j, y in list(fl.S.vals.items()):
                if j[0] == "h" and j[1] is k[1] and j[2] in later(fl, k[1]) and any(z is NONE for _, z in cases(y)):
                    fl.setv(j, lift(lambda z: ite(RACED, fl.other, NONE) if z is NONE else z, y))


def h_acquire(fl, b, args, kw, node):
    h_enter(fl, b, node)
    fl.held = getattr(fl, "held", []) + [fl.fz(b)]
    return TRUE


def h_release(fl, b, args, kw, node):
    b = fl.fz(b)
    fl.held = [x for x in getattr(fl, "held", []) if x is not b]
    return NONE


def later(fl, inst):
    """Attributes written after construction: the ones that threads share."""
    cls = fl.class_of(inst)
    out = set()
    for k in cls.mro() if cls is not None else ():
        for n, f in k.methods.items():
            if n != "__init__":
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        out.add(x.attr)
    return out


def h_exit(fl, v, node):
    """Leaving a pool of threads waits for all of them: those that are late have to be told to give up."""
    v = fl.fz(v)
    if v.op != "call" or v.args[0] not in THREADS:
        return
    tasks = fl.getv(TASKS)
    fl.setv(TASKS, mk("list"))

    def one(t):
        if t.op != "entry":
            fl.note("thread not followed", node)
            return
        did, task, args = t.args[1:]
        fl.polled = TRUE
        # (it began with the flags of a new task)
        current = {k: v for k, v in fl.S.vals.items() if k in h_turn(fl, fl.S, task)}
        for k in current:
            fl.S.vals[k] = fl.begun.get(k[2], current[k])
        perform(fl, task, args.args, {}, node)
        fl.S.vals.update(current)
        stop = fl.polled
        for a in flags(stop):
            now = fl.truth(fl.read_attr(task, a.args[1], node))
            stop = or_(and_(now, TT.assume(stop, a, True)), and_(not_(now), TT.assume(stop, a, False)))
        for x in set(subterms(stop)):
            if x.op == "late" and x.args[0] is did:
                stop = constrain(stop, fl.truth(x))
        if stop is not TRUE:
            put_log(fl, "calls", "stuck", quote(stop))

    fl.iter_term(tasks, one, node, None)


def h_getpid(fl, f, b, args, kw, node):
    return getattr(fl, "pid", sym("pid"))


def h_other(fl, f, b, args, kw, node):
    fl.pid = sym("later pid")
    return NONE


def h_another(fl, f, b, args, kw, node):
    return ite(RACED, fl.other, NONE)


def in_child(fl, fn):
    st = fl.S.copy()
    pid = getattr(fl, "pid", sym("pid"))
    fl.pid = sym("child pid")
    ctx, fl.ctx = fl.ctx, []
    did, _ = apart(fl, fn)
    fl.S, fl.ctx, fl.pid = st, ctx, pid
    put_log(fl, "calls", "child", did)
    return NONE


def h_start(fl, b, args, kw, node):
    """A process works on a copy of the memory."""
    cls = fl.class_of(b)
    if cls is not None and cls.find("run") is not None and any(x.split(".")[-1] == "Process" for x in cls.ext_bases()):
        return in_child(fl, lambda: fl.call_method(b, "run", [], {}, node))
    t = fl.fz(b)
    if t.op == "call" and str(t.args[0]).split(".")[-1] == "Process":
        k = dict(t.args[2])
        if "target" in k and not t.args[1]:
            a = k.get("args", mk("tuple"))
            if a.op in ("tuple", "list"):
                return in_child(fl, lambda: fl.call_value(k["target"], list(a.args), {}, node))
    return None


def h_child(m):
    def h(fl, f, b, args, kw, node):
        return in_child(fl, lambda: fl.invoke(fl.function_term(m.funcs["child_spec"], None, None), args, {}, node))

    return h


def is_event(b):
    return b.op == "call" and str(b.args[0]).split(".")[-1] == "Event"


def h_wait(fl, b, args, kw, node):
    if not is_event(fl.fz(b)):
        return None
    put_log(fl, "calls", "told", *[fl.fz(a) for a in args], *[fl.fz(a) for a in kw.values()])
    return TRUE


def h_set(fl, b, args, kw, node):
    if not is_event(fl.fz(b)):
        return None
    put_log(fl, "calls", "stop")
    return NONE


def h_open(fl, f, b, args, kw, node):
    a = [fl.fz(x) for x in args]
    mode = a[1] if len(a) > 1 else fl.fz(kw.get("mode", const("r")))
    if not a or not is_const(mode) or not set(str(cval(mode))) & set("wxa"):
        return None
    if "x" in cval(mode):
        fl.branch(mk("bool", mk("call", "os.path.exists", (a[0],), (), NONE)), lambda: fl.do_raise("FileExistsError", (), node), lambda: None)
    put_log(fl, "calls", "create", a[0])
    return None


def h_remove(fl, f, b, args, kw, node):
    put_log(fl, "calls", "remove", fl.fz(args[0]))
    return NONE


def h_unlink(fl, b, args, kw, node):
    put_log(fl, "calls", "remove", fl.fz(b))
    return NONE


def h_there(fl, b, args, kw, node):
    b = fl.fz(b)
    return mk("call", "os.path.exists", (b,), (), NONE) if b.op == "call" and b.args[0] == "os.path.join" else None


def h_glob(fl, f, b, args, kw, node):
    t = mk("call", "glob.glob", tuple(fl.fz(a) for a in args), (), NONE)
    KINDS[t.dig] = "list"
    return t


def h_absent(fl, f, b, args, kw, node):
    return not_(TT.nonempty(h_glob(fl, f, b, args, kw, node)))


def both(c, name):
    m = source(c, DRV)
    hooks = {
        "note": h_note, "other_process": h_other, "another": h_another, "wait_for": h_wait_for, "absent": h_absent, "child": h_child(m), "told": lambda fl, f, b, args, kw, node: put_log(fl, "calls", "told") or NONE,
        "$explicit": {"TimeoutError"}, "$poll": h_poll, "$turn": h_turn, ".acquire": h_acquire, ".release": h_release, "$enter": h_enter, "$exit": h_exit, ".submit": h_submit, ".result": h_result, ".start": h_start, ".wait": h_wait, ".set": h_set, ".unlink": h_unlink, ".exists": h_there, ".is_file": h_there,
        "glob.glob": h_glob, "glob.iglob": h_glob, ".glob": lambda fl, b, args, kw, node: h_glob(fl, None, None, [fl.pathjoin([fl.fz(b), fl.fz(args[0])])], {}, node),
        "time.sleep": h_none, "os.getpid": h_getpid, "open": h_open, "os.remove": h_remove, "os.unlink": h_remove, ".open": lambda fl, b, args, kw, node: h_open(fl, None, None, [b] + list(args), kw, node),
    }
    out = []
    for n in (name, name + "_spec"):
        fl = new_flow(c, hooks=hooks)
        fl.other = mk("inst", m.classes["Thing"].qual, "of another thread")
        fl.CLS[fl.other.dig] = m.classes["Thing"]
        try:
            fl.ret = fl.run(m.funcs[n])
            fl.failed = None
        except (Budget, RecursionError) as ex:
            fl.failed = type(ex).__name__
            fl.ret = mk("opaque", "budget", "", "")
        if n is name:
            c.saw(fl)
        out.append(fl)
    return out


def tidy(t):
    def f(x):
        if x.op == "inst" and isinstance(x.args[1], T):
            return sym("own client")
        if x.op == "call" and x.args[0] in ("os.path.isfile", "os.path.lexists"):
            return mk("call", "os.path.exists", *x.args[1:])
        return x

    return canon(rewrite(t, f))


def scenario(c, name, what, loc):
    a, b = both(c, name)
    if a.failed:
        c.undecided("waits", what, "analysis budget exceeded", loc)
        return
    c.equal("waits", what, tidy(log_of(a, "calls")), tidy(log_of(b, "calls")), loc, known=("os.path.exists", "glob.glob"))
    c.equal("client", what, tidy(a.ret), tidy(b.ret), loc)
    c.equal("refused", what, tidy(rejections(a)), tidy(rejections(b)), loc)


def run(c):
    k = c.prog.need_class(SY, "SynchronizedClient")
    s = c.prog.need_class(SY, "SynchronizedServer")
    c.rule("waits", "what is waited for, made, released, marked and unmarked, in which order and under which conditions")
    c.rule("client", "the client handed out")
    c.rule("refused", "the conditions under which an exception is raised")
    for n, what in (("opened", "client made"), ("used", "client used"), ("reused", "client used twice"), ("dropped", "unused client closed"), ("closed", "client closed")):
        c.clause("waits", what, scenario, n, what, floc(k.find("__init__")))
    for n, what in (("started", "server started"), ("stopped", "server stopped")):
        c.clause("waits", what, scenario, n, what, floc(s.find("__init__")))
    for r in ("waits", "client", "refused"):
        c.floor(r, 7)
