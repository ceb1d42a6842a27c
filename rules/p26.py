"""Workers of tensorflow: how they wait for each other, and embeddings written and read back."""
from .common import *
from . import p16, p18

DS = "deepgnn.tf.common.dist_sync"
HK = "deepgnn.tf.common.hooks"
UT = "deepgnn.tf.common.utils"
T2 = "deepgnn.tf.common.tf2_trainer"
DRV = '''
import glob
import os
import numpy as np
import tensorflow as tf
from deepgnn.tf.common.dist_sync import DistributedSync
from deepgnn.tf.common.hooks import ChiefCheckpointSaverHook, SessionExitHook
from deepgnn.tf.common.utils import setup_worker_hooks, setup_chief_only_hooks, node_embedding_to_string, load_embeddings
from deepgnn.tf.common.tf2_trainer import EagerTrainer


# (these are given their meaning by the check)
def note(what, *args):
    pass


def made(folder, index, count):
    return DistributedSync(folder, index, count)


def until(path):
    pass


# ---- waiting
def waits(folder: str, index: "count", count: "count", tag: str):
    if index > 0:
        made(folder, index, count).sync(tag)


def waits_spec(folder: str, index: "count", count: "count", tag: str):
    if index > 0:
        note("written", os.path.join(folder, f"sync.{tag}.{index}"))
        for i in range(count):
            until(os.path.join(folder, f"sync.{tag}.{i}"))


def waits_others(folder: str, index: "count", count: "count", tag: str):
    if index > 0:
        note("written", os.path.join(folder, f"sync.{tag}.{index}"))
        for i in range(count):
            if i != index:
                until(os.path.join(folder, f"sync.{tag}.{i}"))


def first(folder: str, count: "count"):
    made(folder, 0, count)


# ---- ends of sessions
class Sync:
    def __init__(self, index):
        self.task_index = index

    def sync(self, tag):
        note("wait", tag)


def chief_end(folder: str, secs, session):
    hook = ChiefCheckpointSaverHook(Sync(0), folder, secs)
    hook.end(session)


def chief_end_spec(folder: str, secs, session):
    note("saver", folder, secs)
    note("wait", "session")
    note("end", session)


def not_chief(folder: str, secs, index: "count"):
    ChiefCheckpointSaverHook(Sync(index), folder, secs)


def not_chief_spec(folder: str, secs, index: "count"):
    assert index == 0
    note("saver", folder, secs)


def worker_end(session, index: "count"):
    SessionExitHook(Sync(index)).end(session)


def worker_end_spec(session, index: "count"):
    note("wait", "session")


# ---- eager trainer
class File:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        note("closed")

    def write(self, text):
        note("line", text)

    def writelines(self, lines):
        for x in lines:
            note("line", x)

    def close(self):
        note("closed")


class Call:
    def __init__(self, predict, test):
        self.predict, self.test = predict, test


class Model:
    def load_weights(self, path):
        note("weights", path)

    def compile(self, optimizer="rmsprop", loss=None, metrics=None):
        note("compile", optimizer, loss, metrics)

    def fit(self, x, epochs=1, callbacks=None, verbose="auto", steps_per_epoch=None):
        note("fit", x, epochs, steps_per_epoch, told(callbacks))

    def evaluate(self, x, callbacks=None, verbose="auto", steps=None):
        note("evaluate", x, steps, told(callbacks))

    def predict(self, x, callbacks=None, verbose="auto", steps=None):
        note("predict", x, steps)
        for cb in callbacks:
            if isinstance(cb, Call):
                for b in range(batches()):
                    cb.predict(b, {"outputs": outputs(b)})


def told(callbacks):
    pass


def batches():
    pass


def outputs(b):
    pass


def saved_in(path):
    pass


def trainer(folder, seed):
    return EagerTrainer(folder, seed)


def placed(folder: str, seed):
    t = trainer(folder, seed)
    return t.task_index, t.worker_size


def placed_spec(folder: str, seed):
    return config()


def config():
    pass


def alone(folder: str, seed):
    t = trainer(folder, seed)
    return t.task_index, t.worker_size


def alone_spec(folder: str, seed):
    return 0, 1


def inferred(folder: str, seed, data: "optional", lines: "optional", prefix: str, steps):
    trainer(folder, seed).inference(data, Model(), lines, prefix, steps)


def inferred_spec(folder: str, seed, data: "optional", lines: "optional", prefix: str, steps):
    assert data is not None
    place = os.path.join(folder, "./")
    note("weights", os.path.join(place, "ckpt"))
    note("opened", os.path.join(place, f"{prefix}_{config()[0]}.tsv"))
    note("predict", data, steps)
    for b in range(batches()):
        for x in node_embedding_to_string(outputs(b)) if lines is None else lines(outputs(b)):
            note("line", x)
    note("closed")


def trained(folder: str, seed, data: "optional", best, loss, metrics, more, epochs, steps):
    trainer(folder, seed).train(data, Model(), best, loss, metrics, more, epochs, steps)


def trained_spec(folder: str, seed, data: "optional", best, loss, metrics, more, epochs, steps):
    assert data is not None
    note("compile", best, loss, metrics)
    back = [tf.keras.callbacks.ModelCheckpoint(os.path.join(os.path.join(folder, "./"), "ckpt"))]
    if more:
        back.extend(more)
    note("fit", data, epochs, steps, told(back))


def tried(folder: str, seed, data: "optional", loss, metrics, more, steps):
    trainer(folder, seed).evaluate(data, Model(), loss, metrics, more, steps)


def tried_spec(folder: str, seed, data: "optional", loss, metrics, more, steps):
    assert data is not None
    note("compile", "rmsprop", loss, metrics)
    note("weights", os.path.join(os.path.join(folder, "./"), "ckpt"))
    back = []
    if more:
        back.extend(more)
    note("evaluate", data, steps, told(back))


# ---- embeddings
def lines(nodes, rows, invalid):
    return node_embedding_to_string([nodes, rows], invalid)


def lines_spec(nodes, rows, invalid):
    assert nodes.ndim == 1
    assert rows.ndim == 2
    assert nodes.shape[0] == rows.shape[0]
    keep = np.where(nodes != invalid)
    return ["{}\\t{}\\n".format(n, " ".join(["{:.6f}".format(x) for x in r])) for n, r in zip(nodes[keep], rows[keep])]


def lines_each(nodes, rows, invalid):
    assert nodes.ndim == 1
    assert rows.ndim == 2
    assert nodes.shape[0] == rows.shape[0]
    return ["{}\\t{}\\n".format(n, " ".join(["{:.6f}".format(x) for x in r])) for n, r in zip(nodes, rows) if n != invalid]


def read(folder: str, nodes: "count", size: "count", pattern: str):
    return load_embeddings(folder, nodes, size, pattern)


def read_spec(folder: str, nodes: "count", size: "count", pattern: str):
    out = np.zeros((nodes, size), dtype=np.float32)
    for name in glob.glob(os.path.join(folder, pattern)):
        for line in open(name):
            cells = line.split("\\t")
            values = [float(x) for x in cells[1].split(" ")]
            assert len(values) == size
            out[int(cells[0])] = values
    return out


# ---- hooks of sessions
def worker(folder: str, index: "count", logged, shown, sync: "optional", name: str, each, often, secs):
    return setup_worker_hooks(folder, index, logged, shown, sync, name, each, often, secs)


def worker_spec(folder: str, index: "count", logged, shown, sync: "optional", name: str, each, often, secs):
    out = []
    if len(logged) > 0:
        out.append(tf.estimator.LoggingTensorHook(logged, every_n_iter=each))
    if len(shown) > 0:
        ops = [tf.compat.v1.summary.scalar(name=k, tensor=shown[k]) for k in shown]
        writer = tf.compat.v1.summary.FileWriter(os.path.join(folder, name, f"worker_{index}"))
        out.append(tf.estimator.SummarySaverHook(save_steps=often, summary_writer=writer, summary_op=ops))
    if index == 0:
        out.append(tf.estimator.ProfilerHook(save_secs=secs, output_dir=os.path.join(folder, "profile")))
    if sync is not None:
        out.append(SessionExitHook(sync))
    return out


def chief(index: "count", folder: str, sync: "optional", secs):
    return setup_chief_only_hooks(index, folder, sync, secs)


def chief_spec(index: "count", folder: str, sync: "optional", secs):
    if index == 0 and sync is not None:
        return [ChiefCheckpointSaverHook(sync, folder, secs)]
    return None
'''
EAGER = ("placed", "alone", "inferred", "trained", "tried")
CASES = {
    "waits": (DS, "DistributedSync.sync"), "chief_end": (HK, "ChiefCheckpointSaverHook.end"), "not_chief": (HK, "ChiefCheckpointSaverHook.__init__"), "worker_end": (HK, "SessionExitHook.end"), "placed": (T2, "EagerTrainer.__init__"), "alone": (T2, "EagerTrainer.__init__"), "inferred": (T2, "EagerTrainer.inference"), "trained": (T2, "EagerTrainer.train"), "tried": (T2, "EagerTrainer.evaluate"),
    "lines": (UT, "node_embedding_to_string"), "read": (UT, "load_embeddings"),
    "worker": (UT, "setup_worker_hooks"), "chief": (UT, "setup_chief_only_hooks"),
}


def hooks(c, m, name):
    def told(what, names):
        def h(fl, cls, b, args, kw, node):
            a = [fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(names)]
            return mk("call", what, tuple(a), tuple(sorted((k, fl.fz(v)) for k, v in kw.items() if k not in names)), NONE)

        return h

    def opened(fl, f, b, args, kw, node):
        mode = fl.fz(argument(None, args, kw, 1, "mode"))
        if mode is NONE or mode is const("r"):
            return None
        put_log(fl, "calls", "written", fl.fz(args[0]))
        return None

    def taken(fl, f, b, args, kw, node):
        if and_(fl.S.guard, fl.S.live) is not FALSE:
            put_log(fl, "removals", "removed", fl.fz(args[0]))
        return NONE

    def polled(fl, stop, node):
        put_log(fl, "calls", "until", p16.quote(stop) if stop is not None else fl.opaque("loop", node))

    def until(fl, f, b, args, kw, node):
        put_log(fl, "calls", "until", p16.quote(as_bool(mk("call", "os.path.exists", (fl.fz(args[0]),), (), NONE))))
        return NONE

    out = {"note": p18.h_note, "glob.glob": p16.h_glob}
    if name in ("waits", "first"):
        out.update({"open": opened, "os.remove": taken, "os.unlink": taken, "$poll": polled, "until": until, ".exists": p16.h_there})
    if name in ("chief_end", "not_chief", "worker_end"):
        def begun(fl, f, b, args, kw, node):
            put_log(fl, "calls", "saver", *[fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(("checkpoint_dir", "save_secs"))])
            return NONE

        def ended(fl, f, b, args, kw, node):
            put_log(fl, "calls", "end", fl.fz(args[0]))
            return NONE

        out.update({"super.__init__": begun, "super.end": ended})
        return out
    if name in EAGER:
        def called(fl, f, b, args, kw, node):
            return fl.construct(m.classes["Call"], [kw.get("on_predict_batch_end", NONE), kw.get("on_test_batch_end", NONE)], {}, node)

        def opened(fl, f, b, args, kw, node):
            put_log(fl, "calls", "opened", fl.fz(args[0]))
            return fl.construct(m.classes["File"], [], {}, node)

        def own(fl, f, b, args, kw, node):
            """What is called back, without what only watches."""
            watching = {TT.mk("call", x, (), (), NONE).dig for x in ("logger", "board")}

            def mine(x):
                if x.op == "cat":
                    return cat([mine(y) for y in x.args])
                if x.op == "ite":
                    return ite(x.args[0], mine(x.args[1]), mine(x.args[2]))
                return mk("list", *[y for y in x.args if y.dig not in watching and fl.class_of(y) is not m.classes["Call"]]) if x.op == "list" else x

            return mine(fl.as_list(fl.fz(args[0])))

        index, workers = mk("sym", "index of the task"), mk("sym", "tasks of the job")
        KINDS[workers.dig] = "list"
        found = mk("dict", mk("kv", const("cluster"), mk("dict", mk("kv", const("worker"), workers))), mk("kv", const("task"), mk("dict", mk("kv", const("index"), index))))
        number = mk("sym", "batches there are")
        TT.COUNTS.add(number.dig)
        env = const("config") if name != "alone" else NONE
        for n in ("os.environ.get", "os.getenv"):
            out[n] = lambda fl, f, b, args, kw, node: env
        for n, v in (("logger", "new:_LoggerCallback"), ("board", "tensorflow.keras.callbacks.TensorBoard")):
            out[v] = lambda fl, f, b, args, kw, node, n=n: mk("call", n, (), (), NONE)
        for n in ("log_telemetry", "log_model_info", ".set_model", "set_random_seed", "_set_gpu_device"):
            out[n] = lambda fl, *a: NONE
        out.update({
            "tensorflow.keras.callbacks.LambdaCallback": called, "tensorflow.io.gfile.GFile": opened, "open": opened, "json.loads": lambda fl, f, b, args, kw, node: found, "told": own,
            "tensorflow.keras.callbacks.ModelCheckpoint": told("saved in", ("filepath",)), "batches": lambda fl, f, b, args, kw, node: number, "outputs": lambda fl, f, b, args, kw, node: mk("call", "output", (fl.fz(args[0]),), (), NONE),
            "config": lambda fl, f, b, args, kw, node: mk("tuple", index, seq_len(workers)), "node_embedding_to_string": told("as lines", ("embedding_tensor_list", "invalid_id")),
        })
        return out
    out["new:ChiefCheckpointSaverHook"] = told("saver", ("dist_sync", "checkpoint_dir", "save_secs", "save_steps"))
    out["new:SessionExitHook"] = told("waiter", ("dist_sync",))
    return out


def plain(t):
    """Breaks at the end of a line do not matter to numbers, nor does how places that hold are spelled."""

    def f(x):
        if x.op == "call" and x.args[0] in (".strip", ".rstrip") and x.args[1]:
            return x.args[1][0]
        if x.op == "call" and x.args[0] in ("np.where", "np.nonzero", "np.flatnonzero") and len(x.args[1]) == 1:
            return x.args[1][0]
        if x.op == "call" and x.args[0] == ".format" and x.args[1][0] is const("{:.6f}"):
            return mk("call", "format", (x.args[1][1], const(".6f")), (), NONE)
        if x.op == "fmt" and len(x.args) == 1 and x.args[0].op == "call" and x.args[0].args[0] == "format":
            return x.args[0]
        if x.op == "len" and x.args[0].op == "idx" and x.args[0].args[0] is mk("sym", "rows"):
            # (there are as many of them as nodes)
            return seq_len(mk("idx", mk("sym", "nodes"), x.args[0].args[1]))
        return x

    return TT.rewrite(t, f)


def some_removal(t):
    return contains(t, lambda x: x.op == "entry" and x.args[0] == "removed")


def case(c, name):
    m = source(c, DRV)
    others = [n for n in (name + "_others", name + "_each") if n in m.funcs]
    a, b, *more = (run_driver(c, m, n, hooks=hooks(c, m, name)) for n in (name, name + "_spec", *others))
    loc = floc(c.prog.need_func(*CASES[name]))
    ra = rejections(a)

    def value(x):
        return plain(ite(not_(rejections(x)), x.ret, NONE))

    c.equal("waits", name + " refused", plain(ra), plain(rejections(b)), loc)
    c.equal("waits", name + " returns", value(a), value(b), loc, alt=[value(x) for x in more])
    if name == "waits":
        c.equal("waits", "removal by others", const(some_removal(log_of(a, "removals"))), FALSE, loc)
    c.equal("waits", name, log_of(a, "calls"), log_of(b, "calls"), loc, alt=[log_of(x, "calls") for x in more])


def removals(c):
    """The first worker removes what an earlier run has left."""
    m = source(c, DRV)
    gone = []
    h = {"glob.glob": p16.h_glob}
    for n in ("os.remove", "os.unlink"):
        h[n] = lambda fl, f, b, args, kw, node: gone.append(fl.fz(args[0])) or None
    fl = run_driver(c, m, "first", hooks=h)
    loc = floc(c.prog.need_func(DS, "DistributedSync.__init__"))
    left = mk("call", "glob.glob", (mk("call", "os.path.join", (mk("sym", "folder"), const("sync.*")), (), NONE),), (), NONE)
    if not gone:
        gone.append(mk("list"))
    for x in gone:
        c.equal("waits", "removal", mk("of", x.args[0]) if x.op == "idx" else x, mk("of", left), loc)


def run(c):
    c.rule("waits", "waiting of workers, hooks of sessions and files of embeddings")
    for n in CASES:
        c.clause("waits", n, case, n)
    c.clause("waits", "removal", removals)
    c.floor("waits", 36)
