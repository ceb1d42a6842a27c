"""Trainers of tensorflow: place of a worker, sessions, and which trainer is made."""
from .common import *
from . import p18

TR = "deepgnn.tf.common.trainer"
PS = "deepgnn.tf.common.ps_trainer"
HV = "deepgnn.tf.common.horovod_trainer"
HE = "deepgnn.tf.common.tf2_horovod_trainer"
TF = "deepgnn.tf.common.trainer_factory"
DRV = '''
import os
import numpy as np
import tensorflow as tf
from deepgnn import TrainerType
from deepgnn.tf.common.ps_trainer import PSTrainer
from deepgnn.tf.common.horovod_trainer import HorovodTFTrainer
from deepgnn.tf.common.tf2_horovod_trainer import HorovodEagerTrainer
from deepgnn.tf.common.tf2_trainer import EagerTrainer
from deepgnn.tf.common.trainer_factory import get_trainer


# (these are given their meaning by the check)
def note(what, *args):
    pass


def bag(xs):
    pass


def batches():
    pass


def got(x, k):
    pass


def element(data):
    pass


def server(servers, hosts, role, index):
    pass


def rank():
    pass


def size():
    pass


def worker_hooks(folder, index, sync, shown, place):
    pass


def chief_hooks(index, folder, sync, secs):
    pass


def shared(hook):
    pass


def told(callbacks):
    pass


class Sync:
    def __init__(self, folder, index, count):
        self.task_index = index
        self.num_tasks = count
        note("sync of", folder, index, count)

    def sync(self, tag):
        note("wait", tag)


class Server:
    def __init__(self, target):
        self.target = target

    def join(self):
        note("join")


class Session:
    def __init__(self):
        self.done = 0

    def __enter__(self):
        note("begun")
        return self

    def __exit__(self, *a):
        note("ended")

    def should_stop(self):
        return self.done >= batches()

    def run(self, ops):
        k = self.done
        self.done += 1
        note("run", bag(ops))
        return got(ops, k)


class File:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        note("closed")

    def write(self, text):
        note("line", text)

    def writelines(self, lines):
        for x in lines:
            note("line", x)

    def close(self):
        note("closed")


class Model:
    def __init__(self, outs, first, second):
        self.outs, self.first, self.second = outs, first, second
        self.mode = None

    def __call__(self, context, training=None):
        note("model", context, training, self.mode)
        return self.outs, self.first, self.second

    def predict_step(self, context):
        note("predict", context, self.mode)
        return self.outs

    def compile(self, optimizer="rmsprop", loss=None, metrics=None):
        note("compile", optimizer, loss, metrics)

    def fit(self, x, epochs=1, callbacks=None, verbose="auto", steps_per_epoch=None):
        note("fit", x, epochs, steps_per_epoch, told(callbacks))


class Best:
    def minimize(self, loss, global_step=None):
        note("minimize", loss, global_step)
        return "step of training"


def ps(folder, seed, servers, hosts, index):
    return PSTrainer(TrainerType.PS, folder, seed, servers, "worker", hosts, index)


def place(t):
    return t.task_index, t.worker_size, t.is_chief, t.checkpoint_dir, t.session_target, t.dist_sync.task_index, t.dist_sync.num_tasks


# ---- places
def ps_placed(folder: str, seed, servers: list, hosts: list, index: "count"):
    return place(ps(folder, seed, servers, hosts, index))


def ps_placed_spec(folder: str, seed, servers: list, hosts: list, index: "count"):
    assert len(servers) > 0
    assert len(hosts) > 0
    target = server(servers, hosts, "worker", index)
    note("sync of", os.path.join(folder, "./"), index, len(hosts))
    return index, len(hosts), index == 0, os.path.join(folder, "./"), target.target, index, len(hosts)


def ps_joins(folder: str, seed, servers: list, hosts: list, index: "count"):
    PSTrainer(TrainerType.PS, folder, seed, servers, "ps", hosts, index)


def ps_joins_spec(folder: str, seed, servers: list, hosts: list, index: "count"):
    assert len(servers) > 0
    assert len(hosts) > 0
    server(servers, hosts, "ps", index)
    note("join")
    note("sync of", os.path.join(folder, "./"), index, len(hosts))


def ps_alone(folder: str, seed, hosts: list):
    return place(PSTrainer(TrainerType.PS, folder, seed, [], None, hosts))


def ps_alone_spec(folder: str, seed, hosts: list):
    note("sync of", os.path.join(folder, "./"), 0, len(hosts))
    return 0, len(hosts), True, os.path.join(folder, "./"), "", 0, len(hosts)


def hvd_placed(folder: str, seed):
    t = HorovodTFTrainer(TrainerType.HVD, folder, seed)
    return place(t) + (t.lr_scaler,)


def hvd_placed_spec(folder: str, seed):
    note("start")
    home = os.path.join(folder, "./")
    note("sync of", home, rank(), size())
    return rank(), size(), True, home if rank() == 0 else None, "", rank(), size(), size()


def eager_placed(folder: str, seed):
    t = HorovodEagerTrainer(TrainerType.HVD, folder, seed)
    return t.task_index, t.worker_size, t.lr_scaler


def eager_placed_spec(folder: str, seed):
    note("start")
    return rank(), size(), size()


# ---- sessions
def ps_train(folder: str, servers: list, hosts: list, index: "count", data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", epochs, steps):
    ps(folder, None, servers, hosts, index).train(data, Model(None, first, second), Best(), loss, metrics, more, epochs, steps)


def ps_train_spec(folder: str, servers: list, hosts: list, index: "count", data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", epochs, steps):
    assert len(servers) > 0
    assert len(hosts) > 0
    home = os.path.join(folder, "./")
    t = server(servers, hosts, "worker", index)
    sync = Sync(home, index, len(hosts))
    train_spec(sync, home, home, index, index == 0, t.target, data, first, second, loss, metrics, more, epochs, Best(), False)


def hvd_train(folder: str, data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", epochs, steps):
    HorovodTFTrainer(TrainerType.HVD, folder, None).train(data, Model(None, first, second), Best(), loss, metrics, None, epochs, steps)


def hvd_train_spec(folder: str, data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", epochs, steps):
    note("start")
    home = os.path.join(folder, "./")
    sync = Sync(home, rank(), size())
    best = Best()
    note("shared", "optimizer")
    train_spec(sync, home, home if rank() == 0 else None, rank(), True, "", data, first, second, loss, metrics, None, epochs, best, True)


def train_spec(sync, home, saved, index, chief, target, data, first, second, loss, metrics, more, epochs, best, all_alike):
    assert data is not None
    assert more is None
    x = element(data.repeat(epochs) if epochs > 1 else data)
    note("model", x, True, "training")
    if loss is not None:
        first = loss()
    assert type(first) is tf.Tensor
    if metrics is not None:
        assert len(metrics) == 1
        second = metrics[0]()
    assert type(second) is dict
    step = tf.compat.v1.train.get_or_create_global_step()
    op = best.minimize(first, global_step=step)
    hooks = worker_hooks(home, index, sync, reported(first, second), "train")
    if all_alike:
        hooks.append(shared(0))
    chiefs = chief_hooks(index, saved, sync, 3600)
    note("session", target, chief, saved, None, None, bag(hooks), chiefs)
    note("begun")
    for k in range(batches()):
        note("run", bag([op]))
    note("ended")
    sync.sync("final")


def ps_infer(folder: str, servers: list, hosts: list, index: "count", data: "optional", outs: list, lines, prefix: str, steps):
    ps(folder, None, servers, hosts, index).inference(data, Model(outs, None, None), lines, prefix, steps)


def ps_infer_spec(folder: str, servers: list, hosts: list, index: "count", data: "optional", outs: list, lines, prefix: str, steps):
    assert len(servers) > 0
    assert len(hosts) > 0
    home = os.path.join(folder, "./")
    t = server(servers, hosts, "worker", index)
    sync = Sync(home, index, len(hosts))
    infer_spec(sync, home, home, index, index == 0, t.target, data, outs, lines, prefix, False)


def hvd_infer(folder: str, data: "optional", outs: list, lines, prefix: str, steps):
    HorovodTFTrainer(TrainerType.HVD, folder, None).inference(data, Model(outs, None, None), lines, prefix, steps)


def hvd_infer_spec(folder: str, data: "optional", outs: list, lines, prefix: str, steps):
    note("start")
    home = os.path.join(folder, "./")
    sync = Sync(home, rank(), size())
    infer_spec(sync, home, home if rank() == 0 else None, rank(), True, "", data, outs, lines, prefix, True)


def reported(loss, metrics):
    out = {"loss": loss}
    out.update(metrics)
    return out


def infer_spec(sync, home, saved, index, chief, target, data, outs, lines, prefix, all_alike):
    assert data is not None
    note("predict", element(data), "inference")
    assert type(outs) is list and len(outs) > 0
    assert type(outs[0]) is tf.Tensor
    hooks = worker_hooks(home, index, sync, None, None)
    if all_alike:
        hooks.append(shared(0))
    note("opened", os.path.join(home, f"{prefix}_{index}.tsv"))
    note("session", target, chief, saved, None, None, bag(hooks), None)
    note("begun")
    for k in range(batches()):
        note("run", bag(outs + ["next step"]))
        for line in lines(got(outs, k)):
            note("line", line)
    note("ended")
    note("closed")
    sync.sync("final")


def ps_try(folder: str, servers: list, hosts: list, index: "count", data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", steps):
    ps(folder, None, servers, hosts, index).evaluate(data, Model(None, first, second), loss, metrics, more, steps)


def ps_try_spec(folder: str, servers: list, hosts: list, index: "count", data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", steps):
    assert len(servers) > 0
    assert len(hosts) > 0
    home = os.path.join(folder, "./")
    t = server(servers, hosts, "worker", index)
    sync = Sync(home, index, len(hosts))
    try_spec(sync, home, home, index, index == 0, t.target, data, first, second, loss, metrics, False)


def hvd_try(folder: str, data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", steps):
    HorovodTFTrainer(TrainerType.HVD, folder, None).evaluate(data, Model(None, first, second), loss, metrics, more, steps)


def hvd_try_spec(folder: str, data: "optional", first, second: dict, loss: "optional", metrics: "optional", more: "optional", steps):
    note("start")
    home = os.path.join(folder, "./")
    sync = Sync(home, rank(), size())
    try_spec(sync, home, home if rank() == 0 else None, rank(), True, "", data, first, second, loss, metrics, True)


def try_spec(sync, home, saved, index, chief, target, data, first, second, loss, metrics, all_alike):
    assert data is not None
    x = element(data)
    note("model", x, True, "evaluate")
    if loss is not None:
        first = loss()
    assert type(first) is tf.Tensor
    if metrics is not None:
        assert len(metrics) == 1
        second = metrics[0]()
    assert type(second) is dict
    hooks = worker_hooks(home, index, sync, reported(first, second), "evaluate")
    if all_alike:
        hooks.append(shared(0))
    note("session", target, chief, saved, None, None, bag(hooks), None)
    note("begun")
    for k in range(batches()):
        note("run", bag(["next step", x[0] if type(x) is tuple else x["inputs"]]))
    note("ended")
    sync.sync("final")


def eager_train(folder: str, data: "optional", best, loss, metrics, more, epochs, steps):
    HorovodEagerTrainer(TrainerType.HVD, folder, None).train(data, Model(None, None, None), best, loss, metrics, more, epochs, steps)


def eager_train_spec(folder: str, data: "optional", best, loss, metrics, more, epochs, steps):
    note("start")
    assert data is not None
    note("compile", best, loss, metrics)
    back = [shared(0)]
    if more:
        back.extend(more)
    if rank() == 0:
        back.append(tf.keras.callbacks.ModelCheckpoint(os.path.join(os.path.join(folder, "./"), "ckpt")))
    note("fit", data, epochs, steps, told(back))


# ---- which one is made
class Options:
    def __init__(self, eager: bool, trainer, model_dir, seed, ps_hosts, job_name, worker_hosts, task_index, user_name, job_id, gpu, log_save_steps, summary_save_steps, profiler_save_secs, checkpoint_save_secs, profile_batch):
        self.eager, self.trainer, self.model_dir, self.seed = eager, trainer, model_dir, seed
        self.ps_hosts, self.job_name, self.worker_hosts, self.task_index = ps_hosts, job_name, worker_hosts, task_index
        self.user_name, self.job_id, self.gpu, self.log_save_steps = user_name, job_id, gpu, log_save_steps
        self.summary_save_steps, self.profiler_save_secs, self.checkpoint_save_secs, self.profile_batch = summary_save_steps, profiler_save_secs, checkpoint_save_secs, profile_batch


def chosen(eager: bool, trainer, a, b, c, d, e, f, g, h, i, j, k, l, m, n):
    get_trainer(Options(eager, trainer, a, b, c, d, e, f, g, h, i, j, k, l, m, n))


def chosen_spec(eager: bool, trainer, a, b, c, d, e, f, g, h, i, j, k, l, m, n):
    if eager:
        if trainer == TrainerType.HVD:
            HorovodEagerTrainer(trainer=trainer, model_dir=a, seed=b, user_name=g, job_id=h, gpu=i, log_save_steps=j, summary_save_steps=k, checkpoint_save_secs=m, profile_batch=n)
        else:
            EagerTrainer(model_dir=a, seed=b, user_name=g, job_id=h, gpu=i, log_save_steps=j, summary_save_steps=k, checkpoint_save_secs=m, profile_batch=n)
    elif trainer == TrainerType.HVD:
        HorovodTFTrainer(trainer=trainer, model_dir=a, seed=b, user_name=g, job_id=h, gpu=i, log_save_steps=j, summary_save_steps=k, profiler_save_secs=l, checkpoint_save_secs=m)
    else:
        PSTrainer(trainer=trainer, model_dir=a, seed=b, ps_hosts=c, job_name=d, worker_hosts=e, task_index=f, user_name=g, job_id=h, gpu=i, log_save_steps=j, summary_save_steps=k, profiler_save_secs=l, checkpoint_save_secs=m)
'''
CASES = {
    "ps_placed": (PS, "PSTrainer.__init__"), "ps_joins": (PS, "PSTrainer.__init__"), "ps_alone": (PS, "PSTrainer.__init__"), "hvd_placed": (HV, "HorovodTFTrainer.__init__"), "eager_placed": (HE, "HorovodEagerTrainer.__init__"),
    "ps_train": (TR, "BaseTFTrainer.train"), "hvd_train": (HV, "HorovodTFTrainer.train"), "ps_infer": (TR, "BaseTFTrainer.inference"), "hvd_infer": (HV, "HorovodTFTrainer.inference"), "ps_try": (TR, "BaseTFTrainer.evaluate"), "ps_try_named": (TR, "BaseTFTrainer.evaluate"), "hvd_try": (HV, "HorovodTFTrainer.evaluate"),
    "eager_train": (HE, "HorovodEagerTrainer._train_impl"), "chosen": (TF, "get_trainer"),
}
KNOWN = ("again", "logger", "board", "lambda", "got", "got each", "hooks of a worker", "hooks of the chief", "shared", "inputs of an element", "labels of an element", "tensorflow.compat.v1.train.get_or_create_global_step")
KINDS_MADE = {"PSTrainer": PS, "HorovodTFTrainer": HV, "HorovodEagerTrainer": HE, "EagerTrainer": "deepgnn.tf.common.tf2_trainer"}


def hooks(c, m, name):
    V = "tensorflow.compat.v1."

    def arg(fl, args, kw, i, n, default=NONE):
        v = argument(None, args, kw, i, n)
        return default if v is None else fl.fz(v)

    def sym(text, count=False):
        t = mk("sym", text)
        if count:
            TT.COUNTS.add(t.dig)
            KINDS[t.dig] = "int"
        return t

    def fixed(v):
        return lambda fl, f, b, args, kw, node: v

    def noted(*what):
        def h(fl, f, b, args, kw, node):
            put_log(fl, "calls", *what)
            return NONE

        return h

    def bag(fl, f, b, args, kw, node):
        """Things of which the order does not matter."""

        def flat(x):
            if x.op == "cat":
                return [z for y in x.args for z in flat(y)]
            return list(x.args) if x.op == "list" else [mk("all of", x)]

        x = fl.as_list(fl.fz(args[0]))
        if x.op == "ite":
            return ite(x.args[0], bag(fl, f, b, [x.args[1]], kw, node), bag(fl, f, b, [x.args[2]], kw, node))
        return mk("bag", *sorted(flat(x), key=lambda y: y.dig))

    def session(fl, f, b, args, kw, node):
        a = [kw.get(k) for k in ("master", "is_chief", "checkpoint_dir", "save_checkpoint_secs", "save_checkpoint_steps", "hooks", "chief_only_hooks")]
        if a[3] is None and a[4] is None:
            a[3] = const("usual")
        a = [NONE if x is None else fl.fz(x) for x in a]
        a[5] = bag(fl, f, b, [a[5]], {}, node)
        put_log(fl, "calls", "session", *a)
        return fl.construct(m.classes["Session"], [], {}, node)

    def opened(fl, f, b, args, kw, node):
        put_log(fl, "calls", "opened", fl.fz(args[0]))
        return fl.construct(m.classes["File"], [], {}, node)

    def spread(fl, f, b, args, kw, node):
        put_log(fl, "calls", "shared", const("optimizer"))
        return args[0]

    def spec(fl, f, b, args, kw, node):
        d = arg(fl, args, kw, 0, "cluster")
        if d.op == "dict":
            d = mk("dict", *sorted(d.args, key=repr))
        return mk("call", "cluster", (d,), (), NONE)

    def serve(fl, node, cluster, role, index):
        put_log(fl, "calls", "server", cluster, role, index)
        return fl.construct(m.classes["Server"], [mk("call", "server", (cluster, role, index), (), NONE)], {}, node)

    def served(fl, f, b, args, kw, node):
        return serve(fl, node, *[arg(fl, args, kw, i, n) for i, n in enumerate(("server_or_cluster_def", "job_name", "task_index"))])

    def server(fl, f, b, args, kw, node):
        a = [fl.fz(x) for x in args]
        d = mk("dict", *sorted((mk("kv", const("ps"), a[0]), mk("kv", const("worker"), a[1])), key=repr))
        return serve(fl, node, mk("call", "cluster", (d,), (), NONE), a[2], a[3])

    def worker_hooks(fl, f, b, args, kw, node):
        a = [arg(fl, args, kw, i, n) for i, n in ((0, "model_dir"), (1, "task_index"), (4, "dist_sync"), (3, "summary_tensor"), (5, "metric_dir"))]
        if a[3] is NONE:
            a[4] = NONE
        return fl.alloc("list", mk("list", mk("call", "hooks of a worker", tuple(a), (), NONE)))

    def its_hooks(fl, f, b, args, kw, node):
        return fl.alloc("list", mk("list", mk("call", "hooks of a worker", tuple(fl.fz(x) for x in args), (), NONE)))

    def chief_hooks(fl, f, b, args, kw, node):
        a = [arg(fl, args, kw, i, n) for i, n in enumerate(("task_index", "checkpoint_dir", "dist_sync", "checkpoint_save_secs"))]
        return mk("call", "hooks of the chief", tuple(a), (), NONE)

    def alike(fl, f, b, args, kw, node):
        return mk("call", "shared", (arg(fl, args, kw, 0, "root_rank"),), (), NONE)

    def element(fl, f, b, args, kw, node):
        return part(fl.fz(args[0]))

    def part(data):
        a, b = (mk("call", x + " of an element", (data,), (), NONE) for x in ("inputs", "labels"))
        return mk("dict", mk("kv", const("inputs"), a), mk("kv", const("label"), b)) if name.endswith("_named") else mk("tuple", a, b)

    def once(fl, f, b, args, kw, node):
        return mk("call", "walk", (arg(fl, args, kw, 0, "dataset"),), (), NONE)

    def following(fl, b, args, kw, node):
        return part(fl.fz(b).args[1][0]) if b is not None and fl.fz(b).op == "call" and fl.fz(b).args[0] == "walk" else None

    def again(fl, b, args, kw, node):
        """Once is what there is without it."""
        n = arg(fl, args, kw, 0, "count")
        return ite(lt(ONE, n), mk("call", "again", (fl.fz(b), n), (), NONE), fl.fz(b))

    def got(fl, f, b, args, kw, node):
        """Values of all that is run."""
        xs, k = (fl.fz(x) for x in args)

        def each(x):
            if x.op == "cat":
                return cat([each(y) for y in x.args])
            if x.op == "list":
                return mk("list", *[mk("call", "got", (y, k), (), NONE) for y in x.args])
            t = mk("call", "got each", (x, k), (), NONE)
            KINDS[t.dig] = "list"
            return t

        return each(fl.as_list(xs))

    def told(fl, f, b, args, kw, node):
        """What is called back, without what only watches."""
        watching = {mk("call", x, (), (), NONE).dig for x in ("logger", "board", "lambda")}

        def mine(x):
            if x.op == "cat":
                return cat([mine(y) for y in x.args])
            if x.op == "ite":
                return ite(x.args[0], mine(x.args[1]), mine(x.args[2]))
            return mk("list", *[y for y in x.args if y.dig not in watching]) if x.op == "list" else x

        x = mine(fl.as_list(fl.fz(args[0])))
        return bag(fl, f, b, [x], {}, node) if x.op != "bag" else x

    n = sym("batches there are", True)
    its_rank, its_size = sym("rank of the process", True), sym("processes there are", True)
    out = {"note": p18.h_note, "bag": bag, "batches": fixed(n), "got": got, "element": element, "server": server, "rank": fixed(its_rank), "size": fixed(its_size), "worker_hooks": its_hooks, "chief_hooks": chief_hooks, "shared": alike, "told": told}
    if name == "chosen":
        for cls in KINDS_MADE:
            def made(fl, k, b, args, kw, node, cls=cls):
                names = c.prog.need_func(KINDS_MADE[cls], cls + ".__init__").params()[1:]
                given = {**dict(zip(names, args)), **kw}
                put_log(fl, "calls", "made", const(cls), *[mk("kv", const(x), fl.fz(v)) for x, v in sorted(given.items()) if x != "logger"])
                return NONE

            out["new:" + cls] = made
        return out
    for x in ("log_telemetry", "log_model_info", "set_random_seed", "_set_gpu_device", "tensorflow.compat.v1.logging.info", "_save_summary", "_get_summary_writer"):
        out[x] = lambda fl, *a: NONE
    for x in ("horovod.tensorflow", "horovod.tensorflow.keras"):
        out.update({x + ".init": noted("start"), x + ".rank": fixed(its_rank), x + ".size": fixed(its_size), x + ".local_rank": fixed(sym("rank on the machine", True)), x + ".DistributedOptimizer": spread, x + ".BroadcastGlobalVariablesHook": alike, x + ".callbacks.BroadcastGlobalVariablesCallback": alike})
    for x, v in (("logger", "new:_LoggerCallback"), ("board", "tensorflow.keras.callbacks.TensorBoard"), ("lambda", "tensorflow.keras.callbacks.LambdaCallback")):
        out[v] = fixed(mk("call", x, (), (), NONE))
    for x in ("os.environ.get", "os.getenv"):
        out[x] = fixed(NONE)
    for x in ("assign", "assign_add"):
        out[V + x] = fixed(const("next step"))
    out.update({
        "new:DistributedSync": lambda fl, k, b, args, kw, node: fl.construct(m.classes["Sync"], [argument(None, args, kw, i, x) for i, x in enumerate(("folder", "task_index", "num_tasks"))], {}, node),
        "tensorflow.train.ClusterSpec": spec, "tensorflow.distribute.Server": served, V + "train.MonitoredTrainingSession": session, V + "data.make_one_shot_iterator": once, ".get_next": following, ".repeat": again,
        "setup_worker_hooks": worker_hooks, "setup_chief_only_hooks": chief_hooks, "tensorflow.io.gfile.GFile": opened, "open": opened,
        "tensorflow.keras.callbacks.ModelCheckpoint": lambda fl, f, b, args, kw, node: mk("call", "saved in", (arg(fl, args, kw, 0, "filepath"),), (), NONE),
    })
    return out


def case(c, name):
    m = source(c, DRV)
    d = name[: -len("_named")] if name.endswith("_named") else name
    a, b = (run_driver(c, m, n, hooks=hooks(c, m, name)) for n in (d, d + "_spec"))
    loc = floc(c.prog.need_func(*CASES[name]))

    def value(x):
        return ite(not_(rejections(x)), x.ret, NONE)

    c.equal("session", name + " refused", rejections(a), rejections(b), loc)
    c.equal("session", name + " returns", value(a), value(b), loc)
    c.equal("session", name, log_of(a, "calls"), log_of(b, "calls"), loc, known=KNOWN)


def run(c):
    c.rule("session", "place of a worker, sessions of training, evaluation and inference, and the trainer made")
    for n in CASES:
        c.clause("session", n, case, n)
    c.floor("session", 30)
