"""Data sets of the frameworks: what each worker reads, and how training is started."""
from .common import *
from . import p18

TD = "deepgnn.pytorch.common.dataset"
TF = "deepgnn.tf.common.dataset"
FA = "deepgnn.pytorch.training.factory"
DRV = '''
import platform
import tensorflow as tf
import torch
from contextlib import closing
from deepgnn import TrainerType
from deepgnn.graph_engine import Graph, create_backend, BackendOptions
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset
from deepgnn.graph_engine.samplers import GENodeSampler, GEEdgeSampler
from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset
from deepgnn.pytorch.training.factory import run_dist, get_trainer, get_args
from deepgnn.pytorch.training.trainer import Trainer
from deepgnn.pytorch.training.trainer_ddp import DDPTrainer
from deepgnn.pytorch.training.trainer_hvd import HVDTrainer
from deepgnn.tf.common.dataset import create_tf_dataset, get_distributed_dataset


# (these are given their meaning by the check)
def note(what, *args):
    pass


def the_graph():
    pass


class Kind:
    def __init__(self, graph: Graph, more):
        pass


class Backend:
    @property
    def graph(self):
        return the_graph()


BACKEND = Backend()


# ---- torch
def torch_read(query, workers, index, batch, epochs, prefetch: bool, rows, size):
    backend = BACKEND
    d = TorchDeepGNNDataset(Kind, query, backend, workers, index, batch, epochs, prefetch, rows=rows, prefetch_queue_size=size)
    note("begun")
    first = iter(d)
    return d.sampler, d.graph, d.num_workers, d.worker_index, d.batch_size, d.epochs, d.query_fn, d.enable_prefetch, d.backend is backend


def torch_read_spec(query, workers, index, batch, epochs, prefetch: bool, rows, size):
    note("begun")
    info = torch.utils.data.get_worker_info()
    more = {"rows": rows, "prefetch_queue_size": size}
    if info is not None:
        more["data_parallel_index"] = info.id
        more["data_parallel_num"] = info.num_workers
    d = DeepGNNDataset(Kind, query, BACKEND, workers, index, batch, epochs, prefetch, **more)
    first = iter(d)
    return d.sampler, d.graph, workers, index, batch, epochs, query, prefetch, True


# ---- tensorflow
class Array:
    def __init__(self, *shape):
        self.shape = shape
        self.dtype = parts("dtype", shape)


def tf_made(kind, backend, workers, index, batch, prefetch: bool, rows, n0, n1, n2, s0: "optional", s1: "optional", s2: "optional"):
    def query(graph, inputs, return_shape=False):
        note("asked", graph, inputs, return_shape)
        return [Array(n0, n1), Array(n2)], [[s0, s1], [s2]]

    return create_tf_dataset(kind, query, backend, workers, index, batch, prefetch, rows=rows)


def tf_made_spec(kind, backend, workers, index, batch, prefetch: bool, rows, n0, n1, n2, s0: "optional", s1: "optional", s2: "optional"):
    def query(graph, inputs, return_shape=False):
        return None

    d = DeepGNNDataset(kind, query, backend, workers, index, batch, 1, prefetch, None, rows=rows)
    note("asked", d.graph, next(iter(d.sampler)), True)
    x, y = Array(n0, n1), Array(n2)
    for n, s in ((n0, s0), (n1, s1), (n2, s2)):
        if s is not None and n != s:
            raise AssertionError()
    out = tf.data.Dataset.from_generator(lambda: iter(d), (tf.convert_to_tensor(x).dtype, tf.convert_to_tensor(y).dtype), output_shapes=(tf.TensorShape([s0, s1]), tf.TensorShape([s2])))
    if not prefetch:
        out = out.prefetch(-1)
    try:
        n = len(d)
    except BaseException:
        n = None
    return out, n


def tf_count(kind, backend, n0, n1, s0: "optional"):
    return create_tf_dataset(kind, lambda graph, inputs, return_shape: ([Array(n0), Array(n1)], [[s0]]), backend)


def tf_count_spec(kind, backend, n0, n1, s0: "optional"):
    raise AssertionError()


def tf_fewer(kind, backend, n0, n1, s0: "optional"):
    return create_tf_dataset(kind, lambda graph, inputs, return_shape: ([Array(n0)], [[s0], [n1]]), backend)


def tf_fewer_spec(kind, backend, n0, n1, s0: "optional"):
    raise AssertionError()


def tf_rank(kind, backend, n0, n1, s0: "optional"):
    return create_tf_dataset(kind, lambda graph, inputs, return_shape: ([Array(n0, n1)], [[s0]]), backend)


def tf_rank_spec(kind, backend, n0, n1, s0: "optional"):
    raise AssertionError()


def parts(name, given):
    pass


class Data:
    def __init__(self, sampler_class, query_fn, backend=None, num_workers=1, worker_index=0, batch_size=1, epochs=1, enable_prefetch=False, collate_fn=None, **more):
        self.sampler_class, self.query_fn, self.backend, self.num_workers, self.worker_index = sampler_class, query_fn, backend, num_workers, worker_index
        self.batch_size, self.epochs, self.enable_prefetch, self.collate_fn, self.kwargs = batch_size, epochs, enable_prefetch, collate_fn, more
        given = (sampler_class, backend, num_workers, worker_index, batch_size, epochs, enable_prefetch, more)
        self.graph = parts("graph", (backend,))
        self.sampler = parts("sampler", given)
        self.all = parts("batches", given)

    def __iter__(self):
        note("read from the start")
        return self.all

    def __len__(self):
        return len(self.sampler)


def tf_distributed(func):
    return get_distributed_dataset(func)


def tf_distributed_spec(func):
    strategy = tf.distribute.get_strategy()
    if hasattr(strategy, "distribute_datasets_from_function"):
        return strategy.distribute_datasets_from_function(func)
    if hasattr(strategy, "experimental_distribute_datasets_from_function"):
        return strategy.experimental_distribute_datasets_from_function(func)
    raise ValueError()


# ---- start of training
def trainer(args):
    return get_trainer(args)


def trainer_spec(args):
    if args.trainer == TrainerType.BASE:
        return Trainer(args)
    if args.trainer == TrainerType.DDP:
        return DDPTrainer(args)
    if args.trainer == TrainerType.HVD:
        return HVDTrainer(args)
    raise RuntimeError()


def model(args):
    note("model", args)
    return made_model(args)


def made_model(args):
    pass


def started(data, best: "optional", options: "optional", given, test: "optional"):
    run_dist(model, data, best, options, given, test)


def started_spec(data, best: "optional", options: "optional", given, test: "optional"):
    args = get_args(options, given)
    t = get_trainer(args)
    backend = create_backend(BackendOptions(args), t.rank == 0)
    net = model(args)
    rows = data(args=args, model=net, rank=t.rank, world_size=t.world_size, backend=backend)
    checked = None
    if test is not None:
        others = test(args=args, model=net, rank=t.rank, world_size=t.world_size, backend=backend)
        if others is not None:
            checked = torch.utils.data.DataLoader(dataset=others, num_workers=args.data_parallel_num, prefetch_factor=args.prefetch_factor)
    steps = None
    if best is not None:
        steps = best(args=args, model=net, world_size=t.world_size)
    alone = issubclass(rows.sampler_class, (GENodeSampler, GEEdgeSampler)) or platform.system() == "Windows"
    note("run", t, net, torch.utils.data.DataLoader(dataset=rows, num_workers=0 if alone else args.data_parallel_num, prefetch_factor=args.prefetch_factor), steps, checked)
    note("closed", backend)
'''


CASES = {
    "torch_read": (TD, "TorchDeepGNNDataset.__iter__"), "tf_made": (TF, "create_tf_dataset"), "tf_count": (TF, "create_tf_dataset"), "tf_fewer": (TF, "create_tf_dataset"), "tf_rank": (TF, "create_tf_dataset"), "tf_distributed": (TF, "get_distributed_dataset"),
    "trainer": (FA, "get_trainer"), "started": (FA, "run_dist"),
}
GIVEN = ("sampler_class", "query_fn", "backend", "num_workers", "worker_index", "batch_size", "epochs", "enable_prefetch", "collate_fn")


def hooks(c, m, name):
    def told(what, names):
        def h(fl, cls, b, args, kw, node):
            a = [fl.fz(argument(None, args, kw, i, n)) if len(args) > i or n in kw else NONE for i, n in enumerate(names)]
            rest = tuple(sorted((k, fl.fz(v)) for k, v in kw.items() if k not in names))
            return mk("call", what, tuple(a), rest, NONE)

        return h

    def streamed(fl, f, b, args, kw, node):
        put_log(fl, "calls", "stream")
        g = fl.invoke(argument(None, args, kw, 0, "generator"), [], {}, node)
        g = fl.fz(g)
        if g.op == "gen" and g.args and fl.class_of(g.args[0]) is m.classes["Data"]:
            g = g.args[0]
        if fl.class_of(g) is m.classes["Data"]:
            g = fl.invoke(fl.function_term(m.classes["Data"].find("__iter__"), None, g), [], {}, node)
        put_log(fl, "calls", "end of the stream")
        a = [fl.seqterm(argument(None, args, kw, i, n)) for i, n in ((1, "output_types"), (2, "output_shapes"))]
        return mk("call", "stream", (fl.fz(g), *a), (), NONE)

    def ran(fl, b, args, kw, node):
        a = [fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(("model", "dataset", "optimizer", "eval_dataset_for_training"))]
        put_log(fl, "calls", "run", fl.fz(b), *a)
        return NONE

    out = {"note": p18.h_note}
    if name.startswith("torch"):
        out.update(p18.of_data_sets(c))
        begun = []

        def note(fl, f, b, args, kw, node):
            begun.append(1)
            return p18.h_note(fl, f, b, args, kw, node)

        def graph(fl, f, b, args, kw, node):
            if not begun:
                put_log(fl, "calls", "graph asked for before the reading began")
            return asked(fl, f, b, args, kw, node)

        out["note"], out["the_graph"], asked = note, graph, out["the_graph"]
    elif name in ("tf_made", "tf_count", "tf_fewer", "tf_rank"):
        out["new:DeepGNNDataset"] = lambda fl, k, b, args, kw, node: fl.construct(m.classes["Data"], list(args), dict(kw), node)
        out["parts"] = lambda fl, f, b, args, kw, node: mk("call", "the " + cval(fl.fz(args[0])), (fl.fz(args[1]),), (), NONE)
        out["iter"] = lambda fl, f, b, args, kw, node: mk("call", "begun", (fl.fz(args[0]),), (), NONE) if p18.made(fl.fz(args[0]), "the sampler") else None
        out["tensorflow.data.Dataset.from_generator"] = streamed
    for n in ("Trainer", "DDPTrainer", "HVDTrainer"):
        out["new:" + n] = told(n, ("args",))
    out["new:BackendOptions"] = told("options", ("params",))
    if name == "started":
        for n, names in (("get_args", ("init_arg_fn", "run_args")), ("get_trainer", ("args",)), ("create_backend", ("backend_options", "is_leader"))):
            out[n] = told(n, names)
        out["made_model"] = told("model", ("args",))
        out["torch.utils.data.DataLoader"] = told("loader", ("dataset", "batch_size", "shuffle", "sampler", "batch_sampler", "num_workers"))
        out[".run"] = ran
        out[".close"] = lambda fl, b, args, kw, node: put_log(fl, "calls", "closed", fl.fz(b)) or NONE
        out["$exit"] = lambda fl, v, node: put_log(fl, "calls", "closed", fl.fz(v).args[1][0]) if p18.made(fl.fz(v), "contextlib.closing") else None
    return out


def caught(x):
    """Anything that can be raised."""
    return mk("exc", "", ()) if x.op == "exc" and x.args[0] in ("", "Exception", "BaseException") else x


def case(c, name):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks(c, m, name)) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_func(*CASES[name]))
    ra, rb = rejections(a), rejections(b)
    ret = [TT.rewrite(x.ret, caught) for x in (a, b)]
    c.equal("sets", name + " refused", ra, rb, loc)
    c.equal("sets", name + " returns", ite(not_(ra), ret[0], NONE), ite(not_(rb), ret[1], NONE), loc)
    c.equal("sets", name, log_of(a, "calls"), log_of(b, "calls"), loc)


def run(c):
    c.rule("sets", "batches of the workers and start of training")
    for n in CASES:
        c.clause("sets", n, case, n)
    c.floor("sets", 24)
