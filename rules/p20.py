"""Training, evaluation and inference of torch models: steps taken, checkpoints kept, results."""
from vlib import terms as TT

from .common import *

PT = "deepgnn.pytorch"
TR = PT + ".training.trainer"
UT = PT + ".common.utils"
DRV = '''
import os
import numpy as np
import torch
import torch.distributed as dist
import horovod.torch as hvd
import re
from pathlib import Path
from deepgnn import TrainMode, TrainerType
from deepgnn.graph_engine.adl_uploader import AdlDataWriter
from deepgnn.pytorch.training.trainer import Trainer
from deepgnn.pytorch.training.trainer_fp16 import FP16Trainer
from deepgnn.pytorch.training.trainer_ddp import DDPTrainer
from deepgnn.pytorch.training.trainer_hvd import HVDTrainer
from deepgnn.pytorch.training.factory import get_trainer
from deepgnn.pytorch.common.utils import get_sorted_checkpoints, rotate_checkpoints


# (these are given their meaning by the check)
def note(*what):
    pass


def result(kind, data):
    pass


def found():
    pass


def value(x):
    pass


def device():
    pass


class Opt:
    """Stands for any optimizer."""

    def zero_grad(self):
        note("clear")

    def step(self):
        note("update")


class Net:
    """Stands for any model."""

    mode = "as made"

    def __call__(self, data):
        note("run", data, self.mode)
        return result("loss", data), result("pred", data), result("label", data)

    def cuda(self):
        note("model to gpu", device())

    def train(self):
        self.mode = "training"

    def eval(self):
        self.mode = "evaluation"

    def state_dict(self):
        return result("state", 0)

    def load_state_dict(self, state):
        note("state loaded", state)

    def parameters(self):
        return result("parameters", 0)

    def named_parameters(self):
        return []

    def metric_name(self):
        return "metric"

    def compute_metric(self, preds, labels):
        return result("metric", (list(preds), list(labels)))

    def get_embedding(self, data):
        note("embed", data, self.mode)
        return result("embedding", data)

    def output_embedding(self, fp, data, embedding):
        note("written", fp, data, embedding)


class Told(Net):
    """Stands for a model that keeps what it was made from."""

    def __init__(self):
        self.init_parameters = result("init", 0)


def save(args, epoch, step):
    note("save", result("state", 0), epoch, step, result("init", 0) if args.told else None, os.path.join(args.save_path, f"gnnmodel-{epoch:03}-{step:06}.pt"))
    note("rotate", args.save_path, args.max_saved_ckpts)


def at(every, step):
    return every > 0 and step % every == 0


def prepare(args, batch):
    if args.gpu:
        note("to gpu", batch)


def one_step(args, batch, epoch, step, limit, chief, more=None, spent=None):
    prepare(args, batch)
    note("clear")
    note("run", batch, "training")
    note("backward", result("loss", batch))
    if args.clip_grad:
        note("clip", result("parameters", 0), args.grad_max_norm)
    note("update")
    if limit > 0:
        note("rate")
    if chief and at(args.save_ckpt_by_steps, step) and not (limit > 0 and step == limit):
        save(args, epoch, step)
    if more is not None and at(args.eval_during_train_by_steps, step):
        note("without gradients")
        for other in more:
            prepare(args, other)
            note("run", other, "evaluation")
        note("with gradients")


def limit_of(args, world):
    return args.max_samples // (args.batch_size * world) if args.max_samples > 0 else -1


def begin(args, chief, kept=False, world=1, place=0, away=False):
    limit = limit_of(args, world)
    if args.gpu:
        note("model to gpu", place)
    if chief and not away:
        note("folder", args.save_path)
    note("search", args.model_dir)
    if kept:
        note("load", newest())
        if chief:
            note("state loaded", result("kept", "state"))
    return limit


def newest():
    pass


def planned(args, limit):
    if limit > 0:
        note("schedule", args.warmup * (limit * args.num_epochs), limit * args.num_epochs)


def learn(args, limit, batches, first_epoch, last_epoch, skip, chief, more=None):
    planned(args, limit)
    step = skip
    for epoch in range(first_epoch, last_epoch):
        for i, batch in enumerate(batches):
            if i >= step:
                step = step + 1
                one_step(args, batch, epoch, step, limit, chief, more)
                if limit > 0 and step >= limit:
                    break
        step = 0
        if chief and epoch % args.save_ckpt_by_epochs == 0:
            save(args, epoch + 1, 0)


def with_args(args, mode, epochs, told=False):
    args.mode = mode
    args.told = told
    args.num_epochs = epochs
    return args


def fresh(args, a, b, c):
    return Trainer(with_args(args, TrainMode.TRAIN, 2)).run(Net(), [a, b, c], Opt())


def fresh_spec(args, a, b, c):
    with_args(args, TrainMode.TRAIN, 2)
    learn(args, begin(args, True), [a, b, c], 0, 2, 0, True)


def resumed(args, a, b, c):
    return Trainer(with_args(args, TrainMode.TRAIN, 3, True)).run(Told(), [a, b, c], Opt())


def resumed_spec(args, a, b, c):
    with_args(args, TrainMode.TRAIN, 3, True)
    learn(args, begin(args, True, True), [a, b, c], 1, 3, 2, True)


def other_worker(args, a, b):
    t = Trainer(with_args(args, TrainMode.TRAIN, 2))
    t.rank = 1
    return t.run(Net(), [a, b], Opt())


def other_worker_spec(args, a, b):
    with_args(args, TrainMode.TRAIN, 2)
    learn(args, begin(args, False, True), [a, b], 1, 2, 2, False)


def watched(args, a, b, x, y):
    return Trainer(with_args(args, TrainMode.TRAIN, 2)).run(Net(), [a, b], Opt(), [x, y])


def watched_spec(args, a, b, x, y):
    with_args(args, TrainMode.TRAIN, 2)
    learn(args, begin(args, True), [a, b], 0, 2, 0, True, [x, y])


def limited(args, world: "count", a):
    t = Trainer(with_args(args, TrainMode.TRAIN, 1))
    t.world_size = world
    t.run(Net(), [a], Opt())
    return t.max_steps


def limited_spec(args, world: "count", a):
    return args.max_samples // (args.batch_size * world) if args.max_samples > 0 else -1


def unlearned(args, a):
    Trainer(with_args(args, TrainMode.TRAIN, 1)).run(Net(), [a])


def unlearned_spec(args, a):
    raise AssertionError


# ---- evaluation
def assessed(args, a, b, c):
    return Trainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [a, b, c])


def assessed_spec(args, a, b, c):
    with_args(args, TrainMode.EVALUATE, 1)
    limit = begin(args, True, True)
    note("without gradients")
    seen = []
    for step, batch in enumerate([a, b, c]):
        prepare(args, batch)
        note("run", batch, "evaluation")
        seen.append(batch)
        if limit > 0 and step + 1 >= limit:
            break
    note("with gradients")
    if args.use_per_step_metrics:
        return np.mean([value(result("metric", ([result("pred", x)], [result("label", x)]))) for x in seen])
    return result("metric", ([result("pred", x) for x in seen], [result("label", x) for x in seen]))


def nothing_assessed(args):
    return Trainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [])


def nothing_assessed_spec(args):
    with_args(args, TrainMode.EVALUATE, 1)
    begin(args, True, True)
    note("without gradients")
    note("with gradients")
    return 0 if args.use_per_step_metrics else result("metric", ([], []))


# ---- inference
def embedded(args, a, b, c):
    args.enable_adl_uploader = False
    t = Trainer(with_args(args, TrainMode.INFERENCE, 1))
    t.rank = args.place
    t.run(Net(), [a, b, c])


def embedded_spec(args, a, b, c):
    with_args(args, TrainMode.INFERENCE, 1)
    limit = begin(args, args.place == 0, True)
    with open(os.path.join(args.save_path, f"embedding-{args.place}") + ".tsv", "w", encoding="utf-8") as fp:
        note("without gradients")
        for step, batch in enumerate([a, b, c]):
            prepare(args, batch)
            note("embed", batch, "evaluation")
            note("written", fp, batch, result("embedding", batch))
            if limit > 0 and step + 1 >= limit:
                break
        note("with gradients")


def uploaded(args, a, b):
    args.enable_adl_uploader = True
    t = Trainer(with_args(args, TrainMode.INFERENCE, 1))
    t.rank = args.place
    t.run(Net(), [a, b])


def uploaded_spec(args, a, b):
    with_args(args, TrainMode.INFERENCE, 1)
    limit = begin(args, args.place == 0, True, away=True)
    note("uploader", args.uploader_process_num, args.uploader_threads_num, args.uploader_store_name, os.path.join(args.save_path, f"embedding-{args.place}"))
    note("opened")
    note("without gradients")
    for step, batch in enumerate([a, b]):
        prepare(args, batch)
        note("embed", batch, "evaluation")
        note("written", the_uploader(), batch, result("embedding", batch))
        if limit > 0 and step + 1 >= limit:
            break
    note("with gradients")
    note("closed")


def the_uploader():
    pass


# ---- half precision
def halved(args, a, b):
    args.fp16 = "amp"
    args.gpu = True
    return FP16Trainer(with_args(args, TrainMode.TRAIN, 1)).run(Net(), [a, b], Opt())


def halved_spec(args, a, b):
    with_args(args, TrainMode.TRAIN, 1)
    args.gpu = True
    limit = begin(args, True)
    planned(args, limit)
    for i, batch in enumerate([a, b]):
        step = i + 1
        prepare(args, batch)
        note("clear")
        note("half precision")
        note("run", batch, "training")
        note("full precision")
        note("backward", result("scaled", result("loss", batch)))
        if args.clip_grad:
            note("unscaled")
            note("clip", result("parameters", 0), args.grad_max_norm)
        note("scaled update")
        note("scale adjusted")
        if limit > 0:
            note("rate")
        if at(args.save_ckpt_by_steps, step) and not (limit > 0 and step == limit):
            save(args, 0, step)
        if limit > 0 and step >= limit:
            break
    if 0 % args.save_ckpt_by_epochs == 0:
        save(args, 1, 0)


def not_halved(args, a, b):
    args.fp16 = "no"
    return FP16Trainer(with_args(args, TrainMode.TRAIN, 1)).run(Net(), [a, b], Opt())


def not_halved_spec(args, a, b):
    with_args(args, TrainMode.TRAIN, 1)
    learn(args, begin(args, True), [a, b], 0, 1, 0, True)


def half_assessed(args, a):
    args.fp16 = "amp"
    args.gpu = True
    return FP16Trainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [a])


def half_assessed_spec(args, a):
    with_args(args, TrainMode.EVALUATE, 1)
    args.gpu = True
    begin(args, True)
    note("without gradients")
    prepare(args, a)
    note("half precision")
    note("run", a, "evaluation")
    note("full precision")
    note("with gradients")
    metric = result("metric", ([result("pred", a)], [result("label", a)]))
    return np.mean([value(metric)]) if args.use_per_step_metrics else metric


# ---- several workers
def shared(args, a, b):
    args.fp16 = "no"
    args.local_rank = my_place()
    return DDPTrainer(with_args(args, TrainMode.TRAIN, 2)).run(Net(), [a, b], Opt())


def shared_watched(args, a, x):
    args.fp16 = "no"
    args.local_rank = my_place()
    DDPTrainer(with_args(args, TrainMode.TRAIN, 1)).run(Net(), [a], Opt(), [x])


def shared_watched_spec(args, a, x):
    if args.disable_ib:
        note("no infiniband")
    note("group", "nccl" if args.gpu else "gloo")
    with_args(args, TrainMode.TRAIN, 1)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("vector", result("parameters", 0)), 0)
    if my_rank() != 0:
        note("received", result("vector", result("parameters", 0)), result("parameters", 0))
    planned(args, limit)
    note("wrapped", [my_place()] if args.gpu else None)
    one_step(args, a, 0, 1, limit, my_rank() == 0)
    if at(args.eval_during_train_by_steps, 1):
        metric, loss = assess_all(args, 0, [x])
        note("summed", metric, dist.ReduceOp.SUM)
        note("summed", loss, dist.ReduceOp.SUM)
    if my_rank() == 0 and 0 % args.save_ckpt_by_epochs == 0:
        save(args, 1, 0)


def shared_spec(args, a, b):
    if args.disable_ib:
        note("no infiniband")
    note("group", "nccl" if args.gpu else "gloo")
    with_args(args, TrainMode.TRAIN, 2)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("vector", result("parameters", 0)), 0)
    if my_rank() != 0:
        note("received", result("vector", result("parameters", 0)), result("parameters", 0))
    planned(args, limit)
    note("wrapped", [my_place()] if args.gpu else None)
    learn_on(args, limit, [a, b], 0, 2, my_rank() == 0)


def learn_on(args, limit, batches, first_epoch, last_epoch, chief, joined=False):
    for epoch in range(first_epoch, last_epoch):
        for i, batch in enumerate(batches):
            one_step(args, batch, epoch, i + 1, limit, chief)
            if limit > 0 and i + 1 >= limit:
                break
        if chief and epoch % args.save_ckpt_by_epochs == 0:
            save(args, epoch + 1, 0)
        if joined:
            note("join")


def my_rank():
    pass


def my_world():
    pass


def my_place():
    pass


def averaged(args, a, b):
    args.fp16 = "no"
    args.local_rank = my_place()
    return DDPTrainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [a, b])


def assess_all(args, limit, batches):
    note("without gradients")
    seen = []
    for step, batch in enumerate(batches):
        prepare(args, batch)
        note("run", batch, "evaluation")
        seen.append(batch)
        if limit > 0 and step + 1 >= limit:
            break
    note("with gradients")
    if args.use_per_step_metrics:
        metric = np.mean([value(result("metric", ([result("pred", x)], [result("label", x)]))) for x in seen])
    else:
        metric = result("metric", ([result("pred", x) for x in seen], [result("label", x) for x in seen]))
    return metric, np.mean([value(result("loss", x)) for x in seen])


def averaged_spec(args, a, b):
    if args.disable_ib:
        note("no infiniband")
    note("group", "nccl" if args.gpu else "gloo")
    with_args(args, TrainMode.EVALUATE, 1)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("vector", result("parameters", 0)), 0)
    if my_rank() != 0:
        note("received", result("vector", result("parameters", 0)), result("parameters", 0))
    note("wrapped", [my_place()] if args.gpu else None)
    metric, loss = assess_all(args, limit, [a, b])
    note("summed", metric, dist.ReduceOp.SUM)
    note("summed", loss, dist.ReduceOp.SUM)
    return metric / my_world()


def joined(args, a, b):
    args.fp16 = "no"
    return HVDTrainer(with_args(args, TrainMode.TRAIN, 2)).run(Net(), [a, b], Opt())


def joined_spec(args, a, b):
    if args.disable_ib:
        note("no infiniband")
    note("group", "hvd")
    with_args(args, TrainMode.TRAIN, 2)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("state", 0), 0)
    planned(args, limit)
    note("optimizer broadcast", 0)
    note("optimizer shared", hvd.Average)
    learn_on(args, limit, [a, b], 0, 2, my_rank() == 0, True)


def joined_averaged(args, a, b):
    args.fp16 = "no"
    return HVDTrainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [a, b])


def joined_averaged_spec(args, a, b):
    if args.disable_ib:
        note("no infiniband")
    note("group", "hvd")
    with_args(args, TrainMode.EVALUATE, 1)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("state", 0), 0)
    metric, loss = assess_all(args, limit, [a, b])
    note("averaged", metric)
    note("averaged", loss)
    return result("mean over workers", metric)


def joined_embedded(args, a, b):
    args.fp16 = "no"
    args.enable_adl_uploader = False
    HVDTrainer(with_args(args, TrainMode.INFERENCE, 1)).run(Net(), [a, b])


def joined_embedded_spec(args, a, b):
    if args.disable_ib:
        note("no infiniband")
    note("group", "hvd")
    with_args(args, TrainMode.INFERENCE, 1)
    limit = begin(args, my_rank() == 0, False, my_world(), my_place())
    note("broadcast", result("state", 0), 0)
    embed_all(args, limit, [a, b], my_rank())
    note("join")


def embed_all(args, limit, batches, rank, half=False):
    with open(os.path.join(args.save_path, f"embedding-{rank}") + ".tsv", "w", encoding="utf-8") as fp:
        note("without gradients")
        for step, batch in enumerate(batches):
            prepare(args, batch)
            if half:
                note("half precision")
            note("embed", batch, "evaluation")
            if half:
                note("full precision")
            note("written", fp, batch, result("embedding", batch))
            if limit > 0 and step + 1 >= limit:
                break
        note("with gradients")


def half_embedded(args, a, b):
    args.fp16 = "amp"
    args.gpu = True
    args.enable_adl_uploader = False
    FP16Trainer(with_args(args, TrainMode.INFERENCE, 1)).run(Net(), [a, b])


def half_embedded_spec(args, a, b):
    with_args(args, TrainMode.INFERENCE, 1)
    args.gpu = True
    embed_all(args, begin(args, True), [a, b], 0, True)


# half precision is of no use without a graphics card
def host(args, a, b):
    args.fp16 = "amp"
    args.gpu = False
    return FP16Trainer(with_args(args, TrainMode.TRAIN, 1)).run(Net(), [a, b], Opt())


def host_spec(args, a, b):
    with_args(args, TrainMode.TRAIN, 1)
    args.gpu = False
    learn(args, begin(args, True), [a, b], 0, 1, 0, True)


def host_assessed(args, a, b):
    args.fp16 = "amp"
    args.gpu = False
    return FP16Trainer(with_args(args, TrainMode.EVALUATE, 1)).run(Net(), [a, b])


def host_assessed_spec(args, a, b):
    with_args(args, TrainMode.EVALUATE, 1)
    args.gpu = False
    return assess_all(args, begin(args, True), [a, b])[0]


def host_embedded(args, a, b):
    args.fp16 = "amp"
    args.gpu = False
    args.enable_adl_uploader = False
    FP16Trainer(with_args(args, TrainMode.INFERENCE, 1)).run(Net(), [a, b])


def host_embedded_spec(args, a, b):
    with_args(args, TrainMode.INFERENCE, 1)
    args.gpu = False
    embed_all(args, begin(args, True), [a, b], 0)


def chosen(args):
    args.fp16 = "no"
    return get_trainer(args)


def chosen_spec(args):
    args.fp16 = "no"
    if args.trainer == TrainerType.BASE:
        return Trainer(args)
    if args.trainer == TrainerType.DDP:
        return DDPTrainer(args)
    if args.trainer == TrainerType.HVD:
        return HVDTrainer(args)
    raise RuntimeError


# ---- checkpoints
def ordered(folder, prefix: str):
    return get_sorted_checkpoints(folder, prefix)


def ordered_spec(folder, prefix: str):
    named = []
    for x in [str(x) for x in Path(folder).glob(f"{prefix}-*")]:
        found = re.match(f".*{prefix}-([0-9\\\\-]+)", x)
        if found and found.groups():
            named.append(([int(n) for n in found.groups()[0].split("-") if n], x))
    return [x for _, x in sorted(named)]


def rotated(folder, prefix: str, limit_less: "count", excess_less: "count"):
    rotate_checkpoints(folder, limit_less + 1, prefix)


def rotated_spec(folder, prefix: str, limit_less: "count", excess_less: "count"):
    for i in range(excess_less + 1):
        note("removed", kept(i))


def rotated_few(folder, prefix: str, limit_less: "count", excess_less: "count"):
    rotate_checkpoints(folder, limit_less + excess_less + 1, prefix)


def rotated_few_spec(folder, prefix: str, limit_less: "count", excess_less: "count"):
    pass


def rotated_none(folder, prefix: str, limit_less: "count", excess_less: "count"):
    rotate_checkpoints(folder, 0, prefix)


def rotated_none_spec(folder, prefix: str, limit_less: "count", excess_less: "count"):
    pass


def kept(i):
    pass


def kept_files(folder, prefix: str, limit_less: "count", excess_less: "count"):
    return [kept(i) for i in range(limit_less + excess_less + 2)]


def few_files(folder, prefix: str, limit_less: "count", excess_less: "count"):
    return [kept(i) for i in range(excess_less + 1)]


def other_mode(args, a):
    Trainer(with_args(args, args.mode, 1)).run(Net(), [a], Opt())


def other_mode_spec(args, a):
    if args.mode not in (TrainMode.TRAIN, TrainMode.EVALUATE, TrainMode.INFERENCE):
        raise RuntimeError
'''


SCALER = mk("inst", "torch.cuda.amp.GradScaler", "scaler")
UPLOADER = mk("inst", "uploader", "uploader")
RANK, WORLD, PLACE = mk("sym", "worker_rank"), mk("sym", "worker_count"), mk("sym", "worker_place")
for _t in (RANK, WORLD, PLACE):
    TT.COUNTS.add(_t.dig)
RATE = mk("inst", "torch.optim.lr_scheduler.LambdaLR", "rate")


def text(path):
    """A path, however it is put together."""

    def f(x):
        if x.op == "call" and x.args[0] == "format" and all(is_const(y) for y in x.args[1]):
            return const(format(*[cval(y) for y in x.args[1]]))
        if x.op == "call" and x.args[0] == ".format" and not x.args[2] and all(is_const(y) for y in x.args[1]):
            return const(cval(x.args[1][0]).format(*[cval(y) for y in x.args[1][1:]]))
        return x

    return const(norm_path(rewrite(path, f)))


def part(d, k, absent=None):
    """What a mapping holds for a key, in each case."""
    if d.op == "ite":
        return ite(d.args[0], part(d.args[1], k, absent), part(d.args[2], k, absent))
    x = entry(d, k) if d.op == "dict" else seq_idx(d, const(k))
    return absent if absent is not None and x.op == "absent" else x


def pure(name):
    return lambda fl, f, b, args, kw, node: mk("call", name, tuple(fl.fz(x) for x in args), (), NONE)


def hooks(kept=None):
    def note(fl, f, b, args, kw, node):
        what, *rest = [fl.fz(x) for x in args]
        put_log(fl, "run", cval(what), *(rest[:-1] + [text(rest[-1])] if cval(what) == "save" else rest))
        return NONE

    def tells(what, *names):
        def h(fl, f, b, args, kw, node):
            put_log(fl, "run", what, *[fl.fz(argument(f, args, kw, i, x)) for i, x in enumerate(names)])
            return NONE

        return h

    def backward(fl, b, args, kw, node):
        put_log(fl, "run", "backward", fl.fz(b))
        return NONE

    def saved(fl, f, b, args, kw, node):
        d, path = fl.fz(args[0]), fl.fz(args[1])
        put_log(fl, "run", "save", *[part(d, k) for k in ("state_dict", "epoch", "step")], part(d, "init_parameters", NONE), text(path))
        return NONE

    def loaded(fl, f, b, args, kw, node):
        put_log(fl, "run", "load", fl.fz(args[0]))
        return fl.alloc("dict", mk("dict", *[mk("pair", const(k), v) for k, v in (("epoch", const(kept[0])), ("step", const(kept[1])), ("state_dict", mk("call", "result", (const("kept"), const("state")), (), NONE)))]))

    def search(fl, f, b, args, kw, node):
        put_log(fl, "run", "search", fl.fz(argument(f, args, kw, 0, "model_dir")))
        return mk("list") if kept is None else mk("list", const("an older checkpoint"), const("the newest checkpoint"))

    def has_attribute(fl, f, b, args, kw, node):
        x = fl.fz(args[0])
        if x.op == "inst" and str(x.args[0]).split(".")[-1] in ("Net", "Told") and fl.fz(args[1]) is const("init_parameters"):
            return const(str(x.args[0]).endswith(".Told"))

    def stepped(fl, b, args, kw, node):
        if fl.fz(b) is not RATE:
            return None
        put_log(fl, "run", "rate")
        return NONE

    def schedule(fl, f, b, args, kw, node):
        put_log(fl, "run", "schedule", fl.fz(argument(f, args, kw, 1, "num_warmup_steps")), fl.fz(argument(f, args, kw, 2, "num_training_steps")))
        return RATE

    def value(fl, x):
        return mk("call", "value", (x.args[0] if x.op == "attr" and x.args[1] == "data" else x,), (), NONE)

    def around(*what):
        def h(fl, v, node):
            name = v.args[0] if v.op == "call" else ""
            if name in ("torch.no_grad", "torch.inference_mode"):
                put_log(fl, "run", what[0])
            elif name == "torch.cuda.amp.autocast":
                put_log(fl, "run", what[1])
            elif v is UPLOADER:
                put_log(fl, "run", what[2])

        return h

    chosen = [NONE]

    def set_device(fl, f, b, args, kw, node):
        chosen[0] = fl.fz(args[0])
        return NONE

    def vector(fl, f, b, args, kw, node):
        return mk("call", "result", (const("vector"), fl.fz(args[0])), (), NONE)

    def uploader(fl, f, b, args, kw, node):
        put_log(fl, "run", "uploader", *[fl.fz(kw.get(k, NONE)) for k in ("process_num", "threads_per_process", "store_name", "file_path_prefix")])
        return UPLOADER

    def wrapped(fl, f, b, args, kw, node):
        put_log(fl, "run", "wrapped", fl.fz(argument(f, args, kw, 1, "device_ids")))
        return args[0]

    def shared(fl, f, b, args, kw, node):
        put_log(fl, "run", "optimizer shared", fl.fz(kw.get("op", NONE)))
        return argument(f, args, kw, 0, "optimizer")

    def to_gpu(fl, b, args, kw, node):
        t = fl.fz(b)
        return None if b.op in ("inst", "obj") or t.op == "inst" else t

    def scaler(name):
        def h(fl, b, args, kw, node):
            if fl.fz(b) is not SCALER:
                return None
            if name == "scale":
                return mk("call", "result", (const("scaled"), fl.fz(args[0])), (), NONE)
            put_log(fl, "run", name)
            return NONE

        return h

    def step_of(fl, b, args, kw, node):
        return scaler("scaled update")(fl, b, args, kw, node) if fl.fz(b) is SCALER else stepped(fl, b, args, kw, node)

    fixed = lambda t: lambda fl, f, b, args, kw, node: t

    same_ = lambda fl, b, args, kw, node: fl.fz(b)
    return {
        "note": note, "result": pure("result"), "value": lambda fl, f, b, args, kw, node: value(fl, fl.fz(args[0])), "newest": lambda fl, f, b, args, kw, node: const("the newest checkpoint"),
        "log_telemetry": h_none, "print_model": h_none, "tally_parameters": h_none, "dump_gpu_memory": pure("memory"),
        ".info": lambda fl, b, args, kw, node: NONE, ".add_scalar": lambda fl, b, args, kw, node: NONE, "torch.utils.tensorboard.SummaryWriter": pure("summary"),
        ".backward": backward, ".step": stepped, "torch.nn.utils.clip_grad_norm_": tells("clip", "parameters", "max_norm"),
        "torch.save": saved, "torch.load": loaded, "rotate_checkpoints": tells("rotate", "model_dir", "max_saved_ckpts"),
        "get_sorted_checkpoints": search, "hasattr": has_attribute,
        "get_linear_schedule_with_warmup": schedule, "to_cuda": tells("to gpu", "context"), "os.makedirs": tells("folder", "name"),
        ".item": lambda fl, b, args, kw, node: value(fl, fl.fz(b)), ".detach": same_, ".cpu": same_, "torch.tensor": lambda fl, f, b, args, kw, node: fl.fz(args[0]),
        "$enter": around("without gradients", "half precision", "opened"), "$exit": around("with gradients", "full precision", "closed"),
        "new:AdlDataWriter": lambda fl, cls, b, args, kw, node: uploader(fl, None, b, args, kw, node), "the_uploader": fixed(UPLOADER), "device": lambda fl, f, b, args, kw, node: chosen[0], "torch.cuda.set_device": set_device,
        "torch.distributed.get_rank": fixed(RANK), "torch.distributed.get_world_size": fixed(WORLD), "my_rank": fixed(RANK), "my_world": fixed(WORLD), "my_place": fixed(PLACE),
        "horovod.torch.rank": fixed(RANK), "horovod.torch.size": fixed(WORLD), "horovod.torch.local_rank": fixed(PLACE), "horovod.torch.init": lambda fl, f, b, args, kw, node: put_log(fl, "run", "group", const("hvd")) or NONE,
        "torch.distributed.init_process_group": tells("group", "backend"), "disable_infini_band": tells("no infiniband"),
        "torch.distributed.broadcast": tells("broadcast", "tensor", "src"), "torch.nn.utils.parameters_to_vector": vector, "torch.nn.utils.vector_to_parameters": tells("received", "vec", "parameters"),
        "torch.nn.parallel.DistributedDataParallel": wrapped, "torch.distributed.all_reduce": tells("summed", "tensor", "op"), ".cuda": to_gpu,
        "horovod.torch.allreduce": lambda fl, f, b, args, kw, node: put_log(fl, "run", "averaged", fl.fz(args[0])) or mk("call", "result", (const("mean over workers"), fl.fz(args[0])), (), NONE),
        "horovod.torch.broadcast_parameters": tells("broadcast", "params", "root_rank"), "horovod.torch.broadcast_optimizer_state": lambda fl, f, b, args, kw, node: put_log(fl, "run", "optimizer broadcast", fl.fz(argument(f, args, kw, 1, "root_rank"))) or NONE,
        "horovod.torch.DistributedOptimizer": shared, "horovod.torch.join": tells("join"),
        "torch.cuda.amp.GradScaler": fixed(SCALER), ".scale": scaler("scale"), ".unscale_": scaler("unscaled"), ".update": scaler("scale adjusted"), ".step": step_of,
        "os.remove": tells("removed", "path"),
    }


KNOWN = ("result", "value", "np.mean", "np.sum")
RUNS = {
    "fresh": ("from the start", None), "resumed": ("from a checkpoint", (1, 2)), "other_worker": ("of another worker", (1, 2)), "watched": ("evaluated meanwhile", None),
    "assessed": ("of an evaluation", (4, 5)), "nothing_assessed": ("of an evaluation without batches", (4, 5)), "embedded": ("of inference", (4, 5)),
    "uploaded": ("of uploaded inference", (4, 5)), "halved": ("in half precision", None), "not_halved": ("in full precision", None), "half_assessed": ("of an evaluation in half precision", None),
    "shared": ("of several workers", None), "averaged": ("of an evaluation by several workers", None), "joined": ("of joined workers", None), "joined_averaged": ("of an evaluation by joined workers", None),
    "shared_watched": ("of several workers, evaluated meanwhile", None), "joined_embedded": ("of inference by joined workers", None), "half_embedded": ("of inference in half precision", None),
    "host": ("in half precision on the host", None), "host_assessed": ("of an evaluation in half precision on the host", None), "host_embedded": ("of inference in half precision on the host", None),
}


def steps(c, name):
    m = source(c, DRV)
    what, kept = RUNS[name]
    a, b = (run_driver(c, m, n, hooks=hooks(kept)) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_class(TR, "Trainer").methods["run"])
    c.equal("training", "steps " + what, log_of(a, "run"), log_of(b, "run"), loc, known=KNOWN)
    if name not in ("shared", "averaged", "shared_watched"):  # (these ask for variables of the launcher)
        c.equal("training", "refused " + what, rejections(a), rejections(b), loc)
    c.equal("training", "result " + what, a.ret, b.ret, loc, known=KNOWN)


def outcome(c, name, what):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_class(TR, "Trainer").methods["run"])
    fine = not_(rejections(b))
    c.equal("training", what, ite(fine, a.ret, NONE), ite(fine, b.ret, NONE), loc, known=KNOWN)
    c.equal("training", what + ", refused", rejections(a), rejections(b), loc)


def matched(t):
    """Results of matching with one group, however they are asked for."""

    def m(x):
        return x.op == "call" and x.args[0] in ("re.match", "re.search", "re.fullmatch")

    def f(x):
        if x.op == "isnone" and m(x.args[0]):
            return not_(mk("truthy", x.args[0]))
        if x.op == "truthy" and x.args[0].op == "call" and x.args[0].args[0] == ".groups" and m(x.args[0].args[1][0]):
            return mk("truthy", x.args[0].args[1][0])
        return x

    return rewrite(t, f)


def order(c):
    m = source(c, DRV)

    def groups(fl, b, args, kw, node):
        return mk("call", ".groups", (fl.fz(b),), (), NONE)

    def group(fl, b, args, kw, node):
        return seq_idx(groups(fl, b, args, kw, node), ZERO) if args and fl.fz(args[0]) is ONE else None

    given = {k: v for k, v in hooks().items() if k not in ("get_sorted_checkpoints", "rotate_checkpoints")}
    given = {**given, ".groups": groups, ".group": group}
    a, b = (run_driver(c, m, n, hooks=given) for n in ("ordered", "ordered_spec"))
    c.equal("checkpoints", "order", matched(a.ret), matched(b.ret), floc(c.prog.need_func(UT, "get_sorted_checkpoints")))


def measured(t):
    """Lengths of the beginnings of lists, where they are known."""

    def f(x):
        if x.op == "max" and len(x.args) == 2 and ZERO in x.args:
            y = [v for v in x.args if v is not ZERO]
            if y and never_negative(y[0]):
                return y[0]
            if y and never_negative(sub(ZERO, y[0])):
                return ZERO
        if x.op == "len" and x.args[0].op == "idx" and x.args[0].args[1].op == "slice":
            s, (a, b, step) = x.args[0].args[0], x.args[0].args[1].args
            n = seq_len(s)
            if a is NONE and step is NONE and b is not NONE:
                at = add(n, b) if never_negative(sub(ZERO, add(b, ONE))) else b if never_negative(b) else None
                if at is not None and never_negative(at) and never_negative(sub(n, at)):
                    return at
        if x.op == "idx" and x.args[1].op == "bv" and x.args[0].op == "idx" and x.args[0].args[1].op == "slice" and x.args[0].args[1].args[0] is NONE and x.args[0].args[1].args[2] is NONE:
            return seq_idx(x.args[0].args[0], x.args[1])
        return x

    return rewrite(t, f)


def removed(c, name, what, files):
    m = source(c, DRV)
    there = run_driver(c, m, files, hooks={"kept": pure("kept")}).ret

    def found(fl, f, b, args, kw, node):
        put_log(fl, "asked", fl.fz(args[0]), fl.fz(argument(f, args, kw, 1, "perfix")))
        return there

    given = {**{k: v for k, v in hooks().items() if k != "rotate_checkpoints"}, "get_sorted_checkpoints": found, "kept": pure("kept")}
    a, b = (run_driver(c, m, n, hooks=given) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_func(UT, "rotate_checkpoints"))
    c.equal("checkpoints", "removed when there are " + what, measured(log_of(a, "run")), log_of(b, "run"), loc, known=("kept",))
    if name == "rotated":
        c.equal("checkpoints", "searched", log_of(a, "asked"), mk("list", mk("entry", mk("sym", "folder"), mk("sym", "prefix"))), loc)


def run(c):
    c.rule("training", "steps of training, evaluation and inference in order, what they return")
    for n in RUNS:
        c.clause("training", RUNS[n][0], steps, n)
    for n, what in (("limited", "steps of an epoch"), ("unlearned", "training without an optimizer"), ("other_mode", "modes"), ("chosen", "trainer of a kind")):
        c.clause("training", what, outcome, n, what)
    c.rule("checkpoints", "order of checkpoints, which of them are removed")
    c.clause("checkpoints", "order", order)
    for n, what, files in (("rotated", "too many", "kept_files"), ("rotated_few", "not too many", "few_files"), ("rotated_none", "any and no limit", "few_files")):
        c.clause("checkpoints", "removed when there are " + what, removed, n, what, files)
    c.floor("training", 40)
    c.floor("checkpoints", 5)
