"""Schedules of the learning rate."""
from vlib.terms import mk_minmax

from .common import *

PT = "deepgnn.pytorch"
OPT = PT + ".common.optimization"
DRV = '''
import math
from deepgnn.pytorch.common.optimization import (
    get_constant_schedule, get_constant_schedule_with_warmup, get_linear_schedule_with_warmup, get_cosine_schedule_with_warmup,
    get_cosine_with_hard_restarts_schedule_with_warmup, get_polynomial_decay_schedule_with_warmup,
)


def scheduled(optimizer, last):
    pass


def warm(step, warmup):
    return step / max(1, warmup)


def share(step, warmup, total):
    return (step - warmup) / max(1, total - warmup)


def constant(optimizer, step: "count", last: int):
    return get_constant_schedule(optimizer, last_epoch=last)(step)


def constant_spec(optimizer, step: "count", last: int):
    scheduled(optimizer, last)
    return 1


def level(optimizer, warmup: "count", step: "count", last: int):
    return get_constant_schedule_with_warmup(optimizer, warmup, last_epoch=last)(step)


def level_spec(optimizer, warmup: "count", step: "count", last: int):
    scheduled(optimizer, last)
    return warm(step, warmup) if step < warmup else 1


def linear(optimizer, warmup: "count", total: "count", step: "count", last: int):
    return get_linear_schedule_with_warmup(optimizer, warmup, total, last)(step)


def linear_spec(optimizer, warmup: "count", total: "count", step: "count", last: int):
    scheduled(optimizer, last)
    if step < warmup:
        return warm(step, warmup)
    return max(0, (total - step) / max(1, total - warmup))


def cosine(optimizer, warmup: "count", total: "count", step: "count", cycles: float, last: int):
    return get_cosine_schedule_with_warmup(optimizer, warmup, total, cycles, last)(step)


def cosine_spec(optimizer, warmup: "count", total: "count", step: "count", cycles: float, last: int):
    scheduled(optimizer, last)
    if step < warmup:
        return warm(step, warmup)
    return max(0, 0.5 * (1 + math.cos(math.pi * cycles * 2 * share(step, warmup, total))))


def restarts(optimizer, warmup: "count", total: "count", step: "count", cycles: "count", last: int):
    return get_cosine_with_hard_restarts_schedule_with_warmup(optimizer, warmup, total, cycles, last)(step)


def restarts_spec(optimizer, warmup: "count", total: "count", step: "count", cycles: "count", last: int):
    scheduled(optimizer, last)
    if step < warmup:
        return warm(step, warmup)
    done = share(step, warmup, total)
    if done >= 1:
        return 0
    return max(0, 0.5 * (1 + math.cos(math.pi * ((cycles * done) % 1))))


def decay(optimizer, warmup: "count", total: "count", step: "count", end: float, power: float, last: int):
    return get_polynomial_decay_schedule_with_warmup(optimizer, warmup, total, end, power, last)(step)


def decay_spec(optimizer, warmup: "count", total: "count", step: "count", end: float, power: float, last: int):
    first = optimizer.defaults["lr"]
    assert first > end
    scheduled(optimizer, last)
    if step < warmup:
        return warm(step, warmup)
    if step > total:
        return end / first
    return ((first - end) * (1 - (step - warmup) / (total - warmup)) ** power + end) / first
'''
SCHEDULES = {
    "constant": "get_constant_schedule", "level": "get_constant_schedule_with_warmup", "linear": "get_linear_schedule_with_warmup", "cosine": "get_cosine_schedule_with_warmup",
    "restarts": "get_cosine_with_hard_restarts_schedule_with_warmup", "decay": "get_polynomial_decay_schedule_with_warmup",
}


def hooks():
    def schedule(fl, f, b, args, kw, node):
        put_log(fl, "made", fl.fz(argument(f, args, kw, 0, "optimizer")), fl.fz(argument(f, args, kw, 2, "last_epoch") or const(-1)))
        return argument(f, args, kw, 1, "lr_lambda")

    def scheduled(fl, f, b, args, kw, node):
        put_log(fl, "made", *[fl.fz(x) for x in args])
        return NONE

    return {"torch.optim.lr_scheduler.LambdaLR": schedule, "scheduled": scheduled, "float": lambda fl, f, b, args, kw, node: fl.fz(args[0])}


def whole(t):
    """Numbers without a fraction are the same with and without a point."""

    def num(v):
        return int(v) if isinstance(v, float) and v == int(v) else v

    def f(x):
        if x.op == "const" and isinstance(cval(x), float):
            return const(num(cval(x)))
        if x.op == "poly":
            out = ZERO
            for mono, k in x.args[0]:
                term = const(num(k))
                for y in mono:
                    term = mul(term, y)
                out = add(out, term)
            return out
        if x.op in ("max", "min"):
            return mk_minmax(x.op, *x.args)
        return x

    return rewrite(t, f)


def rate(c, name):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_func(OPT, SCHEDULES[name]))
    fine = not_(rejections(b))
    c.equal("schedules", name, whole(ite(fine, a.ret, NONE)), whole(ite(fine, b.ret, NONE)), loc, known=("math.cos", "math.sin"))
    c.equal("schedules", name + ", optimizer", log_of(a, "made"), log_of(b, "made"), loc)
    c.equal("schedules", name + ", refused", rejections(a), rejections(b), loc)


def run(c):
    c.rule("schedules", "factor of the learning rate at any step")
    for n in SCHEDULES:
        c.clause("schedules", n, rate, n)
    c.floor("schedules", 16)
