PROPERTY = "P21"
NEEDS = "a linear schedule with warmup steps"
BREAKS = "the rate falls over all steps instead of those after the warmup, so it jumps down when the warmup ends"
EDITS = [("pytorch/common/optimization.py", """            float(num_training_steps - current_step)
            / float(max(1, num_training_steps - num_warmup_steps)),
""", """            float(num_training_steps - current_step)
            / float(max(1, num_training_steps)),
""")]
DEMO = '''
import argparse, importlib.abc, importlib.machinery, os, pickle, sys, tempfile, types


class Anything:
    """Stands for whatever torch provides and the trainer only passes on or logs to."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Loader(importlib.abc.Loader):
    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__path__ = []
        m.__getattr__ = lambda name: made(name)
        return m

    def exec_module(self, m):
        pass


def made(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (Anything,), {})


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("torch", "transformers", "sklearn"):
            return importlib.machinery.ModuleSpec(name, Loader(), is_package=True)


sys.meta_path.insert(0, Finder())
import torch


def dump(what, path):
    with open(path, "wb") as f:
        pickle.dump(what, f)


def load(path, map_location=None):
    with open(path, "rb") as f:
        return pickle.load(f)


torch.save, torch.load, torch.tensor = dump, load, lambda x: x
for name in ("deepgnn.pytorch", "deepgnn.pytorch.common", "deepgnn.pytorch.modeling", "deepgnn.pytorch.training"):
    m = types.ModuleType(name)
    m.__path__ = [os.path.join(os.getcwd(), "src/python", *name.split("."))]
    sys.modules[name] = m

kept = []


class LambdaLR:
    def __init__(self, optimizer, factor, last_epoch=-1):
        self.factor = factor


sys.modules["torch.optim.lr_scheduler"] = types.SimpleNamespace(LambdaLR=LambdaLR)
from deepgnn.pytorch.common.optimization import get_linear_schedule_with_warmup as linear

for warmup, total in ((0, 10), (4, 20), (20, 20)):
    f = linear(None, warmup, total).factor
    for step in range(total + 3):
        want = step / warmup if step < warmup else max(0, (total - step) / max(1, total - warmup))
        assert abs(f(step) - want) < 1e-12, (warmup, total, step, f(step), want)
'''
