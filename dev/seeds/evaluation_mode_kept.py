PROPERTY = 'P20'
NEEDS = 'evaluation during training'
BREAKS = 'the model stays in evaluation mode after an evaluation during training, so later steps train with dropout off'
EDITS = [('pytorch/training/trainer.py', '            model.eval()\n            eval_metric, eval_loss = self._evaluate(model)\n', '            model.train()\n            eval_metric, eval_loss = self._evaluate(model)\n'), ('pytorch/training/trainer.py', '                    )\n                )\n            )\n            model.train()\n', '                    )\n                )\n            )\n')]
DEMO = '''
import argparse, importlib.abc, importlib.machinery, os, pickle, sys, tempfile, types


class Anything:
    """Stands for whatever torch provides and the trainer only passes on or logs to."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Loader(importlib.abc.Loader):
    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__path__ = []
        m.__getattr__ = lambda name: made(name)
        return m

    def exec_module(self, m):
        pass


def made(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (Anything,), {})


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("torch", "transformers", "sklearn"):
            return importlib.machinery.ModuleSpec(name, Loader(), is_package=True)


sys.meta_path.insert(0, Finder())
import torch


def dump(what, path):
    with open(path, "wb") as f:
        pickle.dump(what, f)


def load(path, map_location=None):
    with open(path, "rb") as f:
        return pickle.load(f)


torch.save, torch.load, torch.tensor = dump, load, lambda x: x
for name in ("deepgnn.pytorch", "deepgnn.pytorch.common", "deepgnn.pytorch.modeling", "deepgnn.pytorch.training"):
    m = types.ModuleType(name)
    m.__path__ = [os.path.join(os.getcwd(), "src/python", *name.split("."))]
    sys.modules[name] = m
from deepgnn import TrainMode
from deepgnn.pytorch.training.trainer import Trainer


class Value(float):
    @property
    def data(self):
        return self

    def item(self):
        return float(self)

    def backward(self):
        pass

    def size(self, k):
        return 1

    def detach(self):
        return self

    cpu = detach


class Model:
    def __init__(self):
        self.seen, self.evaluated, self.modes, self.mode, self.weight = [], [], [], None, 0

    def train(self):
        self.mode = "train"

    def eval(self):
        self.mode = "eval"

    def __call__(self, batch):
        self.modes.append((batch, self.mode))
        return Value(batch), Value(batch), Value(batch)

    def parameters(self):
        return []

    def named_parameters(self):
        return []

    def state_dict(self):
        return {}

    def load_state_dict(self, state):
        pass

    def metric_name(self):
        return "metric"

    def compute_metric(self, preds, labels):
        return Value(sum(preds))


def options(folder, **changes):
    a = dict(mode=TrainMode.TRAIN, num_epochs=1, max_samples=0, batch_size=1, gpu=False, fp16="no", save_path=folder, model_dir=folder, metric_dir=folder,
             save_ckpt_by_steps=0, save_ckpt_by_epochs=1, max_saved_ckpts=0, log_by_steps=0, use_per_step_metrics=False, eval_during_train_by_steps=0,
             clip_grad=False, grad_max_norm=1.0, warmup=0.0, user_name="", job_id="", enable_adl_uploader=False)
    a.update(changes)
    return argparse.Namespace(**a)


def trained(folder, batches, evaluation=None, **changes):
    m = Model()
    Trainer(options(folder, **changes)).run(m, batches, Anything(), evaluation)
    return m


with tempfile.TemporaryDirectory() as d:
    m = trained(d, [1, 2, 3], [7, 8], eval_during_train_by_steps=2, num_epochs=2)
    for batch, mode in m.modes:
        assert mode == ("train" if batch < 5 else "eval"), m.modes
'''
