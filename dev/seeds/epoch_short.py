PROPERTY = "P27"
NEEDS = "training with a session for two or more epochs"
BREAKS = "the last epoch is not trained"
EDITS = [("tf/common/trainer.py", "graph_dataset = graph_dataset.repeat(epochs)", "graph_dataset = graph_dataset.repeat(epochs - 1)")]
DEMO = '''
import sys, types


class Anything:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        return self


def fake(name, **values):
    m = types.ModuleType(name)
    m.__dict__.update(values)
    m.__getattr__ = lambda x: Anything()
    sys.modules[name] = m
    return m


class Base:
    pass


tf = fake("tensorflow", __version__="2", keras=types.SimpleNamespace(Model=Base, losses=types.SimpleNamespace(Loss=Base), metrics=types.SimpleNamespace(Metric=Base), callbacks=types.SimpleNamespace(Callback=Base), optimizers=types.SimpleNamespace(Optimizer=Base)), data=types.SimpleNamespace(Dataset=Base, Iterator=Base), estimator=types.SimpleNamespace(CheckpointSaverHook=Base, SessionRunHook=Base), device=Base, Tensor=Base)
import deepgnn

for name in ("deepgnn.tf", "deepgnn.tf.common"):
    m = types.ModuleType(name)
    m.__path__ = [deepgnn.__path__[0] + name[len("deepgnn") :].replace(".", "/")]
    sys.modules[name] = m

from deepgnn.tf.common.trainer import BaseTFTrainer


class Data(list):
    def repeat(self, n):
        return Data(list(self) * n)


class Once:
    def __init__(self, data):
        self.data = data

    def get_next(self):
        return self.data


tf.compat = types.SimpleNamespace(v1=types.SimpleNamespace(data=types.SimpleNamespace(make_one_shot_iterator=Once)))
for epochs in (1, 2, 3, 5):
    got = BaseTFTrainer.make_dataset_iterator(None, Data([1, 2, 3]), epochs)
    assert len(got) == 3 * epochs, (epochs, got)
'''
