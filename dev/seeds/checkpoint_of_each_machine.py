PROPERTY = "P27"
NEEDS = "a horovod job on two or more machines"
BREAKS = "the first process of every machine, and not only that of the job, writes and reads checkpoints in the shared folder"
EDITS = [("tf/common/horovod_trainer.py", "self.model_dir if self.task_index == 0 else None", "self.model_dir if hvd.local_rank() == 0 else None")]
DEMO = '''
import sys, types


class Anything:
    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        return self


def fake(name, **values):
    m = types.ModuleType(name)
    m.__dict__.update(values)
    m.__getattr__ = lambda x: Anything()
    sys.modules[name] = m
    return m


class Base:
    pass


tf = fake("tensorflow", __version__="2", keras=types.SimpleNamespace(Model=Base, losses=types.SimpleNamespace(Loss=Base), metrics=types.SimpleNamespace(Metric=Base), callbacks=types.SimpleNamespace(Callback=Base), optimizers=types.SimpleNamespace(Optimizer=Base)), data=types.SimpleNamespace(Dataset=Base, Iterator=Base), estimator=types.SimpleNamespace(CheckpointSaverHook=Base, SessionRunHook=Base), device=Base, Tensor=Base)
import deepgnn

for name in ("deepgnn.tf", "deepgnn.tf.common"):
    m = types.ModuleType(name)
    m.__path__ = [deepgnn.__path__[0] + name[len("deepgnn") :].replace(".", "/")]
    sys.modules[name] = m

import os, tempfile
sys.modules["deepgnn.tf.common.args"] = types.ModuleType("args")
sys.modules["deepgnn.tf.common.args"].TrainerType = deepgnn.TrainerType
hvd = fake("horovod.tensorflow")
fake("horovod", tensorflow=hvd)
from deepgnn.tf.common.horovod_trainer import HorovodTFTrainer

for machines, each in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 4)):
    hvd.init = lambda: None
    hvd.size = lambda: machines * each
    writers = []
    with tempfile.TemporaryDirectory() as folder:
        for i in range(machines * each):
            hvd.rank = lambda: i
            hvd.local_rank = lambda: i % each
            t = HorovodTFTrainer(deepgnn.TrainerType.HVD, folder, None)
            if t.checkpoint_dir is not None:
                writers.append(i)
    assert writers == [0], (machines, each, writers)
'''
