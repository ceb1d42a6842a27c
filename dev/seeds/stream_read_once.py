PROPERTY = "P25"
NEEDS = "a second pass over a tensorflow data set, such as a second epoch"
BREAKS = "the stream is begun once for all, and every later pass over it is empty"
EDITS = [("tf/common/dataset.py", '''    graph_dataset = tf.data.Dataset.from_generator(
        lambda: iter(dataset), tuple''', '''    batches = iter(dataset)
    graph_dataset = tf.data.Dataset.from_generator(
        lambda: batches, tuple''')]
DEMO = '''
import sys, types
import numpy as np


class Stream:
    def __init__(self, generator, types, shapes):
        self.generator, self.types, self.shapes = generator, types, shapes

    @staticmethod
    def from_generator(generator, output_types=None, output_shapes=None):
        return Stream(generator, output_types, output_shapes)

    def prefetch(self, n):
        return self

    def __iter__(self):
        return iter(self.generator())


tf = types.ModuleType("tensorflow")
tf.data = types.SimpleNamespace(Dataset=Stream)
tf.convert_to_tensor = np.asarray
tf.TensorShape = tuple
sys.modules["tensorflow"] = tf
import deepgnn

for name in ("deepgnn.tf", "deepgnn.tf.common"):
    m = types.ModuleType(name)
    m.__path__ = [deepgnn.__path__[0] + name[len("deepgnn") :].replace(".", "/")]
    sys.modules[name] = m
from deepgnn.tf.common.dataset import create_tf_dataset


class Rows:
    def __init__(self, batch_size):
        self.batch_size = batch_size

    def __len__(self):
        return 3

    def __iter__(self):
        for i in range(3):
            yield np.full(self.batch_size, i)


class Backend:
    graph = "graph"


def query(graph, inputs, return_shape=False):
    out = (inputs,)
    return (out, [[None]]) if return_shape else out


stream, length = create_tf_dataset(Rows, query, Backend(), batch_size=2)
assert length == 3
for epoch in range(3):
    got = [x[0].tolist() for x in stream]
    assert got == [[0, 0], [1, 1], [2, 2]], (epoch, got)
'''
