PROPERTY = "P26"
NEEDS = "a batch of embeddings in which a filled up place comes before a node"
BREAKS = "nodes after a filled up place are written with the embedding of an earlier place"
EDITS = [("tf/common/utils.py", "zip(nodes[idx], embedding[idx])", "zip(nodes[idx], embedding)")]
DEMO = '''
import os, sys, tempfile, types
import numpy as np


class Any(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything


class Anything(metaclass=Any):
    def __init__(self, *a, **k):
        pass


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything


sys.modules["tensorflow"] = Module("tensorflow")
import deepgnn

for name in ("deepgnn.tf", "deepgnn.tf.common"):
    m = types.ModuleType(name)
    m.__path__ = [deepgnn.__path__[0] + name[len("deepgnn") :].replace(".", "/")]
    sys.modules[name] = m
from deepgnn.tf.common.utils import load_embeddings, node_embedding_to_string

for nodes in ([0, 1, 2], [2, 0, -1], [-1, 1, 0], [1, -1, 2], [-1, -1, -1]):
    nodes = np.array(nodes)
    rows = np.arange(6, dtype=np.float32).reshape(3, 2)
    want = np.zeros((3, 2), dtype=np.float32)
    for n, r in zip(nodes, rows):
        if n != -1:
            want[n] = r
    with tempfile.TemporaryDirectory() as folder:
        with open(os.path.join(folder, "embedding_0.tsv"), "w") as f:
            f.writelines(node_embedding_to_string([nodes, rows]))
        got = load_embeddings(folder, 3, 2)
    assert np.array_equal(got, want), (nodes, got, want)
'''
