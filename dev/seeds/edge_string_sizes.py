PROPERTY = 'P12'
NEEDS = 'string features of edges with more or fewer features than edges'
BREAKS = 'the shape of the reported lengths is transposed, so lengths belong to other edges and features'
EDITS = [('graph_engine/snark/client.py', '        dimensions = np.zeros((edge_src.size, features.size), dtype=np.int64)', '        dimensions = np.zeros((features.size, edge_src.size), dtype=np.int64)')]
DEMO = '''
import ctypes, json, os, tempfile
from unittest import mock
import numpy as np


class Fn:
    """A library function: checks its arguments like ctypes and reports a status."""

    def __init__(self, body):
        self.body, self.argtypes, self.errcheck, self.restype = body, None, None, None

    def __call__(self, *args):
        if self.argtypes is not None:
            assert len(args) == len(self.argtypes)
            for t, a in zip(self.argtypes, args):
                t.from_param(a)
        status = self.body(*args) or 0
        if self.errcheck is not None:
            self.errcheck(status, self, args)
        return status


class Lib:
    def __init__(self, **bodies):
        self.__dict__.update((k, Fn(v)) for k, v in bodies.items())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = Fn(lambda *a: 0)
        return self.__dict__[name]


META = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=1, edge_type_count=1, node_feature_count=0, edge_feature_count=1,
            partitions={"0": {"node_weight": [1], "edge_weight": [1]}}, node_count_per_type=[1], edge_count_per_type=[1], watermark=-1)
from deepgnn.graph_engine.snark.client import MemoryGraph


def graph(folder, **bodies):
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump(META, f)
    with mock.patch("deepgnn.graph_engine.snark.client._get_c_lib", return_value=Lib(**bodies)):
        return MemoryGraph(folder, [0])


real = ctypes.CFUNCTYPE(None, ctypes.c_size_t, ctypes.POINTER(ctypes.c_uint8))


def strings(*args):
    for i in range(6):
        args[9 - 1][i] = i
    real(ctypes.cast(args[-1], ctypes.c_void_p).value)(15, (ctypes.c_uint8 * 15)(*range(15)))


with tempfile.TemporaryDirectory() as d:
    g = graph(d, GetEdgeStringFeature=strings)
    e = np.array([1, 2, 3])
    _, sizes = g.edge_string_features(e, e, e, np.array([0, 1]), np.uint8)
assert sizes.tolist() == [[0, 1], [2, 3], [4, 5]], sizes
'''
