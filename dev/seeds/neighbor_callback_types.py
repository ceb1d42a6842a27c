PROPERTY = 'P11'
NEEDS = 'a query for all neighbours of a node'
BREAKS = 'the weights handed over by the library are read as whole numbers and the edge types as fractions'
EDITS = [('graph_engine/snark/client.py', '    POINTER(c_int64),\n    POINTER(c_float),\n    POINTER(c_int32),\n    POINTER(c_int64),\n    c_size_t,\n)', '    POINTER(c_int64),\n    POINTER(c_int32),\n    POINTER(c_float),\n    POINTER(c_int64),\n    c_size_t,\n)')]
DEMO = '''
import ctypes, json, os, tempfile
from unittest import mock
import numpy as np


class Fn:
    """A library function: checks its arguments like ctypes and reports a status."""

    def __init__(self, body):
        self.body, self.argtypes, self.errcheck, self.restype = body, None, None, None

    def __call__(self, *args):
        if self.argtypes is not None:
            assert len(args) == len(self.argtypes)
            for t, a in zip(self.argtypes, args):
                t.from_param(a)
        status = self.body(*args) or 0
        if self.errcheck is not None:
            self.errcheck(status, self, args)
        return status


class Lib:
    def __init__(self, **bodies):
        self.__dict__.update((k, Fn(v)) for k, v in bodies.items())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = Fn(lambda *a: 0)
        return self.__dict__[name]


META = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=1, edge_type_count=1, node_feature_count=0, edge_feature_count=1,
            partitions={"0": {"node_weight": [1], "edge_weight": [1]}}, node_count_per_type=[1], edge_count_per_type=[1], watermark=-1)
from deepgnn.graph_engine.snark.client import MemoryGraph


def graph(folder, **bodies):
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump(META, f)
    with mock.patch("deepgnn.graph_engine.snark.client._get_c_lib", return_value=Lib(**bodies)):
        return MemoryGraph(folder, [0])


P = ctypes.POINTER
real = ctypes.CFUNCTYPE(None, P(ctypes.c_int64), P(ctypes.c_float), P(ctypes.c_int32), P(ctypes.c_int64), ctypes.c_size_t)


def neighbors(*args):
    cb = real(ctypes.cast(args[-1], ctypes.c_void_p).value)
    cb((ctypes.c_int64 * 2)(5, 6), (ctypes.c_float * 2)(0.5, 1.5), (ctypes.c_int32 * 2)(3, 4), (ctypes.c_int64 * 2)(), 2)


with tempfile.TemporaryDirectory() as d:
    g = graph(d, GetNeighbors=neighbors)
    ids, weights, types, _ = g.neighbors(np.array([1]), [3, 4])
assert list(ids) == [5, 6] and list(weights) == [0.5, 1.5] and list(types) == [3, 4], (ids, weights, types)
'''
