PROPERTY = 'P12'
NEEDS = 'neighbour sampling with the explicit seed 0'
BREAKS = 'the seed 0 is replaced by a random one, so a sample cannot be repeated'
EDITS = [('graph_engine/snark/client.py', '            self.lib.WeightedSampleNeighbor,\n            self.g_,\n            c_bool(return_edge_created_ts),\n            c_int64(seed if seed is not None else random.getrandbits(64)),', '            self.lib.WeightedSampleNeighbor,\n            self.g_,\n            c_bool(return_edge_created_ts),\n            c_int64(seed or random.getrandbits(64)),')]
DEMO = '''
import ctypes, json, os, tempfile
from unittest import mock
import numpy as np


class Fn:
    """A library function: checks its arguments like ctypes and reports a status."""

    def __init__(self, body):
        self.body, self.argtypes, self.errcheck, self.restype = body, None, None, None

    def __call__(self, *args):
        if self.argtypes is not None:
            assert len(args) == len(self.argtypes)
            for t, a in zip(self.argtypes, args):
                t.from_param(a)
        status = self.body(*args) or 0
        if self.errcheck is not None:
            self.errcheck(status, self, args)
        return status


class Lib:
    def __init__(self, **bodies):
        self.__dict__.update((k, Fn(v)) for k, v in bodies.items())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = Fn(lambda *a: 0)
        return self.__dict__[name]


META = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=1, edge_type_count=1, node_feature_count=0, edge_feature_count=1,
            partitions={"0": {"node_weight": [1], "edge_weight": [1]}}, node_count_per_type=[1], edge_count_per_type=[1], watermark=-1)
from deepgnn.graph_engine.snark.client import MemoryGraph


def graph(folder, **bodies):
    with open(os.path.join(folder, "meta.json"), "w") as f:
        json.dump(META, f)
    with mock.patch("deepgnn.graph_engine.snark.client._get_c_lib", return_value=Lib(**bodies)):
        return MemoryGraph(folder, [0])


seeds = []
with tempfile.TemporaryDirectory() as d:
    g = graph(d, WeightedSampleNeighbor=lambda *a: seeds.append(a[2].value))
    for _ in range(3):
        g.weighted_sample_neighbors(np.array([1]), 0, seed=0)
    g.weighted_sample_neighbors(np.array([1]), 0, seed=7)
assert seeds == [0, 0, 0, 7], seeds
'''
