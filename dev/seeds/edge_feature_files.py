PROPERTY = 'P13'
NEEDS = 'a graph in a remote file system with features on edges but none on nodes'
BREAKS = 'the files with edge features are not fetched'
EDITS = [('graph_engine/snark/_downloader.py', '        if graph_meta._edge_feature_count > 0:', '        if graph_meta._node_feature_count > 0:')]
DEMO = '''
import ctypes, json, os, tempfile
from unittest import mock
import numpy as np


class Fn:
    """A library function: checks its arguments like ctypes and reports a status."""

    def __init__(self, body):
        self.body, self.argtypes, self.errcheck, self.restype = body, None, None, None

    def __call__(self, *args):
        if self.argtypes is not None:
            assert len(args) == len(self.argtypes)
            for t, a in zip(self.argtypes, args):
                t.from_param(a)
        status = self.body(*args) or 0
        if self.errcheck is not None:
            self.errcheck(status, self, args)
        return status


class Lib:
    def __init__(self, **bodies):
        self.__dict__.update((k, Fn(v)) for k, v in bodies.items())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = Fn(lambda *a: 0)
        return self.__dict__[name]


META = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=1, edge_type_count=1, node_feature_count=0, edge_feature_count=1,
            partitions={"0": {"node_weight": [1], "edge_weight": [1]}}, node_count_per_type=[1], edge_count_per_type=[1], watermark=-1)
import fsspec
from deepgnn.graph_engine.snark._downloader import download_graph_data

fs = fsspec.filesystem("memory")
names = ["node_0_0.map", "node_0_0.index", "edge_0_0.index", "neighbors_0_0.index", "edge_features_0_0.index", "edge_features_0_0.data", "node_0_0.alias", "edge_0_0.alias"]
for n in names:
    fs.pipe("/g/" + n, b"x")
fs.pipe("/g/meta.json", json.dumps(META).encode())
g = download_graph_data("memory://g", [("memory://g", 0)])
got = sorted(os.listdir(g.name))
g.reset()
assert got == sorted(names + ["meta.json"]), got
'''
