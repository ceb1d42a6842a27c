PROPERTY = 'P13'
NEEDS = 'a server loading partitions kept in other folders than the metadata'
BREAKS = 'every partition is looked for in the folder of the metadata'
EDITS = [('graph_engine/snark/server.py', '            location_array[i] = c_char_p(bytes(partitions_with_path[i][0], "utf-8"))', '            location_array[i] = c_char_p(bytes(self._data_path.name, "utf-8"))')]
DEMO = '''
import ctypes, json, os, tempfile
from unittest import mock
import numpy as np


class Fn:
    """A library function: checks its arguments like ctypes and reports a status."""

    def __init__(self, body):
        self.body, self.argtypes, self.errcheck, self.restype = body, None, None, None

    def __call__(self, *args):
        if self.argtypes is not None:
            assert len(args) == len(self.argtypes)
            for t, a in zip(self.argtypes, args):
                t.from_param(a)
        status = self.body(*args) or 0
        if self.errcheck is not None:
            self.errcheck(status, self, args)
        return status


class Lib:
    def __init__(self, **bodies):
        self.__dict__.update((k, Fn(v)) for k, v in bodies.items())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.__dict__[name] = Fn(lambda *a: 0)
        return self.__dict__[name]


META = dict(binary_data_version="v2", node_count=1, edge_count=1, node_type_count=1, edge_type_count=1, node_feature_count=0, edge_feature_count=1,
            partitions={"0": {"node_weight": [1], "edge_weight": [1]}}, node_count_per_type=[1], edge_count_per_type=[1], watermark=-1)
from deepgnn.graph_engine.snark.server import Server

seen = []
with tempfile.TemporaryDirectory() as a, tempfile.TemporaryDirectory() as b:
    lib = Lib(StartServer=lambda *args: seen.extend(zip(list(args[4]), list(args[3]))))
    with mock.patch("deepgnn.graph_engine.snark.server._get_c_lib", return_value=lib):
        Server(a, [0, (b, 3)], "localhost:1")
    assert seen == [(a.encode(), 0), (b.encode(), 3)], seen
'''
