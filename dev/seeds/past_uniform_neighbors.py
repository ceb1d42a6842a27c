PROPERTY = 'P14'
NEEDS = 'uniform neighbours at a past time without asking for creation times'
BREAKS = 'the query times of uniform neighbour sampling are ignored unless creation times of edges are requested too'
EDITS = [('graph_engine/snark/local.py', '''                default_node,
                default_edge_type,
                seed=int(random.getrandbits(64)),
                timestamps=timestamps,
''', '''                default_node,
                default_edge_type,
                seed=int(random.getrandbits(64)),
                timestamps=timestamps if return_edge_created_ts else None,
''')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.snark.local import Client


class Graph:
    """Node n has the neighbour n + 1 since time 5 and none before."""

    def uniform_sample_neighbors(self, without, nodes, types, count=10, default_node=-1, default_edge_type=-1, seed=None, timestamps=None, return_edge_created_ts=False):
        times = [9] * len(nodes) if timestamps is None else timestamps
        ids = np.array([[n + 1 if t >= 5 else default_node] * count for n, t in zip(nodes, times)])
        types = np.zeros_like(ids)
        return (ids, types, np.full(ids.shape, 5)) if return_edge_created_ts else (ids, types)


c = Client.__new__(Client)
c.graph = Graph()
for strategy in ("random", "randomwithoutreplacement"):
    for times in (False, True):
        r = c.sample_neighbors(np.array([1, 2]), 0, 2, strategy, timestamps=np.array([3, 7]), return_edge_created_ts=times)
        assert r[0].tolist() == [[-1, -1], [3, 3]], (strategy, times, r[0])
'''
