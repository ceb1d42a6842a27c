PROPERTY = 'P14'
NEEDS = 'a request for features of edges of different types'
BREAKS = 'features of every edge are looked up with the type of the first edge of the request'
EDITS = [('graph_engine/snark/local.py', '            np.copy(edges[:, 2]),\n', '            np.full(len(edges), edges[0, 2]),\n')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.snark.local import Client


class Meta:
    _edge_feature_count = 4


class Graph:
    """Edge (s, d, t) has the single feature 100 s + 10 d + t."""

    meta = Meta()

    def edge_features(self, src, dst, types, features, dtype, timestamps=None):
        return np.array([[100 * s + 10 * d + t] for s, d, t in zip(src, dst, types)], dtype=dtype)


c = Client.__new__(Client)
c.graph = Graph()
f = c.edge_features(np.array([[1, 2, 0], [3, 4, 1], [5, 6, 2]]), np.array([[0, 1]]), np.float32)
assert f.ravel().tolist() == [120, 341, 562], f
'''
