PROPERTY = 'P17'
NEEDS = 'a sub-graph of three hops or more'
BREAKS = 'every hop starts from the seed nodes again, so nodes further than two hops away and their edges are missing'
EDITS = [('graph_engine/graph_ops.py', '''        nb = graph.neighbors(nodes[i], edge_types)[0]
        tmp = np.unique(nb)
''', '''        nb = graph.neighbors(nodes[0], edge_types)[0]
        tmp = np.unique(nb)
''')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.graph_ops import sub_graph


class Chain:
    """Node n is followed by n + 1, up to 9."""

    def neighbors(self, nodes, edge_types):
        found = [[int(n) + 1] if n < 9 else [] for n in nodes]
        flat = np.array(sum(found, []), dtype=np.int64)
        return flat, np.ones(len(flat), np.float32), np.zeros(len(flat), np.int32), np.array([len(f) for f in found], np.uint64)


def reached(hops):
    nodes, edges, seeds = sub_graph(Chain(), np.array([4, 0]), np.array([0]), hops, False, False, True)
    assert nodes[seeds].tolist() == [4, 0]
    return sorted((int(nodes[a]), int(nodes[b])) for a, b in edges)


assert reached(1) == [(0, 1), (4, 5)]
assert reached(2) == [(0, 1), (1, 2), (4, 5), (5, 6)]
assert reached(3) == [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7)], reached(3)
'''
