PROPERTY = 'P17'
NEEDS = 'two hops or more, where a hop finds fewer distinct neighbours than there is room for'
BREAKS = 'the second hop also asks for the neighbours of node 0, once for every padding entry of the first hop'
EDITS = [('graph_engine/multihop.py', '''        nodes_without_padding = nodes_list[-1][0][0 : nodes_list[-1][1][0]]
''', '''        nodes_without_padding = nodes
''')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.multihop import get_neighbor

EDGES = {0: [7], 1: [2, 3], 2: [3], 3: [1, 5], 5: [], 7: []}


class Graph:
    def __init__(self):
        self.asked = []

    def neighbors(self, nodes, edge_types):
        self.asked.append([int(n) for n in nodes])
        found = [EDGES[int(n)] for n in nodes]
        flat = np.array(sum(found, []), dtype=np.int64)
        return flat, np.ones(len(flat), np.float32), np.zeros(len(flat), np.int32), np.array([len(f) for f in found], np.uint64)


g = Graph()
nodes, adj = get_neighbor(g, np.array([1], dtype=np.int64), [[0]], 4)
assert g.asked == [[1]], g.asked
assert nodes[1][0].tolist() == [2, 3, 0, 0] and nodes[1][1].tolist() == [2]

g = Graph()
nodes, adj = get_neighbor(g, np.array([1], dtype=np.int64), [[0], [0]], 4)
assert g.asked == [[1], [2, 3]], g.asked
assert nodes[2][0][:nodes[2][1][0]].tolist() == [1, 3, 5], nodes[2]
assert adj[1][2].tolist() == [2, 3], adj[1][2]
'''
