PROPERTY = "P19"
NEEDS = "a node with more chosen outgoing edges than there is room left in the sample"
BREAKS = "outgoing edges of the last burned node all enter the sample although it has the requested number of nodes already"
EDITS = [("graph_engine/snark/preprocess/sampler/forest_fire.py", """                    if len(sample.nodes()) < sample_size:
                        sample.add_edge(initial_node, succ)
                        q.append(succ)
                    else:
                        break
""", """                    sample.add_edge(initial_node, succ)
                    q.append(succ)
""")]
DEMO = '''
import random
import networkx as nx
import numpy as np
from deepgnn.graph_engine.snark.preprocess.sampler.forest_fire import forest_fire

# every node points at every other: fires follow several edges of a node
n = 12
g = nx.DiGraph([(a, b) for a in range(n) for b in range(n) if a != b])
for seed in range(200):
    random.seed(seed)
    np.random.seed(seed)
    for size in (2, 3):
        s = forest_fire(g, size)
        # the last edge may bring two nodes
        assert size <= len(s) <= size + 1, (seed, size, len(s))
        assert all(g.has_edge(*e) for e in s.edges())
'''
