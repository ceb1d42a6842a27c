PROPERTY = "P19"
NEEDS = "nodes with exactly two neighbours"
BREAKS = "nodes with two neighbours never count as clustered, so a triangle has no clustering at all"
EDITS = [("graph_engine/snark/preprocess/sampler/metric.py", "if len(nbrs) < 2:", "if len(nbrs) <= 2:")]
DEMO = '''
import networkx as nx
from deepgnn.graph_engine.snark.preprocess.sampler.metric import average_clustering

assert average_clustering(nx.DiGraph([("a", "b"), ("b", "c"), ("c", "a")]), 50) == 1.0
assert average_clustering(nx.DiGraph([("a", "b"), ("b", "c"), ("c", "d")]), 50) == 0.0
'''
