PROPERTY = "P03"
NEEDS = "edges of two nodes that are not in the partition, the second starting with a lower edge type"
BREAKS = "the last edge type is remembered across source nodes, so valid edges of the next absent source are rejected"
EDITS = [("graph_engine/snark/converter/writers.py", '''                if src != self.prev_node_id or self.prev_node_id is None:
                    self.prev_edge_type = None
''', '''                if src != self.prev_node_id or self.prev_node_id is None:
''')]
DEMO = '''
import tempfile
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter

with tempfile.TemporaryDirectory() as d:
    w = BinaryWriter(d, 0)
    w.add([(7, 2, 1, 1.0, None, None, [])])
    w.add([(8, 2, 0, 1.0, None, None, [])])
    w.close()
    assert w.edge_count == 2
'''
