PROPERTY = "P07"
NEEDS = "a json edge with an explicit removal time of 0 on a node with another removal time"
BREAKS = "an edge removal time of 0 is taken for a missing one, so the edge inherits the node's"
EDITS = [("graph_engine/snark/decoders.py", '''            removed_at = (
                node_removed_at if "removed_at" not in edge else edge["removed_at"]
            )''', '''            removed_at = edge.get("removed_at") or node_removed_at''')]
DEMO = '''
import json
from deepgnn.graph_engine.snark.decoders import JsonDecoder

line = {"node_id": 1, "node_type": 0, "node_weight": 1.0, "created_at": 0, "removed_at": 9, "edge": [
    {"src_id": 1, "dst_id": 2, "edge_type": 0, "weight": 1.0, "created_at": 0, "removed_at": 0},
    {"src_id": 1, "dst_id": 3, "edge_type": 0, "weight": 1.0},
]}
times = [r[5] for r in JsonDecoder(True).decode(json.dumps(line))]
assert times[0] == 9 and sorted(times[1:]) == [0, 9], times
'''
