PROPERTY = "P04"
NEEDS = "merging metadata of two workers that each hold more than one partition"
BREAKS = "the next worker's partitions are numbered from the highest number instead of one past it, overwriting a partition's weights"
EDITS = [("graph_engine/snark/meta_merger.py", "        }, offset + self.partition_count", "        }, offset + max(1, self.partition_count - 1)")]
DEMO = '''
import json, os, tempfile
from deepgnn.graph_engine.snark.meta_merger import merge_metadata_files

def m(k):
    return dict(binary_data_version="v2", node_count=4, edge_count=0, node_type_count=1, edge_type_count=0, node_feature_count=0, edge_feature_count=0,
        partitions={"0": dict(node_weight=[k], edge_weight=[]), "1": dict(node_weight=[k + 1], edge_weight=[])}, node_count_per_type=[4], edge_count_per_type=[], watermark=-1)

with tempfile.TemporaryDirectory() as d:
    for i in range(2):
        json.dump(m(10.0 * i), open(os.path.join(d, f"meta_{i}.json"), "w"))
    merge_metadata_files(d)
    r = json.load(open(os.path.join(d, "meta.json")))["partitions"]
    assert len(r) == 4, r
'''
