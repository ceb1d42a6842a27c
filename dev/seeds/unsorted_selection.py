PROPERTY = "P23"
NEEDS = "node ids that do not come in order"
BREAKS = "training nodes are the first ones of the list, not those with the smallest ids"
EDITS = [("graph_engine/data/data_util.py", "zip(sorted(nodeids), types)", "zip(nodeids, types)")]
DEMO = '''
from deepgnn.graph_engine.data.data_util import select_training_test_nodes

kinds = select_training_test_nodes([7, 3, 9, 1], 0.5, False)
assert kinds == {1: "train", 3: "train", 7: "test", 9: "test"}, kinds
kinds = select_training_test_nodes([1, 2, 3, 4, 5], 0.4, False)
assert [kinds[k] for k in range(1, 6)] == ["train"] * 2 + ["test"] * 3
'''
