PROPERTY = "P23"
NEEDS = "fewer nodes left than validation and test together ask for, or no test nodes"
BREAKS = "validation and test nodes overlap"
EDITS = [("graph_engine/data/citation.py", "    test_idx = remaining[num_val : num_val + num_test]\n", "    test_idx = remaining[-num_test:]\n")]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.data.citation import random_split

labels = np.arange(140) % 2
for val, test in ((30, 40), (60, 60), (100, 0), (10, 200)):
    train_mask, val_mask, test_mask = random_split(labels, 2, 20, val, test)
    assert train_mask.sum() == 40
    assert not (train_mask & val_mask).any()
    assert not (train_mask & test_mask).any()
    assert not (val_mask & test_mask).any(), (val, test)
'''
