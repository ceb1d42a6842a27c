PROPERTY = "P10"
NEEDS = "several epochs over a number of nodes that is not a multiple of the batch size, with incomplete batches dropped"
BREAKS = "the announced number of batches is rounded per epoch although batches run across the end of an epoch, so fewer are announced than delivered"
EDITS = [("graph_engine/samplers.py", '''            return math.floor(
                len(self.nodes)
                * self.epochs
                / (self.batch_size * self.data_parallel_num)
            )''', '''            return self.epochs * math.floor(
                len(self.nodes) / (self.batch_size * self.data_parallel_num)
            )''')]
DEMO = '''
import tempfile
from deepgnn.graph_engine.samplers import FileNodeSampler

with tempfile.TemporaryDirectory() as d:
    with open(d + "/nodes", "w") as f:
        f.write("\\n".join(str(i) for i in range(7)))
    s = FileNodeSampler(d + "/nodes", 5, epochs=3, drop_last=True)
    got = list(s)
assert len(s) == len(got), (len(s), len(got))
'''
