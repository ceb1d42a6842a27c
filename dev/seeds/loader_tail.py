PROPERTY = "P10"
NEEDS = "two data loaders of one worker and a number of elements that makes the last batch of the run incomplete"
BREAKS = "the loader that owns a later batch ends early when the rest of the data does not fill a round of batches, so trailing elements are never delivered"
EDITS = [("graph_engine/samplers.py", "        if self.offset >= self.epochs * self.length:\n            raise StopIteration\n", "        if self.offset + self.data_parallel_num > self.epochs * self.length:\n            raise StopIteration\n")]
DEMO = '''
import tempfile
from deepgnn.graph_engine.samplers import FileNodeSampler

with tempfile.TemporaryDirectory() as d:
    with open(d + "/nodes", "w") as f:
        f.write("\\n".join(str(i) for i in range(100, 113)))
    seen = []
    for i in range(2):
        for b in FileNodeSampler(d + "/nodes", 4, backfill_id=-1, data_parallel_num=2, data_parallel_index=i):
            seen.extend(int(x) for x in b if x >= 0)
assert sorted(seen) == list(range(100, 113)), seen
'''
