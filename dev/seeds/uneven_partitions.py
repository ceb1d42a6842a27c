PROPERTY = "P05"
NEEDS = "a partition count that is not a multiple of the number of conversion workers"
BREAKS = "the share of partitions per conversion worker is rounded down, so the last partitions are written by nobody"
EDITS = [("graph_engine/snark/convert.py", '''            int(math.ceil(partition_count / worker_count)) if not self._debug else 1''', '''            max(1, partition_count // worker_count) if not self._debug else 1''')]
DEMO = '''
import tempfile
from deepgnn.graph_engine.snark.convert import MultiWorkersConverter

class D:
    pass

seen = []
with tempfile.TemporaryDirectory() as d:
    for i in range(2):
        c = MultiWorkersConverter(d, d, partition_count=5, worker_index=i, worker_count=2, dispatcher=D(), file_iterator=[])
        seen += range(c.partition_offset, c.partition_offset + c.partition_count)
assert sorted(seen) == list(range(5)), seen
'''
