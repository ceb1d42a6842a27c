PROPERTY = "P25"
NEEDS = "a torch data set read by two or more loader processes, in the one that is counted as 0"
BREAKS = "the first loader process takes itself for the only one and reads the rows of all of them"
EDITS = [("pytorch/common/dataset.py", "if worker_info is not None:", "if worker_info is not None and worker_info.id:")]
DEMO = '''
import sys, types

torch, utils, data = (types.ModuleType(n) for n in ("torch", "torch.utils", "torch.utils.data"))
torch.utils, utils.data = utils, data
torch.__path__ = utils.__path__ = []
data.IterableDataset = type("IterableDataset", (), {})
place = [None]
data.get_worker_info = lambda: place[0]
sys.modules.update({"torch": torch, "torch.utils": utils, "torch.utils.data": data})
pytorch, common = types.ModuleType("deepgnn.pytorch"), types.ModuleType("deepgnn.pytorch.common")
import deepgnn

pytorch.__path__ = [deepgnn.__path__[0] + "/pytorch"]
common.__path__ = [deepgnn.__path__[0] + "/pytorch/common"]
sys.modules.update({"deepgnn.pytorch": pytorch, "deepgnn.pytorch.common": common})
from deepgnn.pytorch.common.dataset import TorchDeepGNNDataset


class Rows:
    def __init__(self, count, data_parallel_index=0, data_parallel_num=1):
        self.mine = list(range(count))[data_parallel_index::data_parallel_num]

    def __iter__(self):
        return iter(self.mine)


class Backend:
    graph = "graph"


def read(info):
    place[0] = info
    return list(TorchDeepGNNDataset(Rows, lambda graph, x: x, Backend(), count=10))


assert read(None) == list(range(10))
for workers in (1, 2, 3):
    rows = [x for i in range(workers) for x in read(types.SimpleNamespace(id=i, num_workers=workers))]
    assert sorted(rows) == list(range(10)), (workers, rows)
'''
