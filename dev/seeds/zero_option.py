PROPERTY = 'P18'
NEEDS = 'an option of the sampler that is given as zero, False or an empty value while the sampler has another default'
BREAKS = 'the option is not handed to the sampler, which uses its own default instead'
EDITS = [('graph_engine/graph_dataset.py', '''            elif key in self.kwargs.keys():
                sampler_args[key] = self.kwargs[key]
''', '''            elif self.kwargs.get(key):
                sampler_args[key] = self.kwargs[key]
''')]
DEMO = '''
from deepgnn.graph_engine._base import Graph
from deepgnn.graph_engine.graph_dataset import DeepGNNDataset


class Sampler:
    def __init__(self, client: Graph, batch_size, first=5, shuffle=True, name="x"):
        self.got = (client, batch_size, first, shuffle, name)

    def __len__(self):
        return 1


class Backend:
    graph = object()


def given(**options):
    return DeepGNNDataset(Sampler, None, Backend(), batch_size=3, **options).sampler.got


assert given() == (Backend.graph, 3, 5, True, "x")
assert given(first=2, shuffle=True, name="y") == (Backend.graph, 3, 2, True, "y")
assert given(shuffle=False) == (Backend.graph, 3, 5, False, "x"), given(shuffle=False)
assert given(first=0, name="") == (Backend.graph, 3, 0, True, ""), given(first=0)
'''
