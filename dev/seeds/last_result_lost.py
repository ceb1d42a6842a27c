PROPERTY = 'P18'
NEEDS = 'the sampler is exhausted while the last query is still running'
BREAKS = 'iteration ends one result early when the end of the sampler is announced before its last result'
EDITS = [('graph_engine/prefetch.py', '''            if self.index == self.count + 1:
                raise StopIteration

            item''', '''            if self.index >= self.count:
                raise StopIteration

            item''')]
DEMO = '''
import threading
from deepgnn.graph_engine.prefetch import Generator


class Batches:
    def __init__(self, n):
        self.n, self.over = n, threading.Event()

    def __iter__(self):
        for i in range(self.n):
            yield i
        self.over.set()


def fetched(n, slow):
    s = Batches(n)

    def query(graph, batch):
        if batch == slow:
            s.over.wait(20)
            # (the end is announced right after)
            threading.Event().wait(1)
        return batch

    g = Generator(None, s, query)
    out = sorted(g)
    g.join()
    return out


assert fetched(3, -1) == [0, 1, 2]
assert fetched(1, 0) == [0], "result of the only batch is missing"
assert fetched(3, 2) == [0, 1, 2], "result of the last batch is missing"
'''
