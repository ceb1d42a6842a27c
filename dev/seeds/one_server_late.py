PROPERTY = 'P16'
NEEDS = 'several servers, one that stays away for the timeout and a later one that is there'
BREAKS = 'the client connects although one of the servers has not started: only the last server waited for decides'
EDITS = [('graph_engine/backends/snark/synchronized.py', '''        result = True
        with ThreadPoolExecutor() as executor:
''', '''        with ThreadPoolExecutor() as executor:
'''), ('graph_engine/backends/snark/synchronized.py', '''            for task, future in tasks_with_futures:
                try:
''', '''            for task, future in tasks_with_futures:
                result = True
                try:
''')]
DEMO = '''
import os, tempfile
from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedClient


class Client:
    def reset(self):
        pass


def connects(servers, there):
    with tempfile.TemporaryDirectory() as d:
        for i in there:
            open(os.path.join(d, f"snark_{i}.server"), "w").close()
        c = SynchronizedClient(d, 0, servers, 1, Client)
        try:
            c.client
        except TimeoutError:
            assert not os.path.exists(os.path.join(d, "snark_0.client"))
            return False
        c.reset()
        return True


assert connects(2, [0, 1])
assert not connects(1, [])
assert not connects(2, [0])
assert not connects(2, [1]), "connected without server 0"
'''
