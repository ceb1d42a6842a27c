PROPERTY = 'P16'
NEEDS = 'two threads that ask for the client at the same time for the first time'
BREAKS = 'each of the threads builds a client of its own; only the last one is kept and released'
EDITS = [('graph_engine/backends/snark/synchronized.py', '''        # Use optimistic lock
        if self._client is not None:
            return self._client
        with self._lock:
            if self._client is not None:
                return self._client
            if self._wait_for_servers():
''', '''        # Connect under the lock
        if self._client is not None:
            return self._client
        with self._lock:
            if self._wait_for_servers():
''')]
DEMO = '''
import tempfile, threading, time
from deepgnn.graph_engine.backends.snark.synchronized import SynchronizedClient

made = []


class Client:
    def __init__(self):
        time.sleep(0.5)
        made.append(self)

    def reset(self):
        pass


with tempfile.TemporaryDirectory() as d:
    c = SynchronizedClient(d, 0, 0, 1, Client)
    got = []
    threads = [threading.Thread(target=lambda: got.append(c.client)) for _ in range(3)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    c.reset()
assert len(made) == 1 and all(x is made[0] for x in got), len(made)
'''
