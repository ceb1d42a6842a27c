PROPERTY = "P24"
NEEDS = "a number of lines that is one more than a multiple of the lines per chunk"
BREAKS = "a last line that is alone in its chunk is never uploaded"
EDITS = [("graph_engine/adl_uploader.py", "while offset < embed_size:", "while offset + 1 < embed_size:")]
DEMO = '''
import queue
from deepgnn.graph_engine import adl_uploader as up


class Idle:
    daemon = False

    def __init__(self, *args, **kw):
        pass

    def start(self):
        pass

    def join(self):
        pass

    def is_alive(self):
        return True


class Channel(queue.Queue):
    def cancel_join_thread(self):
        pass


up.AdlCredentialParser.read_credentials = staticmethod(lambda: {})
up.multiprocessing.Process = Idle
up.multiprocessing.Queue = lambda size=0: Channel()
up.threading.Thread = Idle

for count in (0, 1, 3, 4, 6, 7):
    w = up.AdlDataWriter("store", "out", process_num=2, max_lines_per_chunk=3)
    assert w.writelines(range(count)) is True
    text = []
    queues = w.data_queues
    turn = 0
    while not queues[turn % 2].empty():
        text.append(queues[turn % 2].get().decode())
        turn += 1
    assert "".join(text) == "".join(f"{i}\\n" for i in range(count)), (count, text)
'''
