PROPERTY = "P24"
NEEDS = "a limit of one chunk for each file"
BREAKS = "with a limit of one chunk per file all chunks of a thread go to one file"
EDITS = [("graph_engine/adl_uploader.py", "self.max_chunks_per_file > 0\n", "self.max_chunks_per_file > 1\n")]
DEMO = '''
import io
from deepgnn.graph_engine import adl_uploader as up

FILES = {}


class Kept(io.BytesIO):
    def __init__(self, name):
        super().__init__()
        self.name_ = name

    def close(self):
        FILES[self.name_] = self.getvalue()


class Store:
    def __init__(self, *args, **kw):
        pass

    def open(self, path, mode="rb"):
        return Kept(path)


up.lib.auth = lambda *args, **kw: "token"
up.core.AzureDLFileSystem = Store
config = {"TENANT_ID": "t", "CLIENT_SECRET": "s", "CLIENT_ID": "c"}


def run(limit, chunks):
    FILES.clear()
    w = up.MultiThreadsAdlDataWriter(config, 4, "store", "out", limit, 1)
    for x in chunks:
        w.enqueue(x)
    w.stop()
    return dict(FILES)


data = [b"a", b"b", b"c", b"d", b"e"]
assert run(0, data) == {"out_4_0_0.tsv": b"abcde"}
assert run(2, data) == {"out_4_0_0.tsv": b"ab", "out_4_0_1.tsv": b"cd", "out_4_0_2.tsv": b"e"}
assert run(1, data) == {f"out_4_0_{i}.tsv": x for i, x in enumerate(data)}
assert run(3, []) == {}
'''
