PROPERTY = "P01"
NEEDS = "a text node feature with characters outside ASCII, followed by another feature"
BREAKS = "the running position of the node feature data counts characters instead of bytes, so later features start too early"
EDITS = [("graph_engine/snark/converter/writers.py", '''            self.nfi.write(ctypes.c_uint64(self.nfd_pos))  # type: ignore
            if k is not None:
                self.nfd_pos += self.nfd.write(k)
        if i + 1 > self.node_feature_count:''', '''            self.nfi.write(ctypes.c_uint64(self.nfd_pos))  # type: ignore
            if k is not None:
                self.nfd.write(k)
                text = isinstance(features[i], str)
                self.nfd_pos += len(features[i]) if text else len(k)
        if i + 1 > self.node_feature_count:''')]
DEMO = '''
import os, struct, tempfile
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter

with tempfile.TemporaryDirectory() as d:
    w = BinaryWriter(d, 0)
    w.add([(1, -1, 0, 1.0, None, None, ["caf\\u00e9", "abc"])])
    w.close()
    b = open(os.path.join(d, "node_features_0_0.index"), "rb").read()
    assert struct.unpack("=QQQ", b) == (0, 5, 8), b
'''
