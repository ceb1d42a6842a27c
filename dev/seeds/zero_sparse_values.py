PROPERTY = "P09"
NEEDS = "a sparse feature that stores only zeros"
BREAKS = "a sparse feature whose stored values are all zero is treated as absent"
EDITS = [("graph_engine/snark/converter/writers.py", '''                or values is None
                or len(values) == 0
''', '''                or values is None
                or not np.any(values)
''')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.snark.converter.writers import convert_features

out = convert_features([(np.array([3, 5], dtype=np.int64), np.array([0, 0], dtype=np.float32)), None])
assert out[1] is None and out[0] is not None and len(out[0]) == 4 + 4 + 16 + 8
'''
