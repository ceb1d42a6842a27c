PROPERTY = "P09"
NEEDS = "a dense feature matrix stored in column order"
BREAKS = "the values of a feature given as a column-ordered matrix are written in memory order, so they come back transposed"
EDITS = [("graph_engine/snark/converter/writers.py", "            output.append(feature.tobytes())", '            output.append(feature.tobytes(order="A"))')]
DEMO = '''
import numpy as np
from deepgnn.graph_engine.snark.converter.writers import convert_features

m = np.array([[1, 2, 3], [4, 5, 6]], dtype=np.int32)
a = convert_features([m])[0]
b = convert_features([np.asfortranarray(m)])[0]
assert a == b == m.tobytes()
'''
