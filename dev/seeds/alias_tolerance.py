PROPERTY = "P08"
NEEDS = "an edge or node whose probability in the table is just below one (weights that differ by less than a thousandth)"
BREAKS = "elements with a probability within a thousandth of one lose their alias, so a draw can return the absent element 0"
EDITS = [("graph_engine/snark/converter/writers.py", "right = a.elements[a.alias[index]] if a.prob[index] < 1.0 else 0", "right = a.elements[a.alias[index]] if 1.0 - a.prob[index] > 1e-3 else 0")]
DEMO = '''
import struct, tempfile
from deepgnn.graph_engine.snark.converter.writers import NodeAliasWriter

with tempfile.TemporaryDirectory() as d:
    w = NodeAliasWriter(d, 0)
    w.add_type()
    for n, x in ((11, 1.0), (12, 1.0005), (13, 0.9995)):
        w.add(n, 0, x)
    w.close()
    data = open(d + "/node_0_0.alias", "rb").read()
rows = [struct.unpack_from("=qqf", data, i * 20) for i in range(3)]
mass = {11: 0.0, 12: 0.0, 13: 0.0}
for left, right, p in rows:
    mass[left] += p
    if p < 1:
        assert right in mass, rows
        mass[right] += 1 - p
'''
