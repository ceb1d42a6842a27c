PROPERTY = "P07"
NEEDS = "a tab separated line that lists the same neighbour twice with the same values"
BREAKS = "identical parallel edges of a tab separated line are collapsed into one"
EDITS = [("graph_engine/snark/decoders.py", '''        for n in sorted(neighbors, key=order):''', '''        for n in sorted(set(neighbors), key=order):''')]
DEMO = '''
from deepgnn.graph_engine.snark.decoders import TsvDecoder

got = [r[1] for r in TsvDecoder().decode("1\\t0\\t1.0\\t\\t9,0,1.0|2,0,1.0|9,0,1.0")]
assert got == [-1, 2, 9, 9], got
'''
