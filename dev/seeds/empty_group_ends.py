PROPERTY = "P22"
NEEDS = "an empty group before the last one"
BREAKS = "groups after an empty one are lost"
EDITS = [("arg_types.py", """        if y != "":
            ret.append([int(x) for x in y.split(",")])
""", """        if y == "":
            break
        ret.append([int(x) for x in y.split(",")])
""")]
DEMO = '''
from deepgnn.arg_types import str2list2_int

assert str2list2_int("1;2;3,4") == [[1], [2], [3, 4]]
assert str2list2_int("1;2;") == [[1], [2]]
assert str2list2_int(";1;;2,3;") == [[1], [2, 3]]
'''
