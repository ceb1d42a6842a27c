"""Decoders: which elements a line of text stands for."""
from .common import *

D = SN + ".decoders"
JSON = '''
import json
import numpy as np
from deepgnn.graph_engine.snark.decoders import JsonDecoder


def code(line):
    return list(JsonDecoder().decode(line))


TYPES = {
    "double_feature": np.float64, "float_feature": np.float32, "float64_feature": np.float64, "float32_feature": np.float32,
    "float16_feature": np.float16, "uint64_feature": np.uint64, "int64_feature": np.int64, "uint32_feature": np.uint32,
    "int32_feature": np.int32, "uint16_feature": np.uint16, "int16_feature": np.int16, "uint8_feature": np.uint8, "int8_feature": np.int8,
}


def _serialize_temporal_features(value, created, removed, key):
    pass


def vector(key, value, created, removed):
    if isinstance(value, list) and value and isinstance(value[0], dict):
        return _serialize_temporal_features(value, created, removed, key)
    if key.startswith("sparse"):
        return (np.array(value["coordinates"], dtype=np.int64), np.array(value["values"], dtype=TYPES[key.replace("sparse_", "")]))
    if key != "binary_feature":
        return np.array(value, dtype=TYPES[key])
    return value


def features(item, created, removed):
    out = []
    for key, values in item.items():
        if values is not None and "feature" in key:
            for idx, value in values.items():
                out.extend([None] * (int(idx) + 1 - len(out)))
                out[int(idx)] = vector(key, value, created, removed)
    return out


def spec(line):
    data = json.loads(line)
    created = data["created_at"] if "created_at" in data else 0
    removed = data["removed_at"] if "removed_at" in data else -1
    out = [(data["node_id"], -1, data["node_type"], data["node_weight"], created, removed, features(data, created, removed))]
    order = lambda e: (
        e["edge_type"], e.get("created_at", 0), e.get("removed_at", 0) if e.get("removed_at") != -1 else float("inf"), e["dst_id"],
    )
    for e in sorted(data["edge"], key=order):
        c = e["created_at"] if "created_at" in e else created
        r = e["removed_at"] if "removed_at" in e else removed
        out.append((e["src_id"], e["dst_id"], e["edge_type"], e["weight"], c, r, features(e, created, removed)))
    return out
'''
TSV = '''
import csv
import numpy as np
from deepgnn.graph_engine.snark.decoders import TsvDecoder

TYPES = {
    "double_feature": np.float64, "float_feature": np.float32, "float64_feature": np.float64, "float32_feature": np.float32,
    "float16_feature": np.float16, "uint64_feature": np.uint64, "int64_feature": np.int64, "uint32_feature": np.uint32,
    "int32_feature": np.int32, "uint16_feature": np.uint16, "int16_feature": np.int16, "uint8_feature": np.uint8, "int8_feature": np.int8,
}


def code(line):
    return list(TsvDecoder().decode(line))


def features(text):
    out = []
    for f in text.split(";") if text else []:
        val = f.split(":")
        if len(val) != 2 or not val[0] or not val[1]:
            out.append(None)
        elif val[0][0] == "i":
            out.append(np.array(val[1].split(" "), dtype=TYPES[f"int{val[0][1:]}_feature"]))
        elif val[0][0] == "u":
            out.append(np.array(val[1].split(" "), dtype=TYPES[f"uint{val[0][1:]}_feature"]))
        elif val[0][0] == "f":
            out.append(np.array(val[1].split(" "), dtype=TYPES[f"float{val[0][1:]}_feature"]))
        elif val[0][0] == "d":
            out.append(np.array(val[1].split(" "), dtype=np.float64))
        elif val[0][0] == "b":
            out.append(val[1])
        else:
            out.append(anything())
    return out


def anything():
    pass


def number(f, text, other):
    return f(text) if text else other


def key(edge):
    items = edge.split(",")
    return int(items[1]) if len(items) > 1 and items[1] else 0, int(items[0])


def spec(line):
    assert line is not None and len(line) > 0
    cols = next(csv.reader([line], delimiter="\\t"))
    cols = cols + [""] * (5 - len(cols))
    assert cols[0] is not None and len(cols[0]) > 0
    src = int(cols[0])
    out = [(src, -1, number(int, cols[1], 0), number(float, cols[2], 0.0), None, None, features(cols[3]))]
    if not cols[4]:
        return out
    for n in sorted(cols[4].split("|"), key=key):
        e = n.split(",")
        assert len(e) > 0 and len(e[0]) > 0
        dst = int(e[0])
        e = e + [""] * (4 - len(e))
        out.append((src, dst, number(int, e[1], 0), number(float, e[2], 0.0), None, None, features(e[3])))
    return out
'''


def json_(c):
    k = c.prog.need_class(D, "JsonDecoder")
    m = source(c, JSON)
    h = {"_serialize_temporal_features": lambda fl, f, b, args, kw, node: mk(
        "call", "serialize", (fl.fz(argument(f, args, kw, 0, "item")), fl.fz(argument(f, args, kw, 3, "key"))), (), NONE)}
    parts(c, "json", run_driver(c, m, "code", hooks=h).ret, run_driver(c, m, "spec", hooks=h).ret, floc(k.find("decode")))


NAMES = ("source", "destination", "type", "weight", "created", "removed", "features")


def parts(c, rule, got, want, loc):
    c.equal(rule, "elements", got, want, loc)


def tsv(c):
    k = c.prog.need_class(D, "TsvDecoder")
    m = source(c, TSV)
    a, b = run_driver(c, m, "code"), run_driver(c, m, "spec")
    parts(c, "tsv", a.ret, b.ret, floc(k.find("decode")))


def run(c):
    c.rule("json", "elements of a json line: node first, edges sorted, times inherited, features by index")
    c.rule("tsv", "elements of a tab separated line")
    c.clause("json", "JsonDecoder", json_)
    c.clause("tsv", "TsvDecoder", tsv)
