"""Options given as text, text written for embeddings."""
from .common import *

PT = "deepgnn.pytorch"
ARG = "deepgnn.arg_types"
UT = PT + ".common.utils"
BM = PT + ".modeling.base_model"
DRV = '''
import argparse
import numpy as np
import torch
from urllib.parse import urlparse
from deepgnn.arg_types import vec2str, str2bool, str2list_int, str2list2_int, str2list2, str2list_str
from deepgnn.pytorch.common.utils import get_python_type, get_store_name_and_path
from deepgnn.pytorch.modeling.base_model import BaseModel


# ---- options
def flag(v: str):
    return str2bool(v)


def flag_spec(v: str):
    if v.lower() in ("yes", "true", "t", "y", "1"):
        return True
    if v.lower() in ("no", "false", "f", "n", "0"):
        return False
    raise argparse.ArgumentTypeError


def flag_kept(told: bool):
    if isinstance(told, bool):
        return str2bool(told)


def flag_kept_spec(told: bool):
    if isinstance(told, bool):
        return told


def ints(v: str):
    return str2list_int(v)


def ints_spec(v: str):
    return [int(x) for x in v.split(",")] if v != "" else []


def ints_kept(listed: "list"):
    if isinstance(listed, list):
        return str2list_int(listed)


def ints2(v: str):
    return str2list2_int(v)


def ints2_spec(v: str):
    return [[int(x) for x in y.split(",")] for y in v.split(";") if y != ""]


def ints2_kept(listed: "list"):
    if isinstance(listed, list):
        return str2list2_int(listed)


def texts2(v: str):
    return str2list2(v)


def texts2_spec(v: str):
    return [[x for x in y.split(",")] for y in v.split(";") if y != ""]


def texts2_kept(listed: "list"):
    if isinstance(listed, list):
        return str2list2(listed)


def kept(listed: "list"):
    if isinstance(listed, list):
        return listed


def texts(v: str):
    return str2list_str(v)


def texts_spec(v: str):
    return v.split(",")


def vector(v):
    return vec2str(v)


def vector_spec(v):
    if len(v.shape) == 1:
        return " ".join([str(x) for x in v.tolist()])
    if len(v.shape) == 2:
        return ",".join([" ".join([str(x) for x in row]) for row in v.tolist()])
    raise RuntimeError


def kind(name: str):
    return get_python_type(name)


def kind_spec(name: str):
    if name.lower() == "float":
        return np.float32
    if name.lower() == "uint64":
        return np.int64
    if name.lower() == "binary":
        return np.uint8
    raise RuntimeError


def store(path: str):
    return get_store_name_and_path(path)


def store_spec(path: str):
    if len(path) == 0:
        return "", ""
    if path.lower().startswith("adl:"):
        o = urlparse(path)
        assert o.hostname is not None
        return o.hostname.split(".")[0], o.path
    return "", path


class Out:
    """Stands for a file."""

    def write(self, text):
        note(text)

    def writelines(self, texts):
        for text in texts:
            note(text)


def note(text):
    pass


def lines(ids, rows):
    for k in range(len(rows)):
        note(str(ids[k]) + " " + " ".join([str(rows[k][x]) for x in range(len(rows[k]))]) + "\\n")


def named(ids, rows):
    BaseModel(np.float32, 0, 1, None).output_embedding(Out(), {"inputs": ids}, rows)


def named_spec(ids, rows):
    lines(ids.squeeze(0), rows)


def bare(ids, rows):
    if isinstance(ids, torch.Tensor) and not isinstance(ids, dict):
        BaseModel(np.float32, 0, 1, None).output_embedding(Out(), ids, rows)


def bare_spec(ids, rows):
    if isinstance(ids, torch.Tensor) and not isinstance(ids, dict):
        lines(ids.squeeze(0), rows)


def neither(ids, rows):
    if not isinstance(ids, torch.Tensor) and not isinstance(ids, dict):
        BaseModel(np.float32, 0, 1, None).output_embedding(Out(), ids, rows)


def neither_spec(ids, rows):
    if not isinstance(ids, torch.Tensor) and not isinstance(ids, dict):
        raise TypeError


def no_store():
    return get_store_name_and_path(None)


def no_store_spec():
    return "", ""
'''
OPTIONS = {
    "flag": (ARG, "str2bool"), "flag_kept": (ARG, "str2bool"), "ints": (ARG, "str2list_int"), "ints2": (ARG, "str2list2_int"), "texts2": (ARG, "str2list2"), "texts": (ARG, "str2list_str"),
    "vector": (ARG, "vec2str"), "kind": (UT, "get_python_type"), "store": (UT, "get_store_name_and_path"), "no_store": (UT, "get_store_name_and_path"),
}
KEPT = {"ints_kept": "str2list_int", "ints2_kept": "str2list2_int", "texts2_kept": "str2list2"}
KNOWN = ("math.cos", "math.sin", "urllib.parse.urlparse", ".lower", ".split", ".startswith", ".tolist", ".join", "int", "str")


def plain(t):
    """Lookups in tables spelled out, and first parts of texts however far these are split."""

    def f(x):
        if x.op != "idx":
            return x
        b, k = x.args
        if b.op == "dict" and not is_const(k) and b.args and all(y.op in ("kv", "pair") and is_const(y.args[0]) for y in b.args):
            out = mk("absent", k)
            for y in reversed(b.args):
                out = ite(eq(k, y.args[0]), y.args[1], out)
            return out
        if k is ZERO and b.op == "call" and b.args[0] == ".split" and len(b.args[1]) == 3:
            return seq_idx(mk("call", ".split", b.args[1][:2], *b.args[2:]), k)
        return x

    return rewrite(t, f)


def option(c, name, spec=None):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks={}) for n in (name, spec or name + "_spec"))
    where, f = OPTIONS[name] if name in OPTIONS else (ARG, KEPT[name])
    loc = floc(c.prog.need_func(where, f))
    fine = not_(rejections(b))
    c.equal("options", name, ite(fine, plain(a.ret), NONE), ite(fine, b.ret, NONE), loc, known=KNOWN)
    c.equal("options", name + ", refused", rejections(a), rejections(b), loc)


def embedding(c, name, what):
    m = source(c, DRV)

    def note(fl, f, b, args, kw, node):
        put_log(fl, "file", fl.fz(args[0]))
        return NONE

    same = lambda fl, b, args, kw, node: fl.fz(b)
    given = {"note": note, ".cpu": same, ".numpy": same, ".detach": same, ".info": lambda fl, b, args, kw, node: NONE, ".squeeze": lambda fl, b, args, kw, node: mk("call", "squeezed", tuple(fl.fz(x) for x in (b, *args)), (), NONE)}
    a, b = (run_driver(c, m, n, hooks=given) for n in (name, name + "_spec"))
    loc = floc(c.prog.need_class(BM, "BaseModel").methods["output_embedding"])
    data = lambda t: rewrite(t, lambda x: x.args[0] if x.op == "attr" and x.args[1] == "data" else x)
    c.equal("embeddings", what, data(log_of(a, "file")), log_of(b, "file"), loc, known=("squeezed", ".join", "str"))
    c.equal("embeddings", what + ", refused", rejections(a), rejections(b), loc)


def run(c):
    c.rule("options", "values of options given as text")
    for n in OPTIONS:
        c.clause("options", n, option, n)
    for n in KEPT:
        c.clause("options", n, option, n, "kept")
    c.floor("options", 20)
    c.rule("embeddings", "lines written for embeddings")
    for n, what in (("named", "inputs of a mapping"), ("bare", "inputs alone"), ("neither", "anything else")):
        c.clause("embeddings", what, embedding, n, what)
    c.floor("embeddings", 6)
