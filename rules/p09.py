"""Bytes stored for the features of one element."""
from .common import *

W = SN + ".converter.writers"
DRV = '''
import ctypes
import numpy as np
from deepgnn.graph_engine.snark.converter.writers import convert_features


def code(features):
    return convert_features(features)


def absent(c, v):
    return c is None or len(c) == 0 or v is None or len(v) == 0


def spec(features):
    out = []
    for f in features:
        if f is None:
            out.append(None)
        elif isinstance(f, tuple):
            c, v = f
            if absent(c, v):
                out.append(None)
            else:
                if len(v) > 1 and c.shape[0] != len(v):
                    raise AssertionError()
                if len(v) <= 1 and len(c.shape) != 1 and c.shape[0] != 1:
                    raise AssertionError()
                head = bytes(ctypes.c_uint32(c.size)) + bytes(ctypes.c_uint32(c.shape[-1] if c.ndim > 1 else 1)) + bytes(c.data)
                out.append(head + v.tobytes())
        elif isinstance(f, np.ndarray):
            out.append(f.tobytes())
        else:
            out.append(bytes(f, "utf-8"))
    return out
'''


# calls that change a value's bytes or test something other than presence: never another spelling of the requirement
KNOWN = ("np.array", "np.asarray", "ctypes.Array", "np.ctypeslib.as_ctypes_type", "np.any", "np.all", "np.sum", "np.count_nonzero", "np.max", "np.min",
         "np.unique", "np.sort", ".any", ".all", ".sum", ".max", ".min", ".astype", ".view", ".strip", ".lower", ".upper", ".newbyteorder", ".byteswap", ".nonzero")
FULL = mk("slice", NONE, NONE, NONE)


def raw(x):
    return mk("call", ".tobytes", (x,), (), NONE)


def item(x):
    """The array whose items a ctypes array holds, if its item type and length are those of the array."""
    if x.op == "upd" and x.args[1] is FULL and x.args[0].op == "call" and x.args[0].args[0] == "ctypes.Array":
        n, v = x.args[0].args[1], x.args[2]
    elif x.op == "call" and x.args[0] == "ctypes.Array" and len(x.args[1]) == 2 and x.args[1][1].op == "star":
        n, v = x.args[1][:1], x.args[1][1].args[0]
    else:
        return None
    kind_ = mk("call", "np.ctypeslib.as_ctypes_type", (mk("attr", v, "dtype"),), (), NONE)
    return v if len(n) == 1 and n[0] is mul(kind_, seq_len(v)) else None


def same_bytes(t):
    """One name for each way to get the bytes of an array."""

    def f(x):
        if x.op == "call" and x.args[0] in ("bytes", "memoryview") and len(x.args[1]) == 1:
            z = x.args[1][0]
            if z.op == "attr" and z.args[1] == "data":
                return raw(z.args[0])
            if z.op == "call" and z.args[0] in (".tobytes", "bytes", "memoryview"):
                return z
        if x.op == "call" and x.args[0] == ".encode" and not x.args[2] and x.args[1][1:] in ((), (const("utf-8"),)):
            return mk("call", "bytes", (x.args[1][0], const("utf-8")), (), NONE)
        return raw(item(x)) if item(x) is not None else x

    return rewrite(half(settle(t)), f)


def half(t):
    """Converting an array to the 16 bit type it already has changes nothing."""
    m = {}
    for x in subterms(t):
        if x.op == "ite" and x.args[0].op == "eq" and contains(x.args[0], lambda z: z is mk("ext", "np.float16")):
            w = {}
            for d in subterms(x.args[0]):
                if d.op == "attr" and d.args[1] == "dtype":
                    for z in subterms(x.args[1]):
                        if z.op == "call" and z.args[0] in ("np.array", "np.asarray") and z.args[1][:1] == (d.args[0],) and mk("ext", "np.float16") in (z.args[1][1:] + tuple(v for _, v in z.args[2])):
                            w[z.dig] = d.args[0]
            if w:
                m[x.dig] = ite(x.args[0], subst(x.args[1], w), x.args[2])
    return subst(t, m) if m else t


def encoding(c):
    f = c.prog.need_func(W, "convert_features")
    m = source(c, DRV)
    a, b = run_driver(c, m, "code"), run_driver(c, m, "spec")
    c.equal("bytes", "encoded features", same_bytes(a.ret), same_bytes(b.ret), floc(f), known=KNOWN)
    c.equal("bytes", "rejected features", rejections(a), rejections(b), floc(f), known=KNOWN)


def run(c):
    c.rule("bytes", "bytes of every feature of a list, and when the list is rejected")
    c.clause("bytes", "encoded features", encoding)
    c.floor("bytes", 2)
