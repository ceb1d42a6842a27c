"""The native library: its interface read from the C header, and calls of it as entries of a log.

The library object is modelled by one object per exported function. A call is logged with its arguments freed from ctypes wrapping
(after comparing the wrapping with the declared argument types), output buffers become "written" by the call, callbacks are called
with unknown values, and the declared error check sees an unknown status."""
import os
import re

from .common import *
from vlib import terms as TT
from vlib.canon import arrays as canon

HEADER = "src/cc/lib/py_graph.h"
SCALAR = {"int64_t": "c_int64", "int32_t": "c_int32", "uint64_t": "c_uint64", "uint32_t": "c_uint32", "uint8_t": "c_uint8", "size_t": "c_size_t", "float": "c_float", "bool": "c_bool"}


class Header:
    """Exported functions: name -> [(type, parameter)], and callback types."""

    def __init__(self, root):
        p = os.path.join(root, HEADER)
        if not os.path.exists(p):
            raise AnchorError("native interface " + HEADER)
        s = open(p, encoding="utf-8").read()
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r"//[^\n]*", " ", s)
        self.alias = dict((b, a) for a, b in re.findall(r"typedef\s+(\w+)\s+(\w+)\s*;", s))
        for e in re.findall(r"enum\s+(\w+)", s):
            self.alias.setdefault(e, "int32_t")
        self.callbacks = {}
        for n, ps in re.findall(r"typedef\s+void\s*\(\s*\*\s*(\w+)\s*\)\s*\(([^)]*)\)\s*;", s):
            self.callbacks[n] = tuple(self.ctype(x)[0] for x in ps.split(","))
        self.funcs = {}
        for n, ps in re.findall(r"extern\s+int32_t\s+(\w+)\s*\(([^)]*)\)\s*;", s):
            self.funcs[n] = [self.ctype(x) for x in ps.split(",")]
        if len(self.funcs) < 20:
            raise AnchorError("exported functions in " + HEADER)

    def ctype(self, text):
        text = " ".join(w for w in re.sub(r"\*", " * ", text).split() if w != "const")
        m = re.match(r"(\w+)\s*((?:\* ?)*)\s*(\w*)$", text.strip())
        base, stars, name = m.group(1), m.group(2).count("*"), m.group(3)
        while base in self.alias and base not in SCALAR:
            base = self.alias[base]
        if base == "char" and stars:
            t, stars = "c_char_p", stars - 1
        elif base in self.callbacks:
            t = ("callback",) + self.callbacks[base]
        else:
            t = SCALAR.get(base, "struct")
        for _ in range(stars):
            t = ("ptr", t)
        return t, name


def spelled(fl, t):
    """A ctypes type expression of the code, in the header's terms."""
    if t.op == "ext" and t.args[0].startswith("ctypes."):
        return t.args[0][7:]
    if t.op == "call" and t.args[0] == "ctypes.POINTER" and len(t.args[1]) == 1:
        return ("ptr", spelled(fl, t.args[1][0]))
    if t.op == "call" and t.args[0] == "ctypes.CFUNCTYPE" and t.args[1] and t.args[1][0] is NONE:
        return ("callback",) + tuple(spelled(fl, x) for x in t.args[1][1:])
    if t.op == "class":
        return "struct"
    return "?" + repr(t)[:60]


def native_text(h):
    out = ["class NativeFn:", "    def __init__(self, name):", "        self.name = name", "        self.argtypes = None", "        self.restype = 0", "        self.errcheck = None",
           "    def __call__(self, *args):", "        return 0", "", "class Native:", "    def __init__(self):"]
    out += [f"        self.{n} = NativeFn({n!r})" for n in sorted(h.funcs)]
    out += ["", "class Retry:", "    def __init__(self, policy):", "        self.policy = policy", "    def __call__(self, fn, *args, **kw):", "        return fn(*args, **kw)", ""]
    return "\n".join(out)


def is_out(name):
    return name.startswith("out") or name == "dimensions"


class Lib:
    """Hooks of one analysis."""

    def __init__(self, c, module, header, retried=False, quiet=()):
        self.c, self.m, self.h, self.retried, self.quiet = c, module, header, retried, quiet
        self.obj = None
        self.retry = NONE
        self.policy = None
        self.types = {}
        self.arrays = {}
        self.handles = {}
        self.wrong = []
        self.sites = {}
        self.unchecked = []
        for name, params in header.funcs.items():
            for t, _ in params:
                for i, a in enumerate(t[1:] if isinstance(t, tuple) and t[0] == "callback" else ()):
                    if a == "c_size_t":
                        TT.COUNTS.add(mk("sym", f"{name}.{i}").dig)

    def hooks(self):
        return {
            "_get_c_lib": self.lib, "__call__": self.call, "tenacity.Retrying": self.retrying, ".data_as": self.data_as, "ctypes.Array": self.array,
            "ctypes.byref": by_reference, "ctypes.pointer": by_reference, "send": self.send, "ptr": self.ptr,
        }

    def lib(self, fl, f, b, args, kw, node):
        if self.obj is None:
            self.obj = fl.construct(self.m.classes["Native"], [], {}, node)
        return self.obj

    def retrying(self, fl, f, b, args, kw, node):
        p = mk("call", "Retrying", tuple(fl.fz(a) for a in args), tuple(sorted((k, fl.fz(v)) for k, v in kw.items() if k not in ("before", "after"))), NONE)
        self.policy = p
        return fl.construct(self.m.classes["Retry"], [p], {}, node)

    def data_as(self, fl, b, args, kw, node):
        if b.op != "attr" or b.args[1] != "ctypes":
            return None
        t = fl.fz(args[0] if args else kw["obj"])
        return mk("cptr", spelled(fl, t), b.args[0])

    def ptr(self, fl, f, b, args, kw, node):
        """ptr(array, "c_int64") in a requirement."""
        return mk("cptr", ("ptr", cval(args[1])), args[0])

    def array(self, fl, f, b, args, kw, node):
        t, rest = args[0], args[1:]
        base = next((x for x in subterms(t) if x.op == "ext" and x.args[0].startswith("ctypes.")), None)
        if base is None:
            return None
        n = t.args[1] if t.op == "carray" else subst(t, {base.dig: ONE})
        if not rest:
            content = mul(mk("list", ZERO), n)
        elif any(a.op == "star" for a in rest):
            content = cat([self.fz_star(fl, a) for a in rest])
        else:
            content = mk("list", *[fl.fz(a) for a in rest])
        o = fl.alloc("list", content)
        self.arrays[o.dig] = base.args[0][7:]
        return o

    @staticmethod
    def fz_star(fl, a):
        return a.args[0] if a.op == "star" else mk("list", fl.fz(a))

    # ---- the call itself
    def call(self, fl, f, b, args, kw, node):
        cls = fl.class_of(b) if b is not None else None
        if cls is None or cls.module is not self.m:
            return None
        if cls.name == "Retry":
            old, self.retry = self.retry, fl.getv(("h", b, "policy"))
            try:
                return fl.call_value(args[0], list(args[1:]), kw, node)
            finally:
                self.retry = old
        if cls.name != "NativeFn":
            return None
        name = cval(fl.getv(("h", b, "name")))
        self.c.native = getattr(self.c, "native", set()) | {name}
        decl = fl.fz(fl.getv(("h", b, "argtypes")))
        types = [spelled(fl, t) for t in decl.args] if decl.op in ("list", "tuple") else None
        if not any(types == x for x in self.types.setdefault(name, [])):
            self.types[name].append(types)
        res = fl.fz(fl.getv(("h", b, "restype")))
        if res is not ZERO and spelled(fl, res) not in ("c_int32", "c_int"):
            self.wrong.append((name, misfit(spelled(fl, res), "result"), fl.where(node)))
        self.sites.setdefault(name, fl.where(node))
        return self.record(fl, name, [fl.content(a) if a.op == "idx" else a for a in args], types, node, fl.getv(("h", b, "errcheck")))

    def send(self, fl, f, b, args, kw, node):
        """send("Name", ...) in a requirement."""
        name = cval(args[0])
        types = [t for t, _ in self.h.funcs[name]]
        return self.record(fl, name, list(args[1:]), types, node, None)

    def record(self, fl, name, args, types, node, check):
        proto = self.h.funcs[name]
        norm, after = [], []
        if len(args) != len(proto):
            norm.append(mk("mistyped", f"{len(args)} arguments", str(len(proto))))
        elif types is not None and len(types) != len(proto):
            norm.append(mk("mistyped", f"{len(types)} declared types", str(len(proto))))
        for i, a in enumerate(args):
            want = proto[i][0] if i < len(proto) else "?"
            par = proto[i][1] if i < len(proto) else "?"
            norm.append(self.norm(fl, a, want, types[i] if types and i < len(types) else None, name, par, after, node))
        if name in self.quiet:
            return ZERO
        for a in norm:
            for x in subterms(a):
                if x.op in ("mistyped", "opaque"):
                    self.wrong.append((name, x, fl.where(node)))
        how = TRUE if name.startswith("Create") or check is None or (self.policy is not None and self.retry is self.policy) else FALSE
        put_log(fl, "native", name, *(([how] if self.retried else []) + norm))
        fl.emit("call", "native." + name, tuple(norm), (), None, NONE, node)
        for g in after:
            g()
        st = mk("status", name)
        if check is None:
            pass
        elif check is NONE:
            self.unchecked.append((name, fl.where(node)))
        else:
            fl.call_value(check, [st, NONE, NONE], {}, node)
        return st

    def norm(self, fl, a, want, decl, name, par, after, node):
        if a.op == "ite":
            return lift(lambda x: self.norm(fl, x, want, decl, name, par, after, node), a)
        if a is NONE:
            return a
        if want == ("ptr", "struct"):
            if decl != want and (decl is not None or a.op != "byref"):
                return misfit(decl or "structure passed by value", want)
            a = a.args[0] if a.op == "byref" else a
            return mk("handle", self.handles.setdefault(a.dig, len(self.handles)))
        if a.op == "cptr":
            t, arr = a.args
            if t != want or (decl is not None and decl != t):
                return misfit(decl if t == want else t, want)
            if is_out(par):
                old = fl.fz(arr)
                if arr.op == "obj":
                    after.append(lambda: fl.set_content(arr, mk("call", "written", (const(name), const(par), old), (), NONE)))
                    return mk("ptr", str(t), old)
                return mk("mistyped", "output into a temporary")
            return mk("ptr", str(t), fl.fz(arr))
        if a.op == "obj" and a.dig in self.arrays:
            t = ("ptr", self.arrays[a.dig])
            if t != want or (decl is not None and decl != t):
                return misfit(decl if t == want else t, want)
            return mk("ptr", str(t), strip(fl.fz(a), self.arrays[a.dig]))
        if isinstance(want, tuple) and want[0] == "callback":
            if a.op == "call" and isinstance(a.args[0], T) and len(a.args[1]) == 1:
                t = spelled(fl, a.args[0])
                if t != want or (decl is not None and decl != t):
                    return misfit(decl if t == want else t, want)
                cb = a.args[1][0]
                after.append(lambda: fl.call_value(cb, [mk("sym", f"{name}.{i}") for i in range(len(want) - 1)], {}, node))
                return mk("callback")
            if a.op == "any":
                return mk("callback")
            return mk("mistyped", "callback", repr(a)[:80])
        if a.op == "call" and isinstance(a.args[0], str) and a.args[0].startswith("ctypes.c_"):
            t = a.args[0][7:]
            if t != want or (decl is not None and decl != t):
                return misfit(decl if t == want else t, want)
            return fl.fz(a.args[1][0]) if a.args[1] else ZERO
        if decl is None and check_undeclared(a, want):
            return mk("mistyped", "plain value without a declared type", str(want))
        return fl.fz(a) if a.op != "inst" else a


def misfit(found, want):
    if "?" in str(found):
        return mk("opaque", "type", str(found), "")
    return mk("mistyped", str(found), str(want))


def by_reference(fl, f, b, args, kw, node):
    return mk("byref", args[0])


def check_undeclared(a, want):
    """Without declared types plain numbers are passed as 32 bit integers."""
    return want not in ("c_int32", "c_bool", "c_char_p")


def strip(t, ctype):
    """c_uint32(x) stored in an array of c_uint32 is x."""
    return rewrite(t, lambda x: x.args[1][0] if x.op == "call" and x.args[0] == "ctypes." + ctype and len(x.args[1]) == 1 else x)


def pairs(parts):
    """Partitions as pairs of place and number, whatever sequence each was given as."""
    h = 1 + height(parts)
    x = seq_idx(parts, bv(h))
    return mk_flat(seq_len(parts), h, mk("list", mk("tuple", seq_idx(x, ZERO), seq_idx(x, ONE))))
