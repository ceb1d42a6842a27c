"""Forward dataflow evaluator (value numbering over gated SSA).

One pass over the syntax tree of a function.  Branches are analysed separately and
joined with gates, loops are summarised by solving their recurrences, repository
callees are analysed in place.  There is no path enumeration, no unrolling of
unbounded loops and no constraint solving: every program point has one abstract
state, values are normal-form terms (terms.py, seqs.py).

Result of an analysis: the abstract return value, the abstract heap, and a list of
events (calls, writes, yields, raises) each with its gate, enclosing loops and
location.
"""
import ast
import builtins

from . import terms as TT
from .prog import Class, Func, Module
from .seqs import *
from .terms import *

RAISED = mk("raised")

PURE_METHODS = {
    "astype", "reshape", "tobytes", "split", "rsplit", "splitlines", "strip", "lstrip", "rstrip", "lower", "upper",
    "startswith", "endswith", "encode", "decode", "replace", "flatten", "ravel", "tolist", "item", "sum", "mean",
    "max", "min", "transpose", "keys", "values", "items", "index", "count", "find", "rfind", "isdigit", "is_file",
    "exists", "joinpath", "as_posix", "nonzero", "squeeze", "cumsum", "argsort", "any", "all", "dot", "data_as",
    "partition", "rpartition", "title", "view", "union", "intersection", "difference", "nodes", "neighbors", "degree",
    "number_of_nodes", "number_of_edges", "size", "dim", "isnumeric", "zfill", "format", "join", "copy", "is_dir",
    "resolve", "with_suffix", "group", "match", "search", "total_seconds", "has_edge", "edges", "numpy", "shape", "get",
    "bit_length", "to_bytes", "hex", "casefold", "repeat", "clip", "round", "prod", "std", "var", "argmax", "argmin",
}
STR_FOLD = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "capitalize", "split", "title", "find"}
NEW_ARRAY = ("np.empty", "np.zeros", "np.ones", "np.full", "np.arange")
IMPURE_EXT = ("random.", "np.random.", "time.", "input", "os.listdir", "glob.glob", "uuid.", "tempfile.", "secrets.")
LOGGER = ("info", "debug", "warning", "warn", "error", "exception", "critical", "log", "setLevel", "addHandler", "isEnabledFor", "getEffectiveLevel", "handlers", "level", "name", "propagate")
LOG_ROOTS = ("logging", "warnings", "print", "logger", "log")

CT = {
    "c_uint64": "Q", "c_ulonglong": "Q", "c_ulong": "Q", "c_int64": "q", "c_longlong": "q", "c_long": "q",
    "c_uint32": "I", "c_uint": "I", "c_int32": "i", "c_int": "i", "c_float": "f", "c_double": "d", "c_uint8": "B",
    "c_ubyte": "B", "c_int8": "b", "c_byte": "b", "c_uint16": "H", "c_int16": "h", "c_short": "h", "c_ushort": "H",
}
DICTS = ("dict", "dupd", "dflat", "dmerge")
BYVALUE = DICTS + ("repeat", "list", "flat", "cat", "upd", "tally", "scat", "fold")
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "add", "discard", "update", "setdefault", "sort", "appendleft", "popleft", "reverse", "popitem", "fill"}
# read without a call, these are methods to be called later, never data
# functions that change their first argument
OUT_EXT = {"random.shuffle", "np.random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "bisect.insort", "np.copyto", "np.put", "np.place", "np.putmask", "np.add.at", "np.fill_diagonal"}
HANDLES = MUTATORS - {"fill", "sort", "reverse", "update"} | {"put", "send", "recv", "write"}


# calls that do not fail
SAFE = {"os.getpid", "time.time", "time.perf_counter", "glob.glob"}


class Budget(Exception):
    pass


class State:
    __slots__ = ("vals", "guard", "live", "facts", "raised", "why")

    def __init__(self):
        self.why = None
        self.vals = {}
        self.guard = TRUE
        self.live = TRUE
        self.facts = TRUE
        self.raised = False

    def copy(self):
        s = State()
        s.vals = dict(self.vals)
        s.guard = self.guard
        s.live = self.live
        s.facts = self.facts
        s.raised = self.raised
        return s


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "guard", "loops", "ctx", "loc", "res", "order", "facts", "node", "stack")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        r = f"{self.recv!r}" if self.recv is not None else ""
        a = ", ".join([repr(x) for x in self.args] + [f"{k}={v!r}" for k, v in self.kw])
        l = "".join(f" for {it!r}<{D!r}" for it, D in self.loops)
        g = "" if self.guard is TRUE else f" if {self.guard!r}"
        return f"[{self.loc[0].split('/')[-1]}:{self.loc[1]}] {self.kind} {r}{self.name}({a}){l}{g}"


class Frame:
    def __init__(self, fid, func, module, parent=None, cls=None):
        self.fid = fid
        self.func = func
        self.module = module
        self.parent = parent  # lexically enclosing frame
        self.cls = cls
        self.globals = set()
        self.nonlocals = {}
        self.selfterm = None


class Loop:
    def __init__(self, key, frame, genframe=None):
        self.key = key
        self.frame = frame
        self.genframe = genframe


def norm_ext(d):
    if d.startswith("numpy."):
        return "np." + d[6:]
    if d == "numpy":
        return "np"
    if d.startswith("builtins."):
        return d[9:]
    if d.startswith("posixpath."):
        return "os.path." + d[10:]
    return d


class Flow:
    def __init__(self, prog, extern=None, hooks=None, maxdepth=14, budget=60000, pure=None):
        self.prog = prog
        self.pure = pure or (lambda q: False)
        self.extern = extern or (lambda q: False)
        self.hooks = hooks or {}
        self.maxdepth = maxdepth
        self.S = State()
        self.events = []
        self.loops = []
        self.loopstk = []
        self.ctx = []
        self.nfid = 0
        self.nalloc = 0
        self.ninst = {}
        self.frames = []
        self.FUNCS = {}
        self.GENS = {}
        self.OWN = set()
        self.MADE = {}
        self.MAPPINGS = set()
        self.CLS = {}
        self.notes = []
        self.yield_cb = []
        self.trystk = []
        self.steps = 0
        self.budget = budget
        self.visited = set()
        self.loc = ("?", 0, "?")
        self.order = 0
        self.allocated = set()
        self.ENUMS = {}
        self.probes = None
        self.busy = set()

    # ------------------------------------------------------------ helpers
    def note(self, why, node=None):
        self.notes.append((why, getattr(node, "lineno", self.loc[1]), self.loc[0]))

    def opaque(self, why, node=None):
        self.note(why, node)
        return mk("opaque", why, str(getattr(node, "lineno", 0)), str(getattr(node, "col_offset", 0)))

    def know(self):
        s = self.S
        g = s.guard
        if s.live is not TRUE:
            g = and_(g, s.live)
        if s.facts is not TRUE:
            if g.size + s.facts.size < 4000:
                g = and_(g, s.facts)
        return g

    def simp(self, t):
        if t.op == "ite" or t.op in TT.ATOM_OPS:
            g = self.know()
            if g is FALSE:
                return t
            if g.size < 3000 and t.size < 60000:
                return constrain(t, g)
        return t

    def absguard(self):
        g = self.S.guard
        if self.S.live is not TRUE:
            g = and_(g, self.S.live)
        return g

    def emit(self, kind, name, args=(), kw=(), recv=None, res=None, node=None):
        g = self.absguard()
        if g is FALSE:
            return None
        self.order += 1
        e = Event(
            kind=kind, name=name, recv=recv, args=tuple(args), kw=tuple(kw), guard=g,
            loops=tuple(self.loops), ctx=tuple(self.ctx), loc=self.where(node), res=res, order=self.order,
            facts=self.S.facts, node=node, stack=tuple(f.func.qual if f.func else "?" for f in self.frames),
        )
        self.events.append(e)
        return e

    def where(self, node=None):
        f = self.frames[-1] if self.frames else None
        m = f.module if f else None
        return (m.rel if m else "?", getattr(node, "lineno", 0), f.func.qual if f and f.func else "?")

    # ------------------------------------------------------------ state access
    def getv(self, key):
        v = self.S.vals.get(key)
        if v is not None:
            if v.op == "ite" and key[0] == "h" and key[2] != "$out":
                return constrain(v, self.absguard())
            return v
        return self.default(key)

    def default(self, key):
        if key[0] == "e":
            if key[2] in ("$retc", "$brk"):
                return FALSE
            return UNDEF
        _, t, f = key
        if f == "$c":
            return t
        if f == "$pos":
            return ZERO if fresh_stream(t) else mk("pos", t)
        if f == "$ver":
            return ZERO
        if f == "$out":
            return mk("list")
        if f == "$shut":
            return FALSE
        return mk("attr", t, f)

    def setv(self, key, v):
        s = self.S
        if s.live is not TRUE:
            old = s.vals.get(key)
            if old is None:
                old = self.default(key)
            v = self.gate(key, s.live, v, old)
        s.vals[key] = v

    def gate(self, key, c, a, b):
        if a is b:
            return a
        if b is None or (key[0] == "h" and key[2] == "$new"):
            return a
        if key[0] == "h" and key[2] in ("$c", "$out"):
            if key[2] == "$out" or is_listy(a) or is_listy(b) or a.op == "cat" or b.op == "cat":
                return self.gate_seq(c, a, b)
            return ite(c, a, b)
        if a is UNDEF and key[0] == "e" and not key[2].startswith("$"):
            return b
        if b is UNDEF and key[0] == "e" and not key[2].startswith("$"):
            return a
        return ite(c, a, b)

    def gate_seq(self, c, a, b):
        return ite_seq(c, a, b)

    def region(self, cond, fn):
        """Run fn in a copy of the state under cond; returns resulting state (self.S restored)."""
        base = self.S
        st = base.copy()
        st.guard = and_(self.absguard(), cond)
        st.live = TRUE
        if st.guard is FALSE:
            st.raised = True  # unreachable: contributes nothing
            return st
        self.S = st
        try:
            fn()
        finally:
            r = self.S
            self.S = base
        return r

    def merge(self, cond, s1, s2):
        """Join two region states into self.S (the state before the split)."""
        base = self.S
        out = base.copy()
        if s1.raised and s2.raised:
            out.raised = True
            if base.live is not TRUE:
                out.raised = False
                out.live = FALSE
            self.S = out
            return
        if s1.raised or s2.raised:
            s = s2 if s1.raised else s1
            keys = s.vals
            for k, v in keys.items():
                old = base.vals.get(k)
                if v is not old:
                    if base.live is not TRUE and not newborn(k, base, s):
                        v = self.gate(k, base.live, v, old if old is not None else self.default(k))
                    out.vals[k] = v
            out.live = and_(base.live, s.live)
            c = not_(cond) if s1.raised else cond
            if cond.size < 400:
                out.facts = and_(s.facts, ite(and_(base.guard, base.live), c, TRUE)) if base.guard.size < 400 else s.facts
            self.S = out
            return
        keys = set()
        for k, v in s1.vals.items():
            if s2.vals.get(k) is not v:
                keys.add(k)
            elif base.vals.get(k) is not v:
                keys.add(k)
        for k, v in s2.vals.items():
            if s1.vals.get(k) is not v:
                keys.add(k)
        for k in keys:
            a = s1.vals.get(k)
            b = s2.vals.get(k)
            if a is None:
                a = self.default(k)
            if b is None:
                b = self.default(k)
            if k[0] == "h" and k[1].op in ("obj", "inst") and born(k[1], s1) != born(k[1], s2):
                # object created on one side only: its contents are not gated
                out.vals[k] = a if born(k[1], s1) else b
                continue
            v = self.gate(k, cond, a, b)
            if base.live is not TRUE and not newborn(k, base, s1):
                old = base.vals.get(k)
                v = self.gate(k, base.live, v, old if old is not None else self.default(k))
            out.vals[k] = v
        out.live = and_(base.live, ite(cond, s1.live, s2.live))
        if s1.facts is s2.facts:
            out.facts = s1.facts
        self.S = out

    def branch(self, cond, f1, f2):
        cond = self.simp(as_bool(cond))
        if cond is TRUE:
            return f1()
        if cond is FALSE:
            return f2()
        s1 = self.region(cond, f1)
        s2 = self.region(not_(cond), f2)
        self.merge(cond, s1, s2)

    # ------------------------------------------------------------ freezing
    def fz(self, t, d=0):
        """Replace mutable objects by their current contents."""
        if t is None:
            return NONE
        op = t.op
        if op == "const":
            return t
        if op == "obj":
            c = self.getv(("h", t, "$c"))
            if c is t or d > 12:
                return c
            c = self.fz(c, d + 1)
            if t.args[0] == "set":
                return mk("setof", c) if c.op != "setof" else c
            return c
        if op in ("list", "tuple", "cat", "upd", "dupd", "dict", "kv", "repeat", "ite", "enum", "zip", "items", "valsof", "keysof", "reversed", "star", "setof"):
            if d > 12:
                return t
            args = tuple(self.fz(a, d + 1) if isinstance(a, T) else a for a in t.args)
            if all(x is y for x, y in zip(args, t.args)):
                return t
            return renorm(op, args)
        if op == "func":
            return self.canon_func(t)
        if op == "gen":
            return self.gen_content(t)
        c = self.S.vals.get(("h", t, "$c"))
        if c is not None and c is not t and t not in self.busy:
            # the contents are written in terms of the contents at the start, named by the object itself
            self.busy.add(t)
            try:
                return self.fz(c, d + 1)
            finally:
                self.busy.discard(t)
        if op == "idx" and d <= 12 and t.args[0].op in ("list", "tuple"):
            base = self.fz(t.args[0], d + 1)
            if base is not t.args[0]:
                return seq_idx(base, t.args[1])
        return t

    def keyed(self, kw):
        """Arguments of an ordering call; the key is the value it computes, however the function is written."""
        out = []
        for k, v in sorted(kw.items()):
            if k == "key" and v.op == "func":
                out.append((k, self.canon_func(v, True)))
            elif not (k == "reverse" and v is FALSE) and not (k == "key" and v is NONE):
                out.append((k, self.fz(v)))
        return tuple(out)

    def canon_func(self, t, named=False):
        f, parent, bound = self.FUNCS[t.dig]
        if (isinstance(f.node, ast.Lambda) or named) and d_ok(self):
            ps = f.params()
            if bound is not None and not isinstance(f.node, ast.Lambda):
                ps = ps[1:]
            save = (self.S.copy(), len(self.events), self.nfid, self.nalloc)
            try:
                args = [mk("lamv", i) for i in range(len(ps))]
                r = self.fz(self.invoke(t, args, {}, f.node))
            except RecursionError:
                r = None
            del self.events[save[1]:]
            self.S = save[0]
            self.nfid, self.nalloc = save[2], save[3]
            if r is not None:
                return mk("lambda", len(ps), r)
        return mk("fn", f.qual)

    def alloc(self, kind_, content):
        self.nalloc += 1
        o = mk("obj", kind_, self.nalloc)
        self.S.vals[("h", o, "$c")] = content
        return o

    def content(self, raw):
        """Shallow content of a container value (elements may still be objects)."""
        if raw.op == "obj" or ("h", raw, "$c") in self.S.vals:
            return self.getv(("h", raw, "$c"))
        return raw

    # ------------------------------------------------------------ entry points
    def sym_args(self, func, given=None, skip_self=False):
        given = given or {}
        a = func.node.args
        out = {}
        ps = a.posonlyargs + a.args
        if skip_self and ps:
            ps = ps[1:]
        for p in ps + a.kwonlyargs:
            if p.arg in given:
                out[p.arg] = given[p.arg]
            else:
                t = sym(p.arg)
                self.type_term(t, p.annotation, func.module)
                out[p.arg] = t
        return out

    def type_term(self, t, ann, module):
        if ann is None:
            return
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return
        if isinstance(ann, ast.Subscript):
            return
        if isinstance(ann, ast.Name) and ann.id == "count":
            TT.COUNTS.add(t.dig)
            return
        if isinstance(ann, ast.Name) and ann.id == "optional":
            TT.OBJECTS.add(t.dig)
            return
        r = module.resolve_expr(ann)
        if isinstance(r, Class):
            self.CLS[t.dig] = r
        elif r in ("str", "float", "bytes"):
            KINDS[t.dig] = r

    def run(self, func, args=None, selfterm=None, kwargs=None):
        """Analyse func with symbolic (or given) arguments; returns frozen return value."""
        f = func
        given = self.sym_args(f, args, skip_self=selfterm is not None)
        v = self.function_term(f, None, selfterm)
        r = self.invoke(v, [], dict(given), f.node)
        return self.fz(r)

    def new_self(self, cls, name="self"):
        t = mk("sym", name)
        self.CLS[t.dig] = cls
        return t

    def instantiate(self, cls, args=None, name=None):
        """Create an instance by analysing its constructor with symbolic arguments."""
        f = cls.find("__init__")
        t = mk("inst", cls.qual, name or "self")
        self.CLS[t.dig] = cls
        if f is not None:
            self.frames.append(Frame(0, f, f.module))
            try:
                a = self.sym_args(f, args, skip_self=True)
                v = self.function_term(f, None, t)
                self.invoke(v, [], a, f.node)
            finally:
                self.frames.pop()
        return t

    # ------------------------------------------------------------ functions
    def function_term(self, f, parent, bound):
        key = f.qual + ":" + str(getattr(f.node, "lineno", 0)) + ":" + str(getattr(f.node, "col_offset", 0))
        t = mk("func", key, parent.fid if parent else 0, bound if bound is not None else NONE)
        self.FUNCS[t.dig] = (f, parent, bound)
        return t

    def invoke(self, fterm, args, kwargs, node, star=None):
        f, parent, bound = self.FUNCS[fterm.dig]
        depth = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        if depth >= 1 and len(self.frames) > 1 and any(fr.func is not None and fr.func.node is f.node for fr in self.frames[1:] + self.frames[:1]):
            if depth >= 2 or self.frames[-1].func.node is f.node or depth >= 1:
                if any(fr.func is not None and fr.func.node is f.node and fr.fid != 0 for fr in self.frames):
                    fa = [self.fz(x) for x in args]
                    kw = tuple(sorted((k, self.fz(v)) for k, v in kwargs.items()))
                    if bound is not None:
                        fa = [bound] + fa
                    res = mk("call", "rec:" + f.name, tuple(fa), kw, NONE)
                    self.emit("call", f.qual, fa, kw, None, res, node)
                    return res
        if len(self.frames) > self.maxdepth:
            return self.opaque("depth", node)
        self.visited.add(f.qual)
        fr = self.bind(f, parent, bound, args, kwargs, node)
        if fr is None:
            return self.opaque("bind:" + f.name, node)
        if f.is_generator() and "contextmanager" not in "".join(f.decorators):
            g = mk("gen", fr.fid)
            self.GENS[g.dig] = fr
            return g
        return self.run_frame(fr, node)

    def bind(self, f, parent, bound, args, kwargs, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if bound is not None:
            args = [bound] + args
        self.nfid += 1
        fr = Frame(self.nfid, f, f.module, parent, f.cls)
        vals = {}
        if len(args) > len(pos):
            if a.vararg is None:
                return None
            vals[a.vararg.arg] = mk("tuple", *args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = mk("tuple")
        for n, v in zip(pos, args):
            vals[n] = v
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                extra[k] = v
                continue
            if k in names and k not in vals:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            elif k in vals:
                return None
            else:
                return None
        if a.kwarg is not None:
            if set(extra) == {"**"}:
                vals[a.kwarg.arg] = extra["**"]
                self.MAPPINGS.add(self.fz(extra["**"]).dig)
            else:
                vals[a.kwarg.arg] = self.alloc("dict", mk("dict", *[mk("kv", const(k), v) for k, v in extra.items()]))
        elif "**" in extra:
            return None
        defs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        ]
        for n, d in defs:
            if n not in vals:
                self.frames.append(Frame(-1, f, f.module, parent))
                vals[n] = self.ev(d)
                self.frames.pop()
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                vals[n] = sym(n)
        for n, v in vals.items():
            self.S.vals[("e", fr.fid, n)] = v
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = vals.get(x.arg)
            if v is not None and v.op in ("sym", "attr", "idx") and v.dig not in self.CLS:
                self.type_term(v, x.annotation, f.module)
        fr.selfterm = bound
        return fr

    def run_frame(self, fr, node):
        f = fr.func
        base = self.S
        entry_live = base.live
        if isinstance(f.node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.ev(f.node.body)
            finally:
                self.frames.pop()

        def body():
            self.frames.append(fr)
            try:
                self.block(f.node.body)
            finally:
                self.frames.pop()

        st = self.region(TRUE, body)
        if st.guard is FALSE:
            return UNDEF
        ret = st.vals.get(("e", fr.fid, "$ret"), UNDEF)
        # merge effects back
        out = base.copy()
        for k, v in st.vals.items():
            old = base.vals.get(k)
            if v is not old:
                if entry_live is not TRUE and not (k[0] == "e" and k[1] == fr.fid):
                    v = self.gate(k, entry_live, v, old if old is not None else self.default(k))
                out.vals[k] = v
        out.facts = st.facts
        out.raised = base.raised or (st.raised and entry_live is TRUE)
        if st.raised and entry_live is not TRUE:
            out.live = FALSE
        self.S = out
        return strip_ret(ret)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            if self.S.raised or self.S.live is FALSE:
                return
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            m = getattr(self, "st_" + type(st).__name__, None)
            if m is None:
                self.note("stmt:" + type(st).__name__, st)
                continue
            m(st)

    def st_Pass(self, s):
        pass

    def st_Global(self, s):
        self.frames[-1].globals |= set(s.names)

    def st_Nonlocal(self, s):
        fr = self.frames[-1]
        p = fr.parent
        for n in s.names:
            q = p
            while q is not None and ("e", q.fid, n) not in self.S.vals:
                q = q.parent
            if q is not None:
                fr.nonlocals[n] = q.fid

    def st_Import(self, s):
        for a in s.names:
            r = self.prog.resolve_dotted(a.name if a.asname else a.name.split(".")[0])
            self.bind_name(a.asname or a.name.split(".")[0], self.entity(r))

    def st_ImportFrom(self, s):
        m = self.frames[-1].module
        base = m._from_base(s)
        for a in s.names:
            self.bind_name(a.asname or a.name, self.entity(self.prog.resolve_dotted(base + "." + a.name)))

    def st_FunctionDef(self, s):
        fr = self.frames[-1]
        f = Func(fr.module, s, f"{fr.func.qual}.{s.name}", None)
        f.localcls = fr.cls
        t = self.function_term(f, fr, None)
        self.bind_name(s.name, t)

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s):
        fr = self.frames[-1]
        c = Class(fr.module, s, f"{fr.func.qual}.{s.name}")
        self.bind_name(s.name, self.entity(c))

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.do_return(v)

    def do_return(self, v):
        fr = self.frames[-1]
        if self.S.raised:
            return
        self.setv(("e", fr.fid, "$ret"), v)
        self.setv(("e", fr.fid, "$retc"), TRUE)
        g = getattr(fr, "genret", None)
        for lp in self.loopstk:
            if lp.frame is fr and lp.genframe is not None:
                self.setv(("e", lp.genframe.fid, "$retc"), TRUE)
        self.S.live = FALSE

    def st_Raise(self, s):
        name = "reraise"
        args = ()
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                r = self.frames[-1].module.resolve_expr(e.func)
                args = tuple(self.fz(self.ev(a)) for a in e.args)
            else:
                r = self.frames[-1].module.resolve_expr(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
                if isinstance(e, ast.Name) and self.lookup_env(e.id) is not None:
                    r = None
            name = r if isinstance(r, str) else (r.name if isinstance(r, Class) else "exception")
        self.do_raise(name, args, s)

    def do_raise(self, name, args, node):
        if self.S.raised or self.S.live is FALSE:
            return
        self.emit("raise", name, args, node=node)
        if self.trystk:
            st = self.S.copy()
            st.why = self.events[-1]
            self.trystk[-1].append((name, st))
        if self.S.live is TRUE:
            self.S.raised = True
        else:
            fr = self.frames[-1]
            self.setv(("e", fr.fid, "$ret"), RAISED)
            # what was done on the way to the exception does not matter to those who left earlier
            gone = not_(self.S.live)
            for k, v in self.S.vals.items():
                if k[0] == "h" and v.op in ("ite", "cat"):
                    self.S.vals[k] = constrain(v, gone) if v.op == "ite" else cat([constrain(x, gone) for x in v.args])
            self.S.live = FALSE

    def st_Assert(self, s):
        c = self.ev_cond(s.test)

        def bad():
            self.do_raise("AssertionError", (), s)

        self.branch(c, lambda: None, bad)

    def st_If(self, s):
        c = self.ev_cond(s.test)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def st_Break(self, s):
        if self.loopstk:
            lp = self.loopstk[-1]
            self.setv(lp.key, TRUE)
            if lp.genframe is not None:
                self.setv(("e", lp.genframe.fid, "$retc"), TRUE)
        self.S.live = FALSE

    def st_Continue(self, s):
        self.S.live = FALSE

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.fz(self.ev_index(t.slice))
                self.emit("del", "delitem", (self.fz(b), i), node=t)
                cut = i.args if i.op == "slice" and (b.op == "obj" and b.args[0] == "list" or is_listy(self.content(b))) else ()
                if cut and cut[0] in (NONE, ZERO) and cut[2] is NONE:
                    self.setv(("h", b, "$c"), seq_idx(self.fz(b), mk("slice", cut[1], NONE, NONE)) if cut[1] is not NONE else mk("list"))
                elif cut and cut[1] is NONE and cut[2] is NONE:
                    self.setv(("h", b, "$c"), seq_idx(self.fz(b), mk("slice", NONE, cut[0], NONE)))
                else:
                    self.setv(("h", b, "$c"), mk("deleted", self.fz(b), i))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.emit("del", "delattr", (b, const(t.attr)), node=t)
                self.setv(("h", b, t.attr), mk("opaque", "deleted", "", ""))

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev_name(t.id, t)
            setter = lambda v: self.bind_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.read_attr(b, t.attr, t)
            setter = lambda v: self.store_attr(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev_index(t.slice)
            old = self.read_item(b, i, t)
            setter = lambda v: self.store_sub(t, b, i, v)
        else:
            return
        rhs = self.ev(s.value)
        if isinstance(s.op, ast.Add) and old.op == "obj" and old.args[0] == "list":
            self.list_extend(old, rhs)
            return
        if isinstance(s.op, ast.Add) and isinstance(t, ast.Subscript) and old.op == "idx" and is_const(old.args[1]) and kind(self.fz(rhs)) == "list" and kind(old) not in ("str", "tuple"):
            # only a list can take a list: the same list, longer
            self.method_event(old, "extend", [rhs], {}, s)
            return
        new = self.binop(s.op, old, rhs, s)
        if isinstance(t, ast.Name) and old.op == "call" and old.args[0] in ("np.array",) + NEW_ARRAY:
            for n in self.other_names(t.id):
                if self.lookup_env(n) is old:
                    self.bind_name(n, new)
        setter(new)

    def other_names(self, n):
        """Names given to the same array by plain assignments in this function."""
        f = self.frames[-1].func
        if f is None:
            return set()
        out, grown = {n}, True
        pairs = [(x.targets[0].id, x.value.id) for x in ast.walk(f.node) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name)]
        while grown:
            more = {y for p in pairs for y in p if p[0] in out or p[1] in out}
            grown = not more <= out
            out |= more
        return out - {n}

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.store_attr(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.store_sub(t, b, self.ev_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, t, v):
        n = len(t.elts)
        c = self.content(v)
        if v.op == "gen":
            c = self.fz(v)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if c.op in ("tuple", "list") and not any(x.op == "star" for x in c.args):
            vals = list(c.args)
            if not star and len(vals) == n:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x)
                return
            if star and len(vals) >= n - 1:
                i = star[0]
                k = len(vals) - (n - 1)
                parts = vals[:i] + [self.alloc("list", mk("list", *vals[i:i + k]))] + vals[i + k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e, x)
                return
        if c.op == "ite":
            cs = c
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e, self.opaque("star unpack", t))
                else:
                    self.assign(e, lift(lambda x: self.elem_at(x, const(i)), cs))
            return
        fzv = self.fz(v)
        for i, e in enumerate(t.elts):
            if isinstance(e, ast.Starred):
                tail = n - 1 - i
                self.assign(e, seq_idx(fzv, mk("slice", const(i) if i else NONE, const(-tail) if tail else NONE, NONE)))
            elif star and i > star[0]:
                self.assign(e, seq_idx(fzv, const(i - n)))
            else:
                self.assign(e, seq_idx(fzv, const(i)))

    def elem_at(self, x, i):
        c = self.content(x)
        if c.op in ("tuple", "list"):
            return seq_idx(c, i)
        return seq_idx(self.fz(x), i)

    def bind_name(self, n, v):
        fr = self.frames[-1]
        if n in fr.globals:
            self.setv(("h", mk("module", fr.module.name), n), v)
            return
        fid = fr.nonlocals.get(n, fr.fid)
        self.setv(("e", fid, n), v)

    def store_attr(self, b, name, v, node):
        if b.op == "ite":
            for g, x in cases(b):
                st = self.region(g, lambda: self.store_attr(x, name, v, node))
                self.merge(g, st, self.region(not_(g), lambda: None))
            return
        c = self.CLS.get(b.dig)
        if c is not None:
            f = setter_of(c, name)
            if f is not None:
                self.invoke(self.function_term(f, None, b), [v], {}, node)
                return
        self.emit("store", name, (self.fz(v),), recv=b, node=node)
        self.setv(("h", b, name), v)

    def ev_index(self, e):
        if isinstance(e, ast.Slice):
            return mk("slice", *[self.fz(self.ev(x)) if x is not None else NONE for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return mk("tuple", *[self.ev_index(x) for x in e.elts])
        return self.fz(self.ev(e))

    def store_sub(self, t, b, i, v):
        """x[j][i] = v: rows held by value are written back into the container they came from."""
        if isinstance(t.value, ast.Subscript) and all(x.op in BYVALUE for _, x in cases(b)):
            row = lift(lambda x: dict_upd(x, i, self.fz(v)) if x.op in DICTS else mk("upd", x, i, self.fz(v)), b)
            o = self.ev(t.value.value)
            self.store_sub(t.value, o, self.ev_index(t.value.slice), row)
            return
        if b.op in BYVALUE:
            self.note("lost update", t)
        self.store_item(b, i, v, t)

    def store_item(self, b, i, v, node):
        if b.op == "ite":
            for g, x in cases(b):
                st = self.region(g, lambda: self.store_item(x, i, v, node))
                self.merge(g, st, self.region(not_(g), lambda: None))
            return
        cls = self.class_of(b)
        if cls is not None and cls.find("__setitem__"):
            self.invoke(self.function_term(cls.find("__setitem__"), None, b), [i, v], {}, node)
            return
        cur = self.content(b)
        fv = v
        self.emit("setitem", "setitem", (i, self.fz(v)), recv=b, node=node)
        isdict = cur.op in ("dict", "dupd", "dflat") or (b.op == "obj" and b.args[0] == "dict")
        if cur.op == "list" and is_const(i) and isinstance(cval(i), int) and -len(cur.args) <= cval(i) < len(cur.args):
            a = list(cur.args)
            a[cval(i)] = fv
            new = mk("list", *a)
        elif isdict:
            new = dict_upd(cur, i, fv)
        else:
            new = mk("upd", cur, i, self.fz(fv))
        self.set_content(b, new)

    def set_content(self, b, new):
        if b.op == "idx" and b.args[0].op != "sym":
            # element of a container held by value: update the container that owns it
            owner = self.owner(b.args[0])
            if owner is not None:
                cur = self.content(owner)
                self.setv(("h", owner, "$c"), mk("upd", cur, b.args[1], new) if cur.op not in ("dict", "dupd", "dflat") else dict_upd(cur, b.args[1], new))
                return
        if b.op == "idx" and b.args[0].op == "mu" and is_const(b.args[1]) and self.renew(b.args[0], b.args[1], new):
            return
        self.setv(("h", b, "$c"), new)

    def renew(self, mu, i, new):
        """An element of a loop variable held by value changed: so did every name of it."""

        def f(v):
            if v.op == "ite":
                a, b = f(v.args[1]), f(v.args[2])
                return v if a is v.args[1] and b is v.args[2] else ite(v.args[0], a, b)
            x = v
            while x.op == "upd":
                x = x.args[0]
            return mk("upd", v, i, self.fz(new)) if x is mu else v

        hit = False
        for k, v in list(self.S.vals.items()):
            if k[0] == "e" and isinstance(v, T) and v.op in ("ite", "mu", "upd"):
                w = f(v)
                if w is not v:
                    self.setv(k, w)
                    hit = True
        return hit

    def owner(self, content):
        for k, v in self.S.vals.items():
            if k[0] == "h" and k[2] == "$c" and v is content:
                return k[1]
        return None

    def st_With(self, s):
        self.with_items(s.items, s.body, s)

    st_AsyncWith = st_With

    def with_items(self, items, body, node):
        if not items:
            self.block(body)
            return
        it = items[0]
        e = it.context_expr
        v = self.ev(e)
        cls = self.class_of(v)
        if v.op == "ctxmgr":
            fterm, args, kw = self.GENS[v.dig]
            f, parent, bound = self.FUNCS[fterm.dig]
            fr = self.bind(f, parent, bound, args, kw, node)
            if fr is not None:
                me = self.frames[-1]

                def cb(val, ynode):
                    saved = self.frames
                    self.frames = saved[: saved.index(fr)] if fr in saved else saved
                    try:
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, val)
                        self.with_items(items[1:], body, node)
                    finally:
                        self.frames = saved
                    return NONE

                live0 = self.S.live
                rc = ("e", me.fid, "$retc")
                self.yield_cb.append((fr, cb))
                try:
                    self.run_frame(fr, node)
                finally:
                    self.yield_cb.pop()
                r = self.getv(rc)
                if r is not FALSE and not self.S.raised:
                    self.S.live = and_(self.S.live, not_(r))
                return
        entered = v
        if "$enter" in self.hooks:
            self.hooks["$enter"](self, v, node)
        if cls is not None and cls.find("__enter__") is not None:
            entered = self.call_method(v, "__enter__", [], {}, node)
        else:
            self.emit("enter", "enter", (self.fz(v),), node=e)
            if v.op == "call" and v.args[0] not in ("open",) and not (isinstance(v.args[0], str) and v.args[0].endswith("open")):
                entered = mk("entered", v) if not self.transparent_ctx(v) else v
        if it.optional_vars is not None:
            self.assign(it.optional_vars, entered)
        self.ctx.append(self.fz(v))
        depth = len(self.ctx)
        base_live = self.S.live
        try:
            self.with_items(items[1:], body, node)
        finally:
            del self.ctx[depth - 1:]
        # the exit happens on every way out of the block
        st = self.S
        live, raised = st.live, st.raised
        st.live = base_live
        st.raised = False
        if cls is not None and cls.find("__exit__") is not None:
            self.call_method(v, "__exit__", [NONE, NONE, NONE], {}, node)
        else:
            self.emit("exit", "exit", (self.fz(v),), node=e)
            if "$exit" in self.hooks:
                self.hooks["$exit"](self, v, node)
            if fresh_stream(self.fz(v)):
                self.setv(("h", self.fz(v), "$shut"), TRUE)
        self.S.live = and_(self.S.live, live)
        self.S.raised = raised

    def transparent_ctx(self, v):
        return True

    def lookup_test(self, s):
        """try: ... d[k] ... except KeyError: the handler runs when the key is missing."""
        if len(s.handlers) != 1 or s.handlers[0].name or s.finalbody or len(s.body) != 1 or handler_name(s.handlers[0]) != "KeyError":
            return None
        st = s.body[0]
        if not isinstance(st, (ast.Assign, ast.Return)) or st.value is None:
            return None
        subs = [x for x in ast.walk(st.value) if isinstance(x, ast.Subscript)]
        if len(subs) != 1 or isinstance(subs[0].slice, ast.Slice) or any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.Lambda, ast.NamedExpr)) for x in ast.walk(st)):
            return None
        if isinstance(st, ast.Assign) and not all(isinstance(t, ast.Name) for t in st.targets):
            return None
        b = self.ev(subs[0].value)
        if b.op != "obj" or b.args[0] != "dict" or self.class_of(b) is not None:
            return None
        test = ast.Compare(left=subs[0].slice, ops=[ast.In()], comparators=[subs[0].value])
        return ast.copy_location(ast.If(test=ast.copy_location(test, st), body=s.body + s.orelse, orelse=s.handlers[0].body), s)

    def st_Try(self, s):
        t = self.lookup_test(s)
        if t is not None:
            return self.st_If(t)
        pre = self.S.copy()
        nev = len(self.events)
        catchers = s.handlers
        self.trystk.append([])
        entry_live = self.S.live

        def tb():
            self.block(s.body)

        body_st = self.region(TRUE, tb)
        raises = self.trystk.pop()
        # calls the handlers may intercept
        calls = tuple(sorted({e.name for e in self.events[nev:] if e.kind in ("call", "write") and e.name not in SAFE}))
        acc = body_st
        accc = TRUE

        def else_():
            if s.orelse:
                self.block(s.orelse)

        if s.orelse and not acc.raised:
            base = self.S
            self.S = acc
            self.block(s.orelse)
            acc = self.S
            self.S = base
        out_raises = []
        base = self.S
        # explicit raises
        handled = []
        for name, st in raises:
            h = self.find_handler(s.handlers, name)
            if h is None:
                out_raises.append((name, st))
                continue
            if st.why is not None:
                st.why.kind = "caught"
            handled.append((and_(st.guard, st.live), self.run_handler(h, st, name)))
            self.S = base
        # (the first one to be raised counts)
        for cond, rs in reversed(handled):
            if acc.raised:
                acc = rs
            else:
                acc = self.join_states(base, relcond(cond, base), rs, acc)
        # implicit exceptions of the external calls
        if s.handlers and (calls or not raises):
            for h in s.handlers:
                tname = handler_name(h)
                if tname.split(".")[-1] in self.hooks.get("$explicit", ()):
                    continue
                if raises and all(self.find_handler([h], n) is not None for n, _ in raises) and not calls:
                    continue
                atom = mk("exc", tname, calls)
                st = base.copy()
                st.guard = and_(and_(base.guard, base.live), atom)
                st.live = TRUE
                if st.guard is FALSE:
                    continue
                rs = self.run_handler(h, st, tname)
                self.S = base
                if acc.raised:
                    acc = rs
                else:
                    acc = self.join_states(base, atom, rs, acc)
        self.S = base
        s_none = self.region(FALSE, lambda: None)
        self.merge(TRUE, acc, s_none) if not acc.raised else self._set_raised()
        if self.trystk:
            self.trystk[-1].extend(out_raises)
        if s.finalbody:
            st = self.S
            live, raised = st.live, st.raised
            st.live = entry_live
            st.raised = False
            self.block(s.finalbody)
            self.S.live = and_(self.S.live, live)
            self.S.raised = self.S.raised or raised

    st_TryStar = st_Try

    def _set_raised(self):
        if self.S.live is TRUE:
            self.S.raised = True
        else:
            self.S.live = FALSE

    def join_states(self, base, cond, s1, s2):
        b = base.copy()
        b.live = TRUE
        save = self.S
        self.S = b
        self.merge(cond, s1, s2)
        r = self.S
        self.S = save
        return r

    def find_handler(self, handlers, name):
        for h in handlers:
            hn = handler_name(h)
            names = hn.split("|")
            if hn == "" or "Exception" in names or "BaseException" in names or name in names or name == "exception":
                return h
            if name and any(name.split(".")[-1] == x.split(".")[-1] for x in names):
                return h
            if name in ("KeyError", "IndexError") and "LookupError" in names:
                return h
        return None

    def run_handler(self, h, st, name):
        save = self.S
        st = st.copy()
        st.guard = and_(st.guard, st.live)
        st.live = TRUE
        st.raised = False
        self.S = st
        if h.name:
            self.bind_name(h.name, mk("sym", "exc:" + name))
        self.block(h.body)
        r = self.S
        self.S = save
        return r

    # ------------------------------------------------------------ loops
    def st_For(self, s):
        itv = self.ev(s.iter)
        if itv.op in ("sym", "call", "attr", "idx") and isinstance(s.target, ast.Name) and looked_up(s, s.target, s.iter):
            itv = mk("keysof", itv)
        if itv.op == "enum" and itv.args[0].op in ("sym", "call", "attr", "idx") and isinstance(s.target, ast.Tuple) and isinstance(s.iter, ast.Call) and s.iter.args:
            if len(s.target.elts) == 2 and isinstance(s.target.elts[1], ast.Name) and looked_up(s, s.target.elts[1], s.iter.args[0]):
                itv = mk("enum", mk("keysof", itv.args[0]), *itv.args[1:])
        fr = self.frames[-1]
        self.nfid += 1
        key = ("e", self.nfid, "$brk")
        lp = Loop(key, fr)

        def body(elem):
            self.loopstk.append(lp)
            try:
                self.assign(s.target, elem)
                self.block(s.body)
            finally:
                self.loopstk.pop()

        self.S.vals[key] = FALSE
        self.iterate(itv, body, s, lp)
        brk = self.getv(key)
        if s.orelse and not self.S.raised:
            self.branch(brk, lambda: None, lambda: self.block(s.orelse))

    st_AsyncFor = st_For

    def st_While(self, s):
        fr = self.frames[-1]
        self.nfid += 1
        key = ("e", self.nfid, "$brk")
        lp = Loop(key, fr)

        def body(it):
            self.loopstk.append(lp)
            try:
                c = self.ev_cond(s.test)

                def stop():
                    self.setv(key, TRUE)
                    self.S.live = FALSE

                self.branch(c, lambda: None, stop)
                self.block(s.body)
            finally:
                self.loopstk.pop()

        self.S.vals[key] = FALSE
        n = self.counted(s)
        if n is not None:
            self.iter_lit([const(i) for i in range(n)], body, lp)
        else:
            self.loop_run(INF, body, s, [key], lp)
        if s.orelse:
            if any(isinstance(n, ast.Break) for x in s.body for n in ast.walk(x)):
                self.note("lost update", s)
            self.block(s.orelse)

    def counted(self, s):
        """Rounds of a loop that counts up to a bound, where both are known and small."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
            return None
        if not isinstance(t.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
            return None
        name = t.left.id
        bound = ast.unparse(t.comparators[0])
        if any(isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store) and ast.unparse(n) == bound for x in s.body for n in ast.walk(x)):
            return None
        own = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
        steps = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == name and isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(own) != 1 or len(steps) != 1 or any(isinstance(n, ast.Continue) for x in s.body for n in ast.walk(x)):
            return None
        at, to = (self.fz(self.ev(x)) for x in (t.left, t.comparators[0]))
        if not all(is_const(x) and type(cval(x)) is int for x in (at, to)):
            return None
        n = max(cval(to) - cval(at) + isinstance(t.ops[0], ast.LtE), 0)
        return n if n <= 4 else None

    def iterate(self, raw, cb, node, lp=None, single_ok=True):
        """Run cb(elem) for the elements of raw, in order."""
        if raw.op == "gen":
            return self.iterate_gen(raw, cb, node, lp)
        c = self.content(raw)
        if raw.op == "obj" and raw.args[0] == "set":
            c = mk("setof", self.fz(c))
        if raw.op == "obj" and raw.args[0] == "dict":
            c = mk("keysof", self.fz(c))
        elif c.op in ("dict", "dupd", "dflat"):
            c = mk("keysof", self.fz(c))
        self.iter_term(c, cb, node, lp)

    def iter_term(self, c, cb, node, lp):
        op = c.op
        if op in ("keysof", "items", "valsof"):
            c = spelled(c)
            op = c.op
        if op in ("list", "tuple") and len(c.args) <= 12 and not any(x.op == "star" for x in c.args):
            return self.iter_lit(list(c.args), cb, lp)
        if op in ("enum", "zip"):
            n = seq_len(c)
            if is_const(n) and isinstance(cval(n), int) and cval(n) <= 12:
                return self.iter_lit([seq_idx(c, const(i)) for i in range(cval(n))], cb, lp)
        if op == "range" and is_const(c.args[1]) and isinstance(cval(c.args[1]), int) and cval(c.args[1]) <= 4:
            return self.iter_lit([seq_idx(c, const(i)) for i in range(cval(c.args[1]))], cb, lp)
        if op == "ite":
            v, a, b = c.args
            self.branch(v, lambda: self.iter_term(self.content(a), cb, node, lp), lambda: self.iter_term(self.content(b), cb, node, lp))
            return
        if op == "flat":
            D, h, body = c.args
            keys = [lp.key] if lp else []
            self.loop_run(D, lambda it: self.iter_term(open_(body, h, it), cb, node, lp), node, keys, lp)
            return
        if op == "cat" and len(c.args) <= 3 and all(p.op in ("list", "flat", "ite") for p in c.args):
            for p in c.args:
                self.iter_term(p, cb, node, lp)
            return
        fc = self.fz(c)
        if fc is not c and fc.op in ("flat", "list", "cat", "ite"):
            return self.iter_term(fc, cb, node, lp)
        D = fc.args[1] if fc.op == "range" else seq_len(fc)
        keys = [lp.key] if lp else []
        self.loop_run(D, lambda it: cb(seq_idx(fc, it)), node, keys, lp)

    def iter_lit(self, els, cb, lp):
        live0 = self.S.live
        for x in els:
            if self.S.raised or self.S.live is FALSE:
                break
            if lp is None:
                cb(x)
                continue
            st = self.region(TRUE, lambda: cb(x))
            base = self.S
            self.merge(TRUE, st, self.region(FALSE, lambda: None))
            if self.S.raised:
                return
            # continue only ends this element; break / return end the loop
            b = self.getv(lp.key)
            r = self.getv(("e", lp.frame.fid, "$retc"))
            self.S.live = and_(base.live, not_(or_(b, r)))
        if lp is not None and not self.S.raised:
            r = self.getv(("e", lp.frame.fid, "$retc"))
            self.S.live = and_(live0, not_(r)) if r is not FALSE else live0

    def iterate_gen(self, g, cb, node, lp):
        fr = self.GENS[g.dig]
        if fr in self.frames:
            self.note("recursive generator", node)
            return
        me = self.frames[-1]
        if lp is not None:
            lp.genframe = fr

        def ycb(val, ynode):
            saved = self.frames
            sl = self.loopstk
            self.frames = [x for x in saved if x is not fr and saved.index(x) < saved.index(fr)] if fr in saved else saved
            self.loopstk = [l for l in sl if l.frame in self.frames]
            self.yield_cb.append((None, None))
            try:
                st = self.region(TRUE, lambda: cb(val))
                base = self.S
                self.merge(TRUE, st, self.region(FALSE, lambda: None))
                if not self.S.raised:
                    stop = FALSE
                    if lp is not None:
                        stop = or_(self.getv(lp.key), self.getv(("e", me.fid, "$retc")))
                    self.S.live = and_(base.live, not_(stop))
            finally:
                self.yield_cb.pop()
                self.frames = saved
                self.loopstk = sl
            return NONE

        self.yield_cb.append((fr, ycb))
        live0 = self.S.live
        try:
            self.run_frame(fr, node)
        finally:
            self.yield_cb.pop()
        if not self.S.raised and lp is not None:
            r = self.getv(("e", me.fid, "$retc"))
            self.S.live = and_(live0, not_(r)) if r is not FALSE else live0

    def gen_content(self, g):
        o = self.alloc("list", mk("list"))
        self.iterate_gen(g, lambda v: self.list_append(o, v), None, None)
        return self.fz(o)

    def loop_run(self, D, body, node, brkkeys=(), lp=None, seeds=None, _retry=0, leave=None):
        pre = self.S
        depth = len(self.loops)
        it = mk("iter", D, depth)
        ctr = (self.nfid, self.nalloc, dict(self.ninst))
        maxfid = self.nfid
        nev = len(self.events)
        keys = {}
        retkeys = [("e", f.fid, "$retc") for f in self.frames]
        mine = {}
        loopfact = TRUE
        if D is not INF:
            loopfact = and_(lt(it, D), not_(lt(it, ZERO)))
        seeds = seeds or {}
        entry_live = pre.live

        def one_pass():
            self.nfid, self.nalloc = ctr[0], ctr[1]
            self.ninst = dict(ctr[2])
            del self.events[nev:]
            st = pre.copy()
            st.guard = self._abs(pre)
            st.live = TRUE
            st.facts = and_(pre.facts, loopfact) if pre.facts.size < 2000 else pre.facts
            start = {}
            turn = self.hooks["$turn"](self, st) if D is INF and "$turn" in self.hooks else {}
            st.vals.update(turn)
            for k in keys:
                st.vals[k] = seeds[k] if k in seeds else keys[k]
                start[k] = st.vals[k]
            for k in brkkeys:
                st.vals[k] = FALSE
            for k in retkeys:
                if st.vals.get(k, FALSE) is not FALSE and entry_live is not TRUE:
                    st.vals[k] = FALSE
            self.S = st
            self.loops.append((it, D))
            n_outer_ctx = len(self.ctx)
            try:
                body(it)
            finally:
                self.loops.pop()
                del self.ctx[n_outer_ctx:]
            r = self.S
            self.S = pre
            for k, v in turn.items():
                if r.vals.get(k) is v:
                    r.vals[k] = pre.vals[k]
            return r

        for _round in range(7):
            mine.clear()
            post = one_pass()
            if post.raised:
                # every iteration raises: the loop is entered at most once
                break
            new = {}
            for k, v in post.vals.items():
                if k in keys or k in brkkeys:
                    continue
                if k[0] == "e":
                    if k[1] > maxfid or k[2] in ("$retc", "$ret"):
                        continue
                elif k[1].op == "obj" and k[1].args[1] > ctr[1]:
                    continue
                elif own_object(k, it):
                    # each round has an object of its own
                    mine[k] = v
                    continue
                elif k[1].op == "call" and k[1].args[0] == "ctypes.Array" and k[1].args[3].op == "made" and it in k[1].args[3].args:
                    continue
                o = pre.vals.get(k)
                if o is None:
                    o = self.default(k)
                    if k[0] == "e":
                        # first assigned in the body
                        new[k] = v
                        continue
                if v is not o:
                    new[k] = v
            if not new:
                break
            for k in new:
                if k[0] == "h" and k[2] == "$c" and contains(k[1], lambda x: x.op == "mu" and x.args[0] is it):
                    # an element of something the loop itself replaces is changed in place
                    self.note("lost update", node)
                keys[k] = mk("mu", it, k[1] if isinstance(k[1], int) else k[1], str(k[2]))
        if post.raised:
            self.nfid = max(self.nfid, ctr[0])
            # treat as: loop body raises when the domain is not empty
            return
        # break / return conditions
        brk = FALSE
        for k in brkkeys:
            brk = or_(brk, post.vals.get(k, FALSE))
        retc = FALSE
        retinfo = []
        for k in retkeys:
            v = post.vals.get(k, FALSE)
            if v is not FALSE and v is not pre.vals.get(k, FALSE):
                retinfo.append((k, v))
                retc = or_(retc, v)
        stop = or_(brk, retc)
        if D is INF and "$poll" in self.hooks and stop is not FALSE and not any(k[0] == "h" and k[2] != "$ver" for k in keys) and not contains(stop, lambda x: x is it or x.op == "mu" and x.args[0] is it):
            # nothing changes from one round to the next: the loop waits for others
            vals = {k: self.fz(post.vals.get(("e", k[1], "$ret"), UNDEF)) for k, _ in retinfo}
            out = pre.copy()
            for k in keys:
                out.vals[k] = mk("opaque", "polled", str(k[2]), "")
            self.S = out
            self.hooks["$poll"](self, stop, node)
            for k, c in retinfo:
                c = constrain(c, stop)
                rk = ("e", k[1], "$ret")
                out.vals[rk] = ite(and_(pre.live, c), strip_guarded(vals[k]), pre.vals.get(rk, UNDEF))
                out.vals[k] = or_(pre.vals.get(k, FALSE), and_(pre.live, c))
                if k[1] in [f.fid for f in self.frames]:
                    out.live = and_(out.live, not_(c))
            return

        if D is INF and stop is TRUE and leave is None:
            # left in the first round: no loop at all
            self.nfid, self.nalloc, self.ninst = ctr[0], ctr[1], dict(ctr[2])
            del self.events[nev:]
            st = pre.copy()
            for k in brkkeys:
                st.vals[k] = FALSE
            self.S = st
            n_outer_ctx = len(self.ctx)
            try:
                body(ZERO)
            finally:
                del self.ctx[n_outer_ctx:]
            if not self.S.raised:
                self.S.live = pre.live
                for k in retkeys:
                    v = self.S.vals.get(k, FALSE)
                    if v is not pre.vals.get(k, FALSE):
                        self.S.live = and_(self.S.live, not_(v))
            return

        memo = {}
        active = []

        bykey = {mu.dig: k for k, mu in keys.items()}

        fzsave = self.S
        self.S = post
        postv = {}
        for k in keys:
            v = post.vals.get(k)
            if v is None:
                v = self.default(k)
            if k[0] == "h" and k[2] == "$c":
                v = self.fz_inner(v, ctr[1])
            elif contains_new_obj(v, ctr[1]):
                v = self.fz(v)
            postv[k] = v
        self.S = fzsave

        def initv(k):
            v = pre.vals.get(k)
            return self.default(k) if v is None else v

        if self.probes is not None:
            # one round of the loop as a step on its variables
            self.probes.append(dict(node=node, start={k: initv(k) for k in keys}, var=dict(keys), step=dict(postv), stop=stop, D=D, it=it, frames=[f.func for f in self.frames]))

        def expand(v, me=None):
            """Replace other loop variables in v by their value at iteration `it`."""
            m = {}
            for x in subterms(v):
                if x.op == "mu" and x.args[0] is it and x.dig in bykey and bykey[x.dig] != me:
                    m[x.dig] = at_iter(bykey[x.dig])
            return subst(v, m) if m else v

        def at_iter(k):
            if k in seeds:
                return seeds[k]
            if k in memo:
                return memo[k][0]
            if k in active:
                return mk("rec", it, mu_name(keys[k]))
            resolve(k)
            return memo[k][0]

        def resolve(k):
            if k in twins:
                twin(k)
                return
            active.append(k)
            try:
                mu = keys[k]
                raw = postv[k]
                go = constrain(raw, not_(stop)) if stop is not FALSE else raw
                if go.op == "cat" and stop is not FALSE:
                    go = cat([constrain(x, not_(stop)) for x in go.args])
                p = expand(go, k)
                ini = initv(k)
                at, after = self.solve(k, mu, p, ini, it, D, stop_holder)
                if never is not None:
                    pass
                elif stop is not FALSE and go is not raw and stop_holder[0] is not None:
                    # the iteration that stops the loop
                    part = constrain(raw, stop)
                    if part.op == "cat":
                        part = cat([constrain(x, stop) for x in part.args])
                    N_ = stop_holder[0]
                    if part is mu:
                        pv = after
                    else:
                        pv = subst(expand(part, k), {mu.dig: at})
                        pv = subst(pv, {it.dig: N_})
                    if pv is not after:
                        ex = TRUE if D is INF else _ex(D, it, expand(stop))
                        after = self.gate(k, ex, pv, after)
                elif stop is not FALSE and go is raw and stop_holder[0] is not None and raw is not mu:
                    # also executed by the stopping iteration
                    N_ = stop_holder[0]
                    pv = subst(subst(expand(raw, k), {mu.dig: at}), {it.dig: N_})
                    if pv is not after:
                        ex = TRUE if D is INF else _ex(D, it, expand(stop))
                        after = self.gate(k, ex, pv, after)
                memo[k] = (at, after)
            finally:
                active.pop()

        # a counter that grows with a list: written as that list's length
        twins = {}
        if not contains(stop, lambda x: x.op == "mu" and x.args[0] is it):

            def round_of(k):
                """The value after a full round; the round that stops has to leave it as it was."""
                if stop is FALSE:
                    return postv[k]
                return constrain(postv[k], not_(stop)) if constrain(postv[k], stop) is keys[k] else None

            for k, mu in keys.items():
                if round_of(k) is None:
                    continue
                d = sub(round_of(k), mu) if k not in seeds and is_num_const(initv(k)) or kind(postv[k]) in ("int", "num") else None
                if d is None or not has(d, mu) or kind(initv(k)) in TT.SEQ_KINDS:
                    continue
                for j, nu in keys.items():
                    if j == k or j in seeds or j[0] != "h" or j[2] != "$c" or not has(postv[j], mu):
                        continue
                    if round_of(j) is None:
                        continue
                    grown = sub(seq_len(round_of(j)), seq_len(nu))
                    if grown is d or round_of(k) in (add(mu, grown), mk_minmax("max", *[add(mu, x) for x in grown.args]) if grown.op == "max" else None):
                        twins[k] = j
                        v = add(seq_len(nu), sub(initv(k), seq_len(self.fz(initv(j)))))
                        for x in list(postv):
                            if x != k:
                                postv[x] = subst(postv[x], {mu.dig: v})
                        break

        def twin(k):
            j = twins[k]
            base = sub(initv(k), seq_len(self.fz(initv(j))))
            at_iter(j)
            memo[k] = tuple(add(seq_len(x), base) for x in memo[j])

        lost = False
        stop_holder = [None]
        # resolve the stop condition first: it defines the number of iterations
        stop_x, never = FALSE, None
        if stop is not FALSE:
            stop_x = expand(stop)
        if stop_x is not FALSE:
            # counted loop in disguise?
            if D is INF and _retry < 3:
                n = counted(stop_x, it)
                if n is not None and (not retinfo or brk is FALSE and len(retinfo) == 1):
                    if retinfo:
                        # the loop is left by this return once the count is reached
                        k = retinfo[0][0]
                        self.S = post
                        val = strip_guarded(self.fz(post.vals.get(("e", k[1], "$ret"), UNDEF)))
                        leave = (k, constrain(val, retinfo[0][1]) if val.op == "ite" else val, dict(keys), it)
                    cnt_keys = {k: subst(at_iter(k), {}) for k in keys if affine_in(at_iter(k), it)}
                    nit = mk("iter", n, depth)
                    sd = {k: subst(v, {it.dig: nit}) for k, v in cnt_keys.items()}
                    del self.events[nev:]
                    self.S = pre
                    self.nfid, self.nalloc = ctr[0], ctr[1]
                    self.ninst = dict(ctr[2])
                    return self.loop_run(n, body, node, brkkeys, lp, sd, _retry + 1, leave)
            if D is not INF and counted(stop_x, it) is D:
                # the domain was counted from this very condition
                never, stop_x, N = not_(stop_x), FALSE, D
            else:
                h, cb_ = close(stop_x, it)
                N = mk("until", *TT.rebind((D, h, cb_)))
                if D is INF and "$poll" in self.hooks:
                    lost = True
        else:
            N = D
        stop_holder[0] = N
        memo.clear()
        for k in list(keys):
            if k not in memo:
                resolve(k)
        # events
        m = {mu.dig: at_iter(k) for k, mu in keys.items()}
        for e in self.events[nev:]:
            e.args = tuple(subst(a, m) for a in e.args)
            e.kw = tuple((kk, subst(a, m)) for kk, a in e.kw)
            e.guard = subst(e.guard, m)
            e.recv = subst(e.recv, m) if e.recv is not None else None
            e.res = subst(e.res, m) if e.res is not None else None
            n_e = N
            if never is not None:
                e.guard = constrain(e.guard, never)
            if stop_x is not FALSE:
                if and_(e.guard, stop_x) is FALSE:
                    e.guard = constrain(e.guard, not_(stop_x))
                else:
                    n_e = add(N, ONE)
            e.loops = tuple((subst(a, m), n_e if a is it else subst(b, m)) for a, b in e.loops)
            e.ctx = tuple(subst(a, m) for a in e.ctx)
        # state after the loop
        out = pre.copy()
        for k in keys:
            v = memo[k][1]
            if pre.live is not TRUE:
                v = self.gate(k, pre.live, v, initv(k))
            out.vals[k] = v
        for k, v in mine.items():
            out.vals[k] = expand(v)
        self.nfid = max(self.nfid, post_fid(self))
        exists_brk = FALSE
        for k in brkkeys:
            c = post.vals.get(k, FALSE)
            if c is not FALSE and never is None:
                out.vals[k] = mk_exists(N, it, expand(c), D)
        if leave is not None:
            k, val, mus, it0 = leave
            rk = ("e", k[1], "$ret")
            m = {mu.dig: memo[x][1] if x in memo else initv(x) for x, mu in mus.items()}
            val = subst(subst(val, m), {it0.dig: N})
            out.vals[rk] = ite(pre.live, val, pre.vals.get(rk, UNDEF))
            out.vals[k] = or_(pre.vals.get(k, FALSE), pre.live)
            if k[1] in [f.fid for f in self.frames]:
                out.live = FALSE
        elif retinfo:
            last = N
            for k, c in retinfo:
                c = expand(c)
                ex = mk_exists(N, it, c, D)
                rk = ("e", k[1], "$ret")
                val = post.vals.get(rk, UNDEF)
                self.S = post
                val = self.fz(val)
                self.S = pre
                val = strip_guarded(expand(val))
                val = constrain(val, c) if val.op == "ite" else val
                val = subst(val, {it.dig: last})
                oldr = pre.vals.get(rk, UNDEF)
                oldc = pre.vals.get(k, FALSE)
                out.vals[rk] = ite(and_(pre.live, ex), val, oldr)
                out.vals[k] = or_(oldc, and_(pre.live, ex))
                if k[1] in [f.fid for f in self.frames]:
                    out.live = and_(out.live, not_(ex))
        self.S = out
        if lost:
            self.hooks["$poll"](self, None, node)

    def _abs(self, st):
        return st.guard if st.live is TRUE else and_(st.guard, st.live)

    def fz_inner(self, v, maxalloc):
        if contains_new_obj(v, maxalloc):
            return self.fz(v)
        return v

    def solve(self, k, mu, p, ini, it, D, holder):
        """Closed form of  x' = p(x, it), x(0)=ini : (value at iteration it, value after the loop)."""
        N = holder[0] if holder[0] is not None else D
        if p is mu:
            return ini, ini
        if not has(p, mu):
            return self.prev_last(p, ini, it, N, k)
        # list / output growth
        if k[0] == "h" and k[2] in ("$c", "$out") or is_listy(ini):
            seg = grow(p, mu)
            if seg is not None and has(seg, mu) and k[2] != "$out":
                n = seq_len(seg)
                if is_const(n):
                    # grows by the same amount every time: its length is known
                    seg = subst(seg, {mk("len", mu).dig: add(seq_len(self.fz(ini)), mul(n, it))})
            if seg is not None and not has(seg, mu):
                h, b = close(seg, it)
                base = self.fz(ini) if k[2] != "$out" else ini
                return (
                    cat([base, mk_flat(it, h, b)]),
                    cat([base, mk_flat(N, h, b)]),
                )
        if k[0] == "h" and k[2] == "$c":
            ups = dict_grow(p, mu)
            if ups is not None and not has(ups, mu):
                h, b = close(ups, it)
                base = self.fz(ini)
                return (mk_dflat(it, h, b, base), mk_dflat(N, h, b, base))
            seg = tally_grow(p, mu)
            if seg is not None and not has(seg, mu):
                h, b = close(seg, it)
                base = self.fz(ini)
                return (mk_tally(base, mk_flat(it, h, b)), mk_tally(base, mk_flat(N, h, b)))
            if p.op == "upd" and p.args[0] is mu:
                j, cell = p.args[1], mk("idx", mu, p.args[1])
                if not has(j, mu) and not has(j, it):
                    # only one slot is ever touched: solve for the slot
                    m2 = mk("mu", it, "slot", str(mu.dig))
                    q = subst(p.args[2], {cell.dig: m2})
                    if not has(q, mu):
                        base = self.fz(ini)
                        at, after = self.solve(("h", mu, "$c"), m2, q, seq_idx(base, j), it, D, holder)
                        return mk("upd", base, j, at), mk("upd", base, j, after)
                if j is it:
                    # every slot is touched once: its old value is the one before the loop
                    q = subst(p.args[2], {cell.dig: seq_idx(self.fz(ini), it)})
                    if not has(q, mu):
                        p = mk("upd", mu, j, q)
            if p.op == "ite" and own_updates(p, mu, it):
                q = subst(p, {mk("idx", mu, it).dig: seq_idx(self.fz(ini), it)})
                ups = upd_grow(q, mu)
                if ups is not None and not has(ups, mu):
                    p = q
            ups = upd_grow(p, mu)
            if ups is not None and not has(ups, mu):
                h, b = close(ups, it)
                base = self.fz(ini)
                return (mk_scat(it, h, b, base), mk_scat(N, h, b, base))
        cols = columns(p, mu) if ini.op in ("list", "obj") and self.fz(ini) is mk("list") else None
        if cols is not None:
            g, segs = cols
            out = []
            for n in (it, N):
                h, b = close(mk("tuple", g, *[ite_seq(g, x, mk("list")) for x in segs]), it)
                out.append(ite(mk_exists(n, it, g, n), mk("list", *[mk_flat(n, h, x) for x in b.args[1:]]), mk("list")))
            return tuple(out)
        # numeric
        if kind(ini) not in TT.SEQ_KINDS and p.op not in ("fmt", "list", "tuple", "dict", "cat"):
            d = sub(p, mu)
            if not has(d, mu):
                h, b = close(d, it)
                return add(ini, mk_psum(it, h, b)), add(ini, mk_psum(N, h, b))
            if ini is ZERO:
                stepped = steps(p, mu, it)
                if stepped is not None:
                    return tuple(mk_minmax("min", mul(stepped[0], n), stepped[1]) for n in (it, N))
            for w in ("max", "min"):
                rest = max_grow(p, mu, w)
                if rest is not None and not has(rest, mu):
                    h, b = close(rest, it)
                    o = w + "over"
                    return (
                        mk_minmax(w, ini, TT.mk_over(o, it, h, b)),
                        mk_minmax(w, ini, TT.mk_over(o, N, h, b)),
                    )
        base = self.fz(ini) if p.op == "flat" and p.args[2].op == "list" and len(p.args[2].args) == 1 else None
        if base is not None and (p.args[0] is mk("len", mu) or subst(p.args[0], {mk("len", mu).dig: seq_len(base)}) is seq_len(base)):
            # every step replaces each element by a function of that element alone: solve for one element
            slot = mk("iter", seq_len(base), "slot " + str(mu.dig))
            m2 = mk("mu", it, "slot", str(mu.dig))
            q = subst(subst(p.args[2].args[0], {bv(p.args[1]).dig: slot}), {mk("idx", mu, slot).dig: m2})
            if not has(q, mu) and not has(base, it):
                out = []
                for v in self.solve(("h", mu, "$c"), m2, q, seq_idx(base, slot), it, D, holder):
                    h, b = close(mk("list", v), slot)
                    out.append(mk_flat(seq_len(base), h, b))
                return tuple(out)
        if ini in (TRUE, FALSE):
            # a flag that is only ever cleared, or only ever set
            on, off = subst(p, {mu.dig: TRUE}), subst(p, {mu.dig: FALSE})
            if not has(on, mu) and not has(off, mu) and kind(on) == "bool" and kind(off) == "bool":
                if off is FALSE:
                    return tuple(and_(ini, not_(mk_exists(n, it, not_(on), n))) for n in (it, N))
                if on is TRUE:
                    return tuple(or_(ini, mk_exists(n, it, off, n)) for n in (it, N))
        one = one_value(p, mu)
        if one is not None:
            # some rounds give it the one value that any of them gives
            return tuple(ite(mk_exists(n, it, one[0], n), one[1], ini) for n in (it, N))
        once = first_only(p, mu, it)
        if once is not None:
            # the same value from the first round on
            return tuple(ite(eq(n, ZERO), ini, once) for n in (it, N))
        # fold: accumulated value is acc(h)
        h, b = close(subst(p, {mu.dig: mk("acc", 0)}), it)
        b = subst(b, {mk("acc", 0).dig: mk("acc", h)})
        ini2 = self.fz(ini) if ini.op in ("obj", "list", "cat") else ini
        return mk("fold", it, h, b, ini2), mk("fold", N, h, b, ini2)

    def prev_last(self, p, ini, it, N, k):
        if p is ini:
            return p, p
        if not has(p, it):
            pv = p
            lv = p
        else:
            pv = subst(p, {it.dig: sub(it, ONE)})
            lv = subst(p, {it.dig: sub(N, ONE)})
        if ini is UNDEF:
            return pv, lv
        ne = some(N)
        first = eq(it, ZERO)
        return ite(first, ini, pv), ite(ne, lv, ini)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return self.opaque("expr:" + type(e).__name__, e)
        return m(e)

    def evf(self, e):
        return self.fz(self.ev(e))

    def ev_cond(self, e):
        v = self.ev(e)
        return self.simp(self.truth(v))

    def truth(self, v):
        cls = self.class_of(v)
        if cls is not None:
            return TRUE if not (cls.find("__bool__") or cls.find("__len__")) else mk("truthy", v)
        return as_bool(self.fz(v))

    def ex_Constant(self, e):
        if e.value is Ellipsis:
            return mk("ellipsis")
        return const(e.value)

    def ex_Name(self, e):
        return self.ev_name(e.id, e)

    def lookup_env(self, n):
        fr = self.frames[-1]
        if n in fr.globals:
            return None
        fid = fr.nonlocals.get(n)
        if fid is not None:
            return self.S.vals.get(("e", fid, n))
        q = fr
        while q is not None:
            v = self.S.vals.get(("e", q.fid, n))
            if v is not None:
                return v
            q = q.parent
        return None

    def ev_name(self, n, node):
        v = self.lookup_env(n)
        if v is not None:
            return self.simp(v)
        fr = self.frames[-1]
        gk = ("h", mk("module", fr.module.name), n)
        if gk in self.S.vals:
            return self.simp(self.S.vals[gk])
        r = fr.module.lookup(n)
        if r is None:
            if n in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[n])
            if not hasattr(builtins, n) and not n.startswith("__") and fr.func is not None and fr.module.name.startswith("deepgnn") and not fr.module.may_bind(n, fr.func.node):
                self.do_raise("NameError", (), node)
            return mk("ext", n)
        return self.entity(r)

    def entity(self, r):
        if isinstance(r, Func):
            return self.function_term(r, None, None)
        if isinstance(r, Class):
            t = mk("class", r.qual)
            self.FUNCS[t.dig] = (r, None, None)
            return t
        if isinstance(r, Module):
            t = mk("module", r.name)
            self.FUNCS[t.dig] = (r, None, None)
            return t
        if isinstance(r, tuple) and r[0] == "const":
            return self.module_const(r)
        if isinstance(r, tuple) and r[0] == "classattr":
            return self.class_attr(r[1], r[2], None)
        if isinstance(r, str):
            return mk("ext", norm_ext(r))
        return self.opaque("entity")

    def module_const(self, r):
        _, expr, mod = r
        key = (mod.name, id(expr))
        c = self.prog.extra.setdefault("consts", {})
        if isinstance(expr, (ast.Constant, ast.Tuple, ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.Attribute, ast.Name, ast.Call, ast.List, ast.Dict, ast.Set)):
            busy = self.prog.extra.setdefault("busy", set())
            if key in busy:
                return self.opaque("recursive module constant")
            busy.add(key)
            self.frames.append(Frame(-2, None, mod))
            n = len(self.events)
            try:
                if isinstance(expr, ast.Call):
                    r = mod.resolve_expr(expr.func)
                    if isinstance(r, str) and norm_ext(r) in ("TypeVar", "typing.TypeVar"):
                        return mk("ext", "typing.TypeVar")
                v = self.ev(expr)
            finally:
                self.frames.pop()
                del self.events[n:]
                busy.discard(key)
            return v
        return mk("ext", mod.name + ".?")

    def class_attr(self, cls, name, inst):
        if cls.is_enum() and name in {k for c in cls.mro() for k in c.attrs}:
            self.ENUMS["enum:" + cls.name] = cls
            return mk("const", "enum:" + cls.name, cls.name + "." + name)
        fa = cls.find_attr(name)
        if fa is not None:
            owner, expr = fa
            self.frames.append(Frame(-3, None, owner.module))
            try:
                return self.ev(expr)
            finally:
                self.frames.pop()
        t = mk("class", cls.qual)
        self.FUNCS[t.dig] = (cls, None, None)
        return mk("attr", t, name)

    def class_of(self, t):
        if t.op == "inst" and t.dig not in self.CLS:
            return self.MADE.get(t.args[0])
        if t.op in ("inst",) or t.op in ("sym", "attr", "idx", "call", "entered", "capture"):
            return self.CLS.get(t.dig)
        return None

    def ex_Attribute(self, e):
        # module-level dotted access (numpy.array etc.)
        b = self.ev(e.value)
        return self.read_attr(b, e.attr, e)

    def closed(self, b):
        """An object made here whose attributes are all written in known code."""
        if b.op != "inst" or ("h", b, "$new") not in self.S.vals or not str(b.args[0]).startswith("deepgnn"):
            return False
        cls = self.CLS.get(b.dig)
        if cls is None:
            return False
        memo = self.prog.extra.setdefault("closed", {})
        if cls.qual not in memo:
            ok = not (cls.ext_bases() - {"object", "abc.ABC", "ABC", "typing.Generic", "Generic"})
            for k in cls.mro():
                ok = ok and len(k.bases()) == len([x for x in k.bases() if x is not None]) and not k.decorators and not k.node.keywords
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Name) and n.id in ("setattr", "vars", "locals") or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__", "__slots__"):
                        ok = False
                ok = ok and not ({"__getattr__", "__getattribute__", "__setattr__"} & set(k.methods))
            memo[cls.qual] = ok
        return memo[cls.qual]

    def family(self, b, name):
        """Attribute of one of the objects that a loop has made."""
        for k, v in self.S.vals.items():
            if k[0] == "h" and k[2] == name and k[1].op == "inst" and k[1].args[0] == b.args[0]:
                m = {}
                if match_iter(k[1], b, m):
                    return subst(v, {x.dig: y for x, y in m.items()})
        return None

    def lacks(self, b, name):
        """The object certainly has no such attribute."""
        if "." + name in self.hooks:
            return False
        if b is NONE:
            # (loggers are not followed: what gives one is None here)
            return not name.startswith("__") and name not in LOGGER
        if not self.closed(b) or name.startswith("__") or ("h", b, name) in self.S.vals:
            return False
        cls = self.CLS[b.dig]
        return cls.find(name) is None and cls.find_attr(name) is None and cls.find_annot(name) is None and not any(name in k.inner for k in cls.mro())

    def read_attr(self, b, name, node):
        if b.op == "ite":
            if any(self.lacks(x, name) for _, x in cases(b)):
                return self.call_cases(b, lambda x: self.read_attr1(x, name, node))
            return lift(lambda x: self.read_attr1(x, name, node), b)
        return self.read_attr1(b, name, node)

    def read_attr1(self, b, name, node):
        v = self.S.vals.get(("h", b, name))
        if v is None and b.op == "inst" and b.dig not in self.OWN:
            v = self.family(b, name)
        if v is not None:
            return self.simp(v)
        if self.lacks(b, name):
            self.do_raise("AttributeError", (), node)
            return mk("attr", b, name)
        if b.op == "ext":
            return self.entity(self.prog.resolve_dotted(b.args[0] + "." + name)) if b.args[0].startswith("deepgnn") else mk("ext", norm_ext(b.args[0] + "." + name))
        if b.op == "module":
            m = self.FUNCS[b.dig][0]
            gk = ("h", b, name)
            return self.entity(self.prog.member(m, name))
        if b.op == "class":
            c = self.FUNCS[b.dig][0]
            if name in c.inner:
                return self.entity(c.inner[name])
            f = c.find(name)
            if f is not None:
                ds = f.decorators
                return self.function_term(f, None, b if "classmethod" in ds else None)
            if name == "__name__":
                return const(c.name)
            return self.class_attr(c, name, None)
        if b.op == "obj":
            if b.args[0] == "nd" and name in ("shape", "dtype", "size", "ndim", "T", "nbytes", "itemsize"):
                return mk("attr", self.fz(b), name)
            return mk("attr" if b.args[0] == "nd" and name == "ctypes" else "bmeth", b, name)
        cls = self.class_of(b)
        if name in HANDLES and (cls is None or cls.find(name) is None):
            return mk("bmeth", b, name)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                ds = f.decorators
                if "property" in ds or "functools.cached_property" in ds or "cached_property" in ds:
                    ft = self.function_term(f, None, b)
                    return self.call_value(ft, [], {}, node) if f.qual in self.hooks else self.invoke(ft, [], {}, node)
                if "staticmethod" in ds:
                    return self.function_term(f, None, None)
                if "classmethod" in ds:
                    ct = mk("class", cls.qual)
                    self.FUNCS[ct.dig] = (cls, None, None)
                    return self.function_term(f, None, ct)
                return self.function_term(f, None, b)
            if name == "__class__":
                t = mk("class", cls.qual)
                self.FUNCS[t.dig] = (cls, None, None)
                return t
            if cls.find_attr(name) is not None and b.op == "inst":
                return self.class_attr(cls, name, b)
            t = mk("attr", b, name)
            an = cls.find_annot(name)
            if an is not None and t.dig not in self.CLS:
                self.type_term(t, an[1], an[0].module)
            return t
        if b.op == "const" and b.args[0].startswith("enum:") and name in ("value", "name"):
            if name == "name":
                return const(b.args[1].split(".")[-1])
            c = self.ENUMS.get(b.args[0])
            fa = c.find_attr(b.args[1].split(".")[-1]) if c else None
            if fa is not None:
                self.frames.append(Frame(-3, None, fa[0].module))
                try:
                    return self.ev(fa[1])
                finally:
                    self.frames.pop()
            return mk("attr", b, name)
        fb = self.fz(b)
        return mk("attr", fb, name)

    def ex_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev_index(e.slice)
        return self.read_item(b, i, e)

    def read_item(self, b, i, node):
        if b.op == "ite":
            return lift(lambda x: self.read_item(x, i, node), b)
        cls = self.class_of(b)
        if cls is not None and cls.find("__getitem__") is not None:
            return self.invoke(self.function_term(cls.find("__getitem__"), None, b), [i], {}, node)
        if b.op == "ext" and b.args[0] == "os.environ":
            v = self.getenv(i)
            self.branch(isnone(v), lambda: self.do_raise("KeyError", (), node), lambda: None)
            return v
        if b.op in ("ext", "class"):
            return b
        c = self.content(b)
        if c.op in ("list", "tuple", "dict", "dupd", "upd", "cat"):
            r = seq_idx(c, i)
            if r.op == "obj":
                return r
            if b.op == "obj" and i.op == "slice":
                return self.alloc("list", seq_idx(self.fz(c), i)) if is_listy(c) else seq_idx(self.fz(c), i)
            if contains_new_obj(r, -1):
                return self.simp(self.fz(r))
            return self.simp(r)
        r = self.simp(seq_idx(self.fz(c), i))
        return self.alloc("list", r) if b.op == "obj" and b.args[0] == "list" and i.op == "slice" else r

    def ex_Tuple(self, e):
        return mk("tuple", *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                c = self.content(v)
                if v.op == "gen":
                    c = self.fz(v)
                if c.op in ("keysof", "items", "valsof"):
                    c = spelled(c)
                if c.op in ("list", "tuple"):
                    out += list(c.args)
                else:
                    out.append(mk("star", self.fz(c)))
            else:
                out.append(self.ev(x))
        return out

    def ex_List(self, e):
        els = self.elts(e.elts)
        if any(x.op == "star" for x in els):
            return self.alloc("list", cat([x.args[0] if x.op == "star" else mk("list", x) for x in els]))
        return self.alloc("list", mk("list", *els))

    def ex_Set(self, e):
        return self.alloc("set", mk("list", *self.elts(e.elts)))

    def ex_Dict(self, e):
        cur = mk("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.fz(self.ev(v))
                if x.op == "dict":
                    for p in x.args:
                        cur = dict_upd(cur, p.args[0], p.args[1])
                else:
                    cur = mk("dmerge", cur, x) if cur.args else x
            else:
                kk = self.evf(k)
                cur = dict_upd(cur, kk, self.ev(v))
        return self.alloc("dict", cur)

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.evf(v.value)
                if v.format_spec is not None:
                    x = mk("call", "format", (x, self.ev(v.format_spec)), (), NONE)
                elif v.conversion == 114:
                    x = mk("call", "repr", (x,), (), NONE)
                parts.append(x)
        return lift(lambda *ps: fmt(ps), *parts) if parts else EMPTYSTR

    def ex_FormattedValue(self, e):
        return self.evf(e.value)

    def ex_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return not_(self.truth(self.ev(e.operand)))
        v = self.evf(e.operand)
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("un", "~", v)

    def ex_BinOp(self, e):
        if isinstance(e.op, ast.Add) and isinstance(e.left, ast.BinOp) and isinstance(e.left.op, ast.Add):
            # a chain of additions with a text in it joins texts
            chain = [e.right]
            x = e.left
            while isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                chain.append(x.right)
                x = x.left
            vals = [self.ev(y) for y in [x] + chain[::-1]]
            frozen = [self.fz(v) for v in vals]
            if any(kind(v) == "str" for v in frozen):
                return fmt(frozen)
            out = vals[0]
            for v in vals[1:]:
                out = self.binop(e.op, out, v, e)
            return out
        return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)

    def binop(self, op, a, b, node):
        ra, rb = a, b
        ca = self.class_of(a)
        a, b = self.fz(a), self.fz(b)
        n = type(op).__name__
        if n == "Add":
            r = add(a, b)
            if is_listy(r) or r.op == "cat":
                return self.alloc("list", r)
            return r
        if n == "Sub":
            return sub(a, b)
        if n == "Mult":
            for x, y in ((a, b), (b, a)):
                if x.op == "ext" and x.args[0].startswith("ctypes."):
                    return mk("carray", x, y)
            r = mul(a, b)
            if (ra.op == "obj" or rb.op == "obj") and (r.op in ("repeat", "list")):
                src = self.content(ra if ra.op == "obj" else rb)
                if src.op == "list" and any(x.op == "obj" for x in src.args):
                    # rows of the product are one shared object
                    r = mk("shared", r)
                return self.alloc("list", r)
            return r
        if n == "FloorDiv":
            return floordiv(a, b)
        if n == "Mod":
            return mod(a, b)
        if n == "Div":
            if kind(b) == "str" or kind(a) == "str" or b.op == "fmt":
                return self.pathjoin([a, b])
            return truediv(a, b)
        if n == "Pow" and is_num_const(a) and is_num_const(b) and abs(cval(b)) < 128:
            return const(cval(a) ** cval(b))
        if n == "LShift" and is_num_const(b):
            return mul(a, const(2 ** cval(b)))
        if n in ("BitAnd", "BitOr") and all(kind(x) == "bool" for x in (a, b)):
            return and_(a, b) if n == "BitAnd" else or_(a, b)
        sy = {"Pow": "**", "LShift": "<<", "RShift": ">>", "BitAnd": "&", "BitOr": "|", "BitXor": "^", "MatMult": "@"}.get(n, n)
        if sy in ("&", "|", "^"):
            a, b = sorted((a, b), key=lambda x: x.dig)
        return lift(lambda x, y: mk("bin", sy, x, y), a, b)

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, isand)

    def boolop(self, vals, isand):
        a = self.ev(vals[0])
        if len(vals) == 1:
            return a
        ca = self.simp(self.truth(a))
        if ca is (FALSE if isand else TRUE):
            return a
        if ca is (TRUE if isand else FALSE):
            return self.boolop(vals[1:], isand)
        res = []

        def f():
            res.append(self.boolop(vals[1:], isand))

        cond = ca if isand else not_(ca)
        s1 = self.region(cond, f)
        s2 = self.region(not_(cond), lambda: None)
        self.merge(cond, s1, s2)
        b = res[0] if res else UNDEF
        if a.op == "obj" or b.op == "obj":
            return ite(ca, b, a) if isand else ite(ca, a, b)
        if kind(a) == "bool":
            # value is only ever a truth value on the other side
            if isand:
                return ite(ca, b, FALSE)
            return ite(ca, TRUE, b)
        fa = self.fz(a)
        return ite(ca, b, fa) if isand else ite(ca, fa, b)

    def ex_Compare(self, e):
        left = self.ev(e.left)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            out = and_(out, self.compare(op, left, right))
            left = right
        return out

    def compare(self, op, a, b):
        n = type(op).__name__
        ra, rb = a, b
        a, b = self.fz(a), self.fz(b)
        if n in ("Is", "IsNot", "Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                if x.op == "call" and x.args[0] == "type" and len(x.args[1]) == 1 and y.op == "ext" and ("." in y.args[0] or y.args[0] == "int"):
                    # classes outside the repository are taken to have no further subclasses
                    r = self.isinst(x.args[1][0], x.args[1][0], y)
                    return r if n in ("Is", "Eq") else not_(r)
                if x.op == "call" and x.args[0] == "type" and len(x.args[1]) == 1 and y.op == "ext" and y.args[0] in ("list", "tuple", "dict") and x.args[1][0].op in ("list", "tuple", "dict"):
                    return const((x.args[1][0].op == y.args[0]) == (n in ("Is", "Eq")))
        if n in ("Is", "IsNot"):
            if ra.op in ("obj", "inst") and rb.op in ("obj", "inst"):
                r = const(ra is rb)
            else:
                r = eq(a, b)
            return r if n == "Is" else not_(r)
        if n == "Eq":
            return eq(a, b)
        if n == "NotEq":
            return not_(eq(a, b))
        if n in ("Lt", "LtE", "Gt", "GtE") and any(drawn(x) for x in (a, b)):
            # an array is compared element by element
            x, y = (a, b) if n[0] == "L" else (b, a)
            return mk("call", "np.less_equal" if n.endswith("E") else "np.less", (x, y), (), NONE)
        if n == "Lt":
            return lt(a, b)
        if n == "LtE":
            return le(a, b)
        if n == "Gt":
            return lt(b, a)
        if n == "GtE":
            return le(b, a)
        if n in ("In", "NotIn") and b.op == "ext" and b.args[0] == "os.environ":
            r = isnone(self.getenv(a))
            return r if n == "NotIn" else not_(r)
        if n == "In":
            return mk_in(a, b)
        if n == "NotIn":
            return not_(mk_in(a, b))
        return self.opaque("cmp")

    def ex_IfExp(self, e):
        c = self.ev_cond(e.test)
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        res = {}

        def f(k, x):
            def g():
                res[k] = self.ev(x)

            return g

        s1 = self.region(c, f(0, e.body))
        s2 = self.region(not_(c), f(1, e.orelse))
        self.merge(c, s1, s2)
        a, b = res.get(0, UNDEF), res.get(1, UNDEF)
        return ite(c, a, b)

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind_name(e.target.id, v)
        return v

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        q = fr.func.qual if fr.func else fr.module.name
        f = Func(fr.module, e, q + ".<lambda>", None)
        return self.function_term(f, fr, None)

    def ex_Starred(self, e):
        return mk("star", self.evf(e.value))

    def ex_Await(self, e):
        return self.ev(e.value)

    def ex_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        if self.yield_cb:
            fr, cb = self.yield_cb[-1]
            if fr is not None and self.frames[-1] is fr:
                return cb(v, e)
            for fr, cb in reversed(self.yield_cb):
                if fr is self.frames[-1]:
                    return cb(v, e)
        self.emit("yield", "yield", (self.fz(v),), node=e)
        return NONE

    def ex_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        for f2, cb in reversed(self.yield_cb):
            if f2 is fr:
                self.iterate(v, lambda x: cb(x, e), e, None)
                return NONE
        self.iterate(v, lambda x: self.emit("yield", "yield", (self.fz(x),), node=e), e, None)
        return NONE

    # comprehensions
    def comp(self, gens, emit):
        g = gens[0]
        itv = self.ev(g.iter)

        def body(elem):
            self.assign(g.target, elem)
            c = TRUE

            def go(ifs):
                if not ifs:
                    if len(gens) > 1:
                        self.comp(gens[1:], emit)
                    else:
                        emit()
                    return
                cc = self.ev_cond(ifs[0])
                self.branch(cc, lambda: go(ifs[1:]), lambda: None)

            go(g.ifs)

        self.iterate(itv, body, g.iter, None)

    def run_comp(self, e, kind_, emit_fn):
        fr = self.frames[-1]
        names = []
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.append(x.id)
        # evaluate in a child frame so that targets do not leak
        self.nfid += 1
        cf = Frame(self.nfid, fr.func, fr.module, fr, fr.cls)
        cf.globals = fr.globals
        cf.selfterm = fr.selfterm
        o = self.alloc(kind_, mk("dict") if kind_ == "dict" else mk("list"))
        self.frames.append(cf)
        try:
            self.comp(e.generators, lambda: emit_fn(o))
        finally:
            self.frames.pop()
        return o

    def ex_ListComp(self, e):
        return self.run_comp(e, "list", lambda o: self.list_append(o, self.ev(e.elt)))

    def ex_GeneratorExp(self, e):
        return self.ex_ListComp(e)

    def ex_SetComp(self, e):
        return self.run_comp(e, "set", lambda o: self.list_append(o, self.ev(e.elt)))

    def ex_DictComp(self, e):
        def f(o):
            k = self.evf(e.key)
            v = self.ev(e.value)
            self.setv(("h", o, "$c"), dict_upd(self.getv(("h", o, "$c")), k, v))

        return self.run_comp(e, "dict", f)

    # ------------------------------------------------------------ containers
    def list_append(self, o, v):
        cur = self.content(o)
        if cur.op in ("obj",):
            cur = mk("list")
        if v.op in ("gen", "func"):
            v = self.fz(v)
        self.set_content(o, cat([self.listify(cur), mk("list", v)]))

    def listify(self, c):
        return c

    def list_extend(self, o, v):
        cur = self.content(o)
        if v.op == "gen":
            v = self.fz(v)
        x = self.content(v)
        if x.op == "tuple":
            x = mk("list", *x.args)
        self.set_content(o, cat([cur, self.as_list(x)]))

    def as_list(self, x):
        """Term for list(x)."""
        x = self.fz(x)
        if x.op == "tuple":
            return mk("list", *x.args)
        if is_listy(x) or x.op in ("repeat",):
            return x
        if x.op in ("enum", "zip", "items", "valsof", "keysof", "reversed", "range"):
            n = seq_len(x)
            if is_const(n) and isinstance(cval(n), int) and cval(n) <= 12:
                return mk("list", *[seq_idx(x, const(i)) for i in range(cval(n))])
            if x.op == "keysof":
                return x
            return mk_flat(n, 1 + height(x), mk("list", seq_idx(x, bv(1 + height(x)))))
        return x

    # ------------------------------------------------------------ calls
    def ex_Call(self, e):
        fn = e.func
        # super().method(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            return self.call_super(e)
        if self.is_log(fn):
            for a in e.args:
                if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(a)):
                    n = len(self.events)
                    self.ev(a) if not isinstance(a, ast.Starred) else None
            return NONE
        if isinstance(fn, ast.Attribute):
            b = self.ev(fn.value)
            args, kw = self.args(e)
            return self.call_attr(b, fn.attr, args, kw, e)
        f = self.ev(fn)
        args, kw = self.args(e)
        return self.call_value(f, args, kw, e)

    def is_log(self, fn):
        parts = []
        x = fn
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if isinstance(x, ast.Call):
            x = x.func
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                parts.append(x.id)
            return any(p in ("get_logger", "getLogger") for p in parts)
        if not isinstance(x, ast.Name):
            return False
        parts.append(x.id)
        parts.reverse()
        if parts[0] == "print" and len(parts) == 1:
            return True
        if parts[0] in ("logging", "warnings", "logger", "log_telemetry") and self.lookup_env(parts[0]) is None:
            return parts[-1] not in ("getLogger", "get_logger", "Logger") or False
        if parts[0] == "log_telemetry":
            return True
        if len(parts) >= 2 and parts[-2] in ("logger", "_logger", "log") and parts[-1] in ("info", "debug", "warning", "error", "exception", "critical", "warn"):
            return True
        return False

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if v.op == "gen":
                    v = self.fz(v)
                c = self.content(v)
                if c.op in ("list", "tuple"):
                    args += list(c.args)
                elif c.op == "ite" and all(x.op in ("tuple", "list") for _, x in cases(c)) and len({len(x.args) for _, x in cases(c)}) == 1:
                    n = len(cases(c)[0][1].args)
                    args += [lift(lambda x: seq_idx(x, const(i)), c) for i in range(n)]
                else:
                    args.append(mk("star", self.fz(c)))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                c = self.content(v)
                if c.op == "dict" and all(is_const(p.args[0]) for p in c.args):
                    for p in c.args:
                        kw[cval(p.args[0])] = p.args[1]
                else:
                    kw["**"] = self.fz(c)
            else:
                kw[k.arg] = v
        return args, kw

    def call_super(self, e):
        args, kw = self.args(e)
        fr = self.frames[-1]
        while fr is not None and fr.selfterm is None and fr.parent is not None:
            fr = fr.parent
        name = e.func.attr
        cls = fr.cls if fr else None
        me = fr.selfterm if fr else None
        if e.func.value.args and me is not None:
            named = self.ev(e.func.value.args[0])
            if named.op == "class":
                cls = self.FUNCS[named.dig][0]
        if cls is None or me is None:
            return self.opaque("super", e)
        runtime = self.class_of(me) or cls
        mro = runtime.mro()
        i = mro.index(cls) if cls in mro else 0
        for c in mro[i + 1:]:
            if name in c.methods:
                return self.invoke(self.function_term(c.methods[name], None, me), args, kw, e)
        h = self.hooks.get("super." + name)
        if h is not None:
            r = h(self, None, me, args, kw, e)
            if r is not None:
                return r
        if name == "__init__":
            eb = runtime.ext_bases()
            fa = [self.fz(a) for a in args]
            self.emit("call", "super.__init__", fa, sorted((k, self.fz(v)) for k, v in kw.items()), me, NONE, e)
            return NONE
        fa = [me] + [self.fz(a) for a in args]
        fk = tuple(sorted((k, self.fz(v)) for k, v in kw.items()))
        res = mk("call", "super." + name, tuple(fa), fk, NONE)
        self.emit("call", "super." + name, fa[1:], fk, me, res, e)
        return res

    def call_value(self, f, args, kw, node):
        if f.op == "ite":
            return self.call_cases(f, lambda x: self.call_value(x, args, kw, node))
        if f.op == "func":
            fn, parent, bound = self.FUNCS[f.dig]
            h = self.hooks.get(fn.qual) or self.hooks.get(fn.name)
            if h is not None:
                r = h(self, f, bound, args, kw, node)
                if r is not None:
                    return r
            if self.pure(fn.qual):
                fa = tuple(self.fz(a) for a in ([bound] if bound is not None and bound.op != "class" else []) + args)
                fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
                fa, fk = self.norm_args(fn, fa, fk, False)
                return mk("call", fn.qual, fa, fk, NONE)
            if self.extern(fn.qual) or any(a.op == "star" for a in args):
                return self.ext_event(fn.qual, ([bound] if bound is not None and bound.op != "class" else []) + args, kw, node, fn=fn)
            if "contextmanager" in "".join(fn.decorators):
                self.nfid += 1
                c = mk("ctxmgr", self.nfid, fn.qual)
                self.GENS[c.dig] = (f, args, kw)
                return c
            return self.invoke(f, args, kw, node)
        if f.op == "class":
            return self.construct(self.FUNCS[f.dig][0], args, kw, node)
        if f.op == "ext":
            return self.call_ext(f.args[0], args, kw, node)
        if f.op == "bmeth":
            return self.call_attr(f.args[0], f.args[1], args, kw, node)
        if f.op == "partial":
            return self.call_value(f.args[0], list(f.args[1]) + args, {**dict(f.args[2]), **kw}, node)
        if f.op == "lambda":
            if len(args) == f.args[0] and not kw:
                return subst(f.args[1], {mk("lamv", i).dig: self.fz(a) for i, a in enumerate(args)})
        cls = self.class_of(f)
        if cls is not None and cls.find("__call__"):
            return self.call_value(self.function_term(cls.find("__call__"), None, f), args, kw, node)
        if f.op == "attr":
            return self.method_event(f.args[0], f.args[1], args, kw, node)
        if f.op in ("poly", "carray"):
            # item type * length: a ctypes array
            return self.call_ext("ctypes.Array", [f] + list(args), kw, node)
        # unknown callable value
        fa = tuple(self.fz(a) for a in args)
        fk = tuple(sorted((k, self.fz(v)) for k, v in kw.items()))
        res = mk("call", f, fa, fk, NONE)
        self.emit("call", "<value>", fa, fk, f, res, node)
        return res

    def call_cases(self, v, fn):
        res = []
        cs = cases(v)
        out = None
        rest = TRUE
        for g, x in cs:
            box = []
            st = self.region(g, lambda: box.append(fn(x)))
            st2 = self.region(not_(g), lambda: None)
            self.merge(g, st, st2)
            val = box[0] if box else UNDEF
            out = val if out is None else ite(g, val, out)
        return out

    def construct(self, cls, args, kw, node):
        h = self.hooks.get("new:" + cls.name)
        if h is not None:
            r = h(self, cls, None, args, kw, node)
            if r is not None:
                return r
        if self.extern(cls.qual):
            return self.ext_event(cls.qual, args, kw, node, cls=cls)
        if cls.is_enum():
            return mk("call", cls.name, tuple(self.fz(a) for a in args), (), NONE)
        fa = tuple(self.fz(a) if a.op != "inst" else a for a in args)
        fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
        sig = mk("sig", cls.qual, fa, fk)
        n = self.ninst.get(sig.dig, 0) + 1
        self.ninst[sig.dig] = n
        t = mk("inst", cls.qual, sig, n)
        self.CLS[t.dig] = cls
        self.OWN.add(t.dig)
        self.MADE[cls.qual] = cls
        f = cls.find("__init__")
        self.S.vals[("h", t, "$new")] = TRUE
        self.emit("new", cls.qual, fa, fk, None, t, node)
        if f is not None:
            self.invoke(self.function_term(f, None, t), args, kw, node)
        else:
            fields = []
            for c in reversed(cls.mro()):
                for n_ in c.annots:
                    if n_ not in fields:
                        fields.append(n_)
            if fields:
                for n_, v in zip(fields, args):
                    self.setv(("h", t, n_), v)
                for k, v in kw.items():
                    self.setv(("h", t, k), v)
                for n_ in fields[len(args):]:
                    if n_ not in kw and cls.find_attr(n_):
                        self.setv(("h", t, n_), self.class_attr(cls, n_, None))
        return t

    def ext_event(self, name, args, kw, node, fn=None, cls=None):
        fa = tuple(self.fz(a) for a in args)
        fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
        if fn is not None or cls is not None:
            target = fn or cls.find("__init__")
            if target is not None:
                fa, fk = self.norm_args(target, fa, fk, cls is not None or (fn is not None and fn.cls is not None and False))
        ver = NONE
        k = ("h", mk("ext", name), "$ver")
        if cls is None:
            ver = self.getv(k)
            self.setv(k, add(ver, ONE))
        else:
            sig = mk("sig", name, fa, fk)
            n = self.ninst.get(sig.dig, 0) + 1
            self.ninst[sig.dig] = n
            ver = const(n)
        res = mk("call", name, fa, fk, ver)
        if cls is not None:
            self.CLS[res.dig] = cls
        elif fn is not None and fn.node.returns is not None:
            self.type_term(res, fn.node.returns, fn.module)
        self.emit("call", name, fa, fk, None, res, node)
        return res

    def norm_args(self, f, fa, fk, skip_self):
        """Positional/keyword spelling of a repository call made uniform: all keywords."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            pos = pos[1:]
        if a.vararg is not None or len(fa) > len(pos) or any(x.op == "star" for x in fa):
            return fa, fk
        d = dict(zip(pos, fa))
        d.update(dict(fk))
        if "**" not in d:
            ds = list(zip(pos[len(pos) - len(a.defaults):] if a.defaults else [], a.defaults)) + [
                (x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None
            ]
            for n, v in ds:
                if n not in d:
                    self.frames.append(Frame(-1, f, f.module))
                    d[n] = self.fz(self.ev(v))
                    self.frames.pop()
        return (), tuple(sorted(d.items(), key=lambda x: x[0]))

    def call_method(self, b, name, args, kw, node):
        return self.call_attr(b, name, args, kw, node)

    def call_attr(self, b, name, args, kw, node):
        if b.op == "ite":
            return self.call_cases(b, lambda x: self.call_attr(x, name, args, kw, node))
        if b.op in ("ext", "module", "class"):
            return self.call_value(self.read_attr1(b, name, node), args, kw, node)
        v = self.S.vals.get(("h", b, name))
        if v is not None:
            return self.call_value(v, args, kw, node)
        cls = self.class_of(b)
        if cls is not None:
            f = cls.find(name)
            if f is not None:
                return self.call_value(self.read_attr1(b, name, node), args, kw, node)
        if self.lacks(b, name):
            self.do_raise("AttributeError", (), node)
            return NONE
        return self.method_event(b, name, args, kw, node)

    def pathjoin(self, parts):
        out = []
        for p in parts:
            if p.op == "call" and p.args[0] == "os.path.join" and not p.args[2]:
                out += list(p.args[1])
            else:
                out.append(p)
        return mk("call", "os.path.join", tuple(out), (), NONE)

    def bytes_of(self, t):
        """Fields written for a value."""
        t = self.fz(t)
        if t.op == "bytes":
            return list(t.args)
        if t.op == "fld":
            return [t]
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0] in ("bytes", "bytearray", "memoryview") and len(t.args[1]) == 1:
            return self.bytes_of(t.args[1][0])
        if t.op == "call" and isinstance(t.args[0], str) and t.args[0].startswith("ctypes."):
            c = CT.get(t.args[0][7:])
            if c and len(t.args[1]) == 1:
                return [mk("fld", c, unint(t.args[1][0]))]
        return [t]

    def method_event(self, b, name, args, kw, node):
        h = self.hooks.get("." + name)
        if h is not None:
            r = h(self, b, args, kw, node)
            if r is not None:
                return r
        m = getattr(self, "me_" + name, None)
        if m is not None:
            r = m(b, args, kw, node)
            if r is not None:
                return r
        fb = self.fz(b)
        fa = tuple(self.fz(a) for a in args)
        fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
        if is_const(fb) and isinstance(cval(fb), str) and name in STR_FOLD and not fk and all(is_const(a) and isinstance(cval(a), (str, int)) for a in fa):
            try:
                v = getattr(cval(fb), name)(*[cval(a) for a in fa])
            except (TypeError, ValueError):
                v = None
            if isinstance(v, (str, bool, int)):
                return const(v)
            if isinstance(v, (list, tuple)):
                return mk("list" if isinstance(v, list) else "tuple", *[const(x) for x in v])
        if name == "ravel" and not fa and not fk:
            name = "flatten"
        if name in ("flatten", "ravel", "tolist") and not fa and not fk and literal(fb) is not None:
            return fb if name != "tolist" else self.alloc("list", literal(fb))
        if name in PURE_METHODS and name not in MUTATORS:
            res = lift(lambda x, *ys: mk("call", "." + name, (x,) + tuple(ys), fk, NONE), fb, *fa) if len(fa) < 3 else mk("call", "." + name, (fb,) + fa, fk, NONE)
            if name in ("split", "rsplit", "splitlines", "tolist"):
                return self.alloc("list", res)
            return res
        recv = b if b.op in ("inst", "sym", "attr") else fb
        k = ("h", recv, "$ver")
        ver = self.getv(k)
        self.setv(k, add(ver, ONE))
        res = mk("call", "." + name, (recv,) + fa, fk, ver)
        self.emit("call", "." + name, fa, fk, recv, res, node)
        return res

    # ---- methods with known meaning
    def me_append(self, b, args, kw, node):
        if len(args) != 1 or kw:
            return None
        if b.op != "obj":
            self.emit("call", ".append", (self.fz(args[0]),), (), b, NONE, node)
        self.list_append(b, args[0])
        return NONE

    def me_extend(self, b, args, kw, node):
        if len(args) != 1:
            return None
        if b.op != "obj":
            self.emit("call", ".extend", (self.fz(args[0]),), (), b, NONE, node)
        self.list_extend(b, args[0])
        return NONE

    def me_add(self, b, args, kw, node):
        if b.op == "obj" and b.args[0] == "set" and len(args) == 1:
            self.list_append(b, args[0])
            return NONE
        return None

    def me_clear(self, b, args, kw, node):
        if b.op == "obj":
            self.set_content(b, mk("dict") if b.args[0] == "dict" else mk("list"))
            return NONE
        return None

    def me_insert(self, b, args, kw, node):
        if b.op == "obj" and len(args) == 2 and args[0] is ZERO:
            self.set_content(b, cat([mk("list", args[1]), self.content(b)]))
            return NONE
        return None

    def me_pop(self, b, args, kw, node):
        c = self.content(b)
        if b.op == "obj" and b.args[0] == "list" and c.op == "list" and c.args:
            i = -1
            if args:
                if not (is_const(args[0]) and isinstance(cval(args[0]), int)):
                    i = None
                else:
                    i = cval(args[0])
            if i is not None and -len(c.args) <= i < len(c.args):
                v = c.args[i]
                a = list(c.args)
                del a[i]
                self.set_content(b, mk("list", *a))
                return v
        if b.op == "obj":
            fa = tuple(self.fz(a) for a in args)
            fc = self.fz(b)
            v = mk("popped", fc, fa)
            if b.args[0] == "dict" and args:
                v = seq_idx(fc, fa[0]) if len(fa) == 1 else ite(mk_in(fa[0], fc), seq_idx(fc, fa[0]), fa[1])
            self.set_content(b, mk("deleted", fc, fa[0] if fa else const(-1)))
            return v
        return None

    def me_update(self, b, args, kw, node):
        if b.op == "obj" and b.args[0] == "dict" and len(args) <= 1 and "**" not in kw:
            cur = self.content(b)
            for x in [self.fz(x) for x in args]:
                if x.op == "dict":
                    for p in x.args:
                        cur = dict_upd(cur, p.args[0], p.args[1])
                else:
                    cur = mk("dmerge", self.fz(cur), x)
            for k, v in kw.items():
                cur = dict_upd(cur, const(k), self.fz(v))
            self.set_content(b, cur)
            return NONE
        if b.op == "obj" and b.args[0] == "set" and len(args) == 1:
            self.list_extend(b, args[0])
            return NONE
        return None

    def me_setdefault(self, b, args, kw, node):
        if b.op == "obj" and b.args[0] == "dict" and len(args) == 2:
            fc = self.fz(b)
            k = self.fz(args[0])
            c = mk_in(k, fc)
            v = ite(c, seq_idx(fc, k), self.fz(args[1]))
            self.set_content(b, dict_upd(self.content(b), k, v))
            return v
        return None

    def me_get(self, b, args, kw, node):
        fc = self.fz(b)
        named = args and len(args) < 3 and not kw and is_const(self.fz(args[0])) and isinstance(cval(self.fz(args[0])), str)
        if self.dictish(b, fc) or named and fc.op in ("sym", "attr", "call", "idx", "bv", "lamv", "iter"):
            k = self.fz(args[0])
            d = self.fz(args[1]) if len(args) > 1 else self.fz(kw["default"]) if "default" in kw else NONE
            if d.op == "fn" or d.op == "lambda":
                return None
            return lift(lambda fc, k: ite(mk_in(k, fc), seq_idx(fc, k), d), fc, k)
        # queue.get and friends are effects
        if b.op in ("attr", "call", "sym", "idx") and not args or "timeout" in kw or "block" in kw:
            return self.effect(b, "get", args, kw, node)
        return None

    def dictish(self, b, fc):
        return (b.op == "obj" and b.args[0] == "dict") or fc.op in ("dict", "dupd", "dflat", "dmerge") or fc.dig in self.MAPPINGS

    def effect(self, b, name, args, kw, node):
        fa = tuple(self.fz(a) for a in args)
        fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
        recv = b if b.op in ("inst", "sym", "attr") else self.fz(b)
        k = ("h", recv, "$ver")
        ver = self.getv(k)
        self.setv(k, add(ver, ONE))
        res = mk("call", "." + name, (recv,) + fa, fk, ver)
        self.emit("call", "." + name, fa, fk, recv, res, node)
        return res

    def me_keys(self, b, args, kw, node):
        fc = self.fz(b)
        return mk("keysof", fc)

    def me_values(self, b, args, kw, node):
        return mk("valsof", self.fz(b))

    def me_items(self, b, args, kw, node):
        return mk("items", self.fz(b))

    def me_copy(self, b, args, kw, node):
        if b.op == "obj":
            return self.alloc(b.args[0], self.content(b))
        return None

    def me_format(self, b, args, kw, node):
        fb = self.fz(b)
        if is_const(fb) and isinstance(cval(fb), str):
            fa = [self.fz(a) for a in args]
            fk = {k: self.fz(v) for k, v in kw.items()}
            r = strformat(cval(fb), fa, fk)
            if r is not None:
                return r
        return None

    def me_join(self, b, args, kw, node):
        fb = self.fz(b)
        if is_const(fb) and isinstance(cval(fb), str) and len(args) == 1:
            x = self.fz(args[0])
            if x.op in ("list", "tuple"):
                parts = []
                for i, y in enumerate(x.args):
                    if i:
                        parts.append(fb)
                    parts.append(y)
                return fmt(parts)
            return mk("call", ".join", (fb, x), (), NONE)
        if fb.op == "ext" and fb.args[0] in ("os.path.sep", "os.sep") and len(args) == 1:
            x = self.fz(args[0])
            if x.op in ("list", "tuple"):
                return self.pathjoin(list(x.args))
        if len(args) == 1 and not kw and (fb.op in ("sym", "attr", "idx", "call", "fmt", "ite") and not is_num_const(fb) or fb.op == "ext" and fb.args[0] == "os.linesep"):
            x = self.fz(args[0])
            if x.op in ("list", "tuple") and x.args and not any(y.op == "star" for y in x.args):
                return lift(lambda s, *ys: fmt([p for y in ys for p in (s, y)][1:]), fb, *x.args)
        if kind(fb) in ("str",) and len(args) == 1:
            return mk("call", ".join", (fb, self.fz(args[0])), (), NONE)
        return None

    def me_startswith(self, b, args, kw, node):
        return self.affix(b, "startswith", args, kw, node)

    def me_endswith(self, b, args, kw, node):
        return self.affix(b, "endswith", args, kw, node)

    def affix(self, b, name, args, kw, node):
        x = self.fz(args[0]) if len(args) == 1 and not kw else NONE
        if x.op != "tuple":
            return None
        out = FALSE
        for y in x.args:
            out = or_(out, self.truth(self.call_attr(b, name, [y], {}, node)))
        return out

    def me_open(self, b, args, kw, node):
        """Opening a file: the stream is identified by its path and mode."""
        if not args and "path" not in kw:
            if b.op in ("attr", "sym", "inst", "obj"):
                return None
            args = [b]
        elif args and is_const(args[0]) and cval(args[0]) in ("rb", "wb", "r", "w"):
            args = [b] + args
        return self.open_stream(args, kw, node)

    def xf_open(self, args, kw, node):
        return self.open_stream(args, kw, node)

    def open_stream(self, args, kw, node):
        a = [self.fz(x) for x in args]
        k = {n: self.fz(v) for n, v in kw.items()}
        path = a[0] if a else k.pop("path", k.pop("file", UNDEF))
        mode = a[1] if len(a) > 1 else k.pop("mode", const("r"))
        fk = tuple(sorted(k.items()))
        sig = mk("sig", "open", (path, mode), fk)
        n = self.ninst.get(sig.dig, 0) + 1
        self.ninst[sig.dig] = n
        res = mk("call", "open", (path, mode), fk, const(n))
        self.emit("call", "open", (path, mode), fk, None, res, node)
        return res

    def me_joinpath(self, b, args, kw, node):
        return self.pathjoin([self.fz(b)] + [self.fz(a) for a in args])

    def me_write(self, b, args, kw, node):
        if len(args) != 1:
            return None
        flds = self.bytes_of(args[0])
        recv = b if b.op in ("inst", "sym", "attr") else self.fz(b)
        n = ZERO
        for f in flds:
            n = add(n, nbytes(f))
        pk = ("h", recv, "$pos")
        ok = ("h", recv, "$out")
        if self.simp(self.getv(("h", recv, "$shut"))) is TRUE:
            self.emit("late", "late", tuple(flds), (), recv, n, node)
        self.setv(pk, add(self.getv(pk), n))
        self.setv(ok, cat([self.getv(ok), mk("list", *flds)]))
        self.emit("write", ".write", tuple(flds), (), recv, n, node)
        return n

    def xf_os_linesep_join(self, args, kw, node):
        return self.me_join(mk("ext", "os.linesep"), args, kw, node)

    def xf_json_dump(self, args, kw, node):
        if len(args) != 2:
            return None
        x = mk("call", "json.dumps", (self.fz(args[0]),), tuple(sorted((k, self.fz(v)) for k, v in kw.items())), NONE)
        self.me_write(args[1], [x], {}, node)
        return NONE

    def me_close(self, b, args, kw, node):
        recv = self.fz(b)
        if not fresh_stream(recv) or args:
            return None
        self.setv(("h", recv, "$shut"), TRUE)
        self.emit("call", ".close", (), (), recv, NONE, node)
        return NONE

    def me_seek(self, b, args, kw, node):
        recv = b if b.op in ("inst", "sym", "attr") else self.fz(b)
        if kw or not args or len(args) > 2 or (len(args) == 2 and args[1] is not ZERO):
            return None
        self.setv(("h", recv, "$pos"), self.fz(args[0]))
        self.emit("call", ".seek", (self.fz(args[0]),), (), recv, args[0], node)
        return self.fz(args[0])

    def me_writelines(self, b, args, kw, node):
        if len(args) != 1 or kw:
            return None
        self.iterate(args[0], lambda x: self.me_write(b, [x], {}, node), node)
        return NONE

    def me_tell(self, b, args, kw, node):
        recv = b if b.op in ("inst", "sym", "attr") else self.fz(b)
        return self.getv(("h", recv, "$pos"))

    def me_sort(self, b, args, kw, node):
        if b.op == "obj":
            x = self.fz(b)
            while x.op == "call" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1:
                x = x.args[1][0]
            self.set_content(b, mk("call", "sorted", (x,), self.keyed(kw), NONE))
            return NONE
        return None

    def me_fill(self, b, args, kw, node):
        if len(args) == 1:
            recv = self.fz(b)
            self.setv(("h", b, "$c"), mk("filled", recv, self.fz(args[0])))
            return NONE
        return None

    def me_to_bytes(self, b, args, kw, node):
        a = [self.fz(x) for x in args]
        if len(a) >= 2 and all(is_const(x) for x in a[:2]):
            n, order = cval(a[0]), cval(a[1])
            s = kw.get("signed", FALSE)
            ch = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(n)
            if ch and order == "little":
                return mk("bytes", mk("fld", ch.lower() if s is TRUE else ch, self.fz(b)))
        return None

    # ---- external functions
    def call_ext(self, name, args, kw, node):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, None, None, args, kw, node)
            if r is not None:
                return r
        if name.startswith("operator.") and not kw:
            r = self.operator_fn(name, args, node)
            if r is not None:
                return r
        m = getattr(self, "xf_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw, node)
            if r is not None:
                return r
        fa = tuple(self.fz(a) for a in args)
        fk = tuple(sorted(((k, self.fz(v)) for k, v in kw.items()), key=lambda x: x[0]))
        root = name.split(".")[0]
        if root in ("logging", "warnings"):
            return NONE
        if name in OUT_EXT and args:
            k = ("h", mk("ext", root), "$ver")
            ver = self.getv(k)
            self.setv(k, add(ver, ONE))
            self.emit("call", name, fa, fk, None, NONE, node)
            self.set_content(args[0], mk("call", name, fa, fk, ver))
            return mk("idx", fa[0], ZERO) if name == "heapq.heappop" else NONE
        if name.startswith(IMPURE_EXT):
            k = ("h", mk("ext", root), "$ver")
            ver = self.getv(k)
            self.setv(k, add(ver, ONE))
            res = mk("call", name, fa, fk, ver)
            self.emit("call", name, fa, fk, None, res, node)
            return res
        ver = NONE
        last = name.split(".")[-1]
        if name in NEW_ARRAY:
            res = mk("call", name, fa, fk, NONE)
            self.emit("call", name, fa, fk, None, res, node)
            return self.alloc("nd", res)
        if name in ("open", "bytearray") or (last[:1].isupper() and "." in name and not name.startswith("np.")) or name.startswith("tempfile"):
            sig = mk("sig", name, fa, fk)
            n = self.ninst.get(sig.dig, 0) + 1
            self.ninst[sig.dig] = n
            ver = const(n)
            if not name.startswith("np.") and self.loops:
                ver = mk("made", ver, *[it for it, _ in self.loops])
        if len(fa) == 1 and not fk and ver is NONE:
            res = lift(lambda x: mk("call", name, (x,), (), NONE), fa[0])
        else:
            res = mk("call", name, fa, fk, ver)
        self.emit("call", name, fa, fk, None, res, node)
        return res

    def xf_len(self, a, kw, node):
        if len(a) != 1:
            return None
        cls = self.class_of(a[0])
        if cls is not None and cls.find("__len__"):
            return self.invoke(self.function_term(cls.find("__len__"), None, a[0]), [], {}, node)
        if a[0].op == "ite" and any(x is NONE for _, x in cases(a[0])):
            return self.call_cases(a[0], lambda x: self.xf_len([x], kw, node))
        if a[0] is NONE:
            self.do_raise("TypeError", (), node)
            return ZERO
        return seq_len(self.fz(a[0]))

    def xf_int(self, a, kw, node):
        if len(a) == 1 and not kw:
            x = self.fz(a[0])
            if kind(x) in ("int",) or x.op in ("len", "iter", "pos") or x.op == "call" and x.args[0] in ("random.getrandbits", "random.randint", "random.randrange"):
                return x
            if is_const(x) and isinstance(cval(x), (int, float, bool)):
                return const(int(cval(x)))
            if is_const(x) and isinstance(cval(x), str):
                try:
                    return const(int(cval(x)))
                except ValueError:
                    return None
            return lift(lambda y: y if kind(y) == "int" else mk("call", "int", (y,), (), NONE), x)
        return None

    def xf_bool(self, a, kw, node):
        return self.truth(a[0]) if a else FALSE

    def xf_str(self, a, kw, node):
        if len(a) == 1 and not kw:
            x = self.fz(a[0])
            if kind(x) == "str":
                return x
            return lift(lambda y: fmt([y]), x)
        return None

    def xf_list(self, a, kw, node):
        if not a:
            return self.alloc("list", mk("list"))
        x = a[0]
        if x.op == "gen":
            return self.alloc("list", self.fz(x))
        c = self.content(x)
        if x.op == "obj" and x.args[0] == "list":
            return self.alloc("list", c)
        if x.op == "obj" and x.args[0] == "set":
            return self.alloc("list", mk("call", "list", (self.fz(x),), (), NONE))
        return self.alloc("list", self.as_list(self.fz(x)))

    def xf_tuple(self, a, kw, node):
        if not a:
            return mk("tuple")
        x = self.fz(a[0])
        if x.op in ("list", "tuple"):
            return mk("tuple", *x.args)
        return self.as_list(x)

    def xf_set(self, a, kw, node):
        if not a:
            return self.alloc("set", mk("list"))
        return self.alloc("set", self.as_list(self.fz(a[0])))

    def xf_frozenset(self, a, kw, node):
        return self.xf_set(a, kw, node)

    def xf_dict(self, a, kw, node):
        if not a:
            return self.alloc("dict", mk("dict", *[mk("kv", const(k), v) for k, v in kw.items()]))
        if len(a) == 1 and not kw:
            x = self.fz(a[0])
            if self.dictish(a[0], x):
                return self.alloc("dict", x)
            o = self.alloc("dict", mk("dict"))

            def body(elem):
                k = self.elem_at(elem, ZERO)
                v = self.elem_at(elem, ONE)
                self.setv(("h", o, "$c"), dict_upd(self.getv(("h", o, "$c")), self.fz(k), v))

            self.iterate(a[0], body, node, None)
            return o
        return None

    def xf_collections_OrderedDict(self, a, kw, node):
        return self.xf_dict(a, kw, node)

    def xf_collections_defaultdict(self, a, kw, node):
        return self.alloc("dict", mk("dict")) if not a or len(a) == 1 else None

    def xf_collections_deque(self, a, kw, node):
        return None

    def xf_range(self, a, kw, node):
        a = [self.fz(x) for x in a]
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        if len(a) == 2:
            return mk("range", a[0], sub(a[1], a[0]), ONE)
        if len(a) == 3:
            if is_const(a[2]) and isinstance(cval(a[2]), int) and cval(a[2]) != 0:
                s = cval(a[2])
                if s > 0:
                    n = floordiv(add(sub(a[1], a[0]), const(s - 1)), a[2])
                else:
                    n = floordiv(add(sub(a[0], a[1]), const(-s - 1)), const(-s))
            else:
                n = floordiv(sub(add(sub(a[1], a[0]), a[2]), ONE), a[2])
            return mk("range", a[0], n, a[2])
        return None

    def seqterm(self, x):
        if x.op == "gen":
            return self.fz(x)
        c = self.fz(x)
        if self.dictish(x, c):
            return mk("keysof", c)
        return c

    def xf_enumerate(self, a, kw, node):
        st = self.fz(a[1]) if len(a) > 1 else self.fz(kw["start"]) if "start" in kw else ZERO
        return mk("enum", self.seqterm(a[0]), st)

    def xf_zip(self, a, kw, node):
        if any(x.op == "star" for x in a):
            return None
        xs = [self.seqterm(x) for x in a]
        ends = [x for x in xs if not endless(x)]
        if ends and len(ends) < len(xs):
            n = mk_minmax("min", *[seq_len(x) for x in ends]) if len(ends) > 1 else seq_len(ends[0])
            xs = [mk("repeat", mk("list", x.args[1][0]), n) if endless(x) else x for x in xs]
        return mk("zip", *xs)

    def xf_itertools_repeat(self, a, kw, node):
        n = a[1] if len(a) == 2 else kw.get("times")
        if n is None or not a:
            return None
        return mk("repeat", mk("list", self.fz(a[0])), self.fz(n))

    def xf_reversed(self, a, kw, node):
        c = self.seqterm(a[0])
        if c.op in ("list", "tuple"):
            return mk("list", *reversed(c.args))
        return mk("reversed", c)

    def xf_map(self, a, kw, node):
        if len(a) < 2 or kw:
            return None
        o = self.alloc("list", mk("list"))
        if len(a) == 2:
            self.iterate(a[1], lambda x: self.list_append(o, self.call_value(a[0], [x], {}, node)), node, None)
        else:
            z = mk("zip", *[self.seqterm(x) for x in a[1:]])
            self.iterate(z, lambda x: self.list_append(o, self.call_value(a[0], list(x.args), {}, node)), node, None)
        return o

    def operator_fn(self, name, a, node):
        n = name.split(".")[-1].strip("_")
        ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "floordiv": ast.FloorDiv, "mod": ast.Mod, "truediv": ast.Div, "iadd": ast.Add}
        cmps = {"lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "eq": ast.Eq, "ne": ast.NotEq}
        if n in ops and len(a) == 2:
            return self.binop(ops[n](), a[0], a[1], node)
        if n in cmps and len(a) == 2:
            return self.compare(cmps[n](), self.fz(a[0]), self.fz(a[1]))
        if n == "getitem" and len(a) == 2:
            return self.read_item(a[0], self.fz(a[1]), node)
        if n == "itemgetter" and len(a) == 1:
            return mk("lambda", 1, seq_idx(mk("lamv", 0), self.fz(a[0])))
        if n == "attrgetter" and len(a) == 1 and is_const(a[0]):
            return mk("lambda", 1, mk("attr", mk("lamv", 0), cval(a[0])))
        return None

    def xf_filter(self, a, kw, node):
        if len(a) != 2:
            return None
        o = self.alloc("list", mk("list"))

        def body(x):
            c = self.truth(x) if a[0] is NONE else self.truth(self.call_value(a[0], [x], {}, node))
            self.branch(c, lambda: self.list_append(o, x), lambda: None)

        self.iterate(a[1], body, node, None)
        return o

    def xf_iter(self, a, kw, node):
        if len(a) == 1 and a[0].op in ("gen",):
            return a[0]
        if len(a) == 1:
            cls = self.class_of(a[0])
            f = cls.find("__iter__") if cls is not None else None
            if f is not None:
                return self.invoke(self.function_term(f, None, a[0]), [], {}, node)
        return None

    def xf_next(self, a, kw, node):
        if len(a) >= 1:
            b = a[0]
            cls = self.class_of(b)
            if cls is not None and cls.find("__next__"):
                return self.invoke(self.function_term(cls.find("__next__"), None, b), [], {}, node)
            return self.effect(b, "__next__", a[1:], kw, node)
        return None

    def fold_agg(self, x, f):
        acc = [None]

    def xf_sum(self, a, kw, node):
        if len(a) > 2 or kw:
            return None
        init = self.fz(a[1]) if len(a) == 2 else ZERO
        self.nfid += 1
        k = ("e", self.nfid, "acc")
        self.S.vals[k] = init
        self.iterate(a[0], lambda x: self.setv(k, add(self.getv(k), self.fz(x))), node, None)
        return self.getv(k)

    def xf_any(self, a, kw, node):
        return self.anyall(a[0], node, True)

    def xf_all(self, a, kw, node):
        return self.anyall(a[0], node, False)

    def anyall(self, x, node, isany):
        c = self.seqterm(x)
        if c.op == "flat" and single(c.args[2]) is not None:
            D, h, body = c.args
            e = as_bool(single(body))
        elif c.op in ("list", "tuple"):
            r = FALSE if isany else TRUE
            for y in c.args:
                r = or_(r, as_bool(y)) if isany else and_(r, as_bool(y))
            return r
        else:
            D = seq_len(c)
            h = 1 + height(c)
            e = as_bool(seq_idx(c, bv(h)))
        if not isany:
            e = not_(e)
        if e is FALSE:
            r = FALSE
        else:
            r = mk("exists", *TT.rebind((D, h, e)))
        return r if isany else not_(r)

    def minmax(self, which, a, kw, node):
        if kw and set(kw) - {"default"}:
            return None
        if len(a) >= 2 and not kw:
            xs = [self.fz(x) for x in a]
            if len(xs) == 2:
                return lift(lambda p, q: mk_minmax(which, p, q), *xs)
            return mk_minmax(which, *xs)
        if len(a) == 1:
            c = self.seqterm(a[0])
            d = self.fz(kw["default"]) if "default" in kw else None
            if c.op in ("list", "tuple") and c.args:
                return mk_minmax(which, *c.args)
            o = seq_over(which, c)
            if d is None:
                return o
            if d is ZERO and which == "max":
                return mk_minmax(which, ZERO, o)
            return mk("call", which, (c,), (("default", d),) if d is not None else (), NONE)
        return None

    def xf_max(self, a, kw, node):
        return self.minmax("max", a, kw, node)

    def xf_min(self, a, kw, node):
        return self.minmax("min", a, kw, node)

    def xf_abs(self, a, kw, node):
        x = self.fz(a[0])
        if is_num_const(x):
            return const(abs(cval(x)))
        return None

    def xf_isinstance(self, a, kw, node):
        x = self.fz(a[0]) if a[0].op != "inst" else a[0]
        t = a[1]
        ts = list(self.content(t).args) if self.content(t).op in ("tuple", "list") else [t]
        out = FALSE
        for c in ts:
            out = or_(out, self.isinst(a[0], x, c))
        return out

    def xf_issubclass(self, a, kw, node):
        t = self.content(a[1]) if len(a) == 2 else NONE
        if t.op not in ("tuple", "list"):
            return None
        out = FALSE
        for c in t.args:
            one = mk("call", "issubclass", (self.fz(a[0]), self.fz(c)), (), NONE)
            out = or_(out, as_bool(one))
        return out

    def isinst(self, raw, x, c):
        if c.op == "class":
            cls = self.class_of(raw)
            tc = self.FUNCS[c.dig][0]
            if cls is not None:
                if tc in cls.mro():
                    return TRUE
                if raw.op == "inst":
                    return FALSE
            return mk("isinst", x, tc.name)
        n = c.args[0] if c.op == "ext" else repr(c)
        n = {"typing.List": "list", "typing.Tuple": "tuple", "typing.Dict": "dict"}.get(n, n)

        def f(y):
            k = kind(y)
            if k in ("int", "float", "str", "bool", "list", "tuple", "dict", "bytes") and n in ("int", "float", "str", "bool", "list", "tuple", "dict", "bytes"):
                return const(k == n or (n == "int" and k == "bool"))
            if y is NONE:
                return FALSE
            if n in ("int", "float", "str", "bool", "list", "tuple", "dict", "bytes", "type"):
                if y.op == "class":
                    return const(n == "type")
                if literal(y) is not None:
                    return FALSE
                cls = self.class_of(y)
                if y.op in ("inst", "call") and cls is not None and not {b.split(".")[-1] for b in cls.ext_bases()} & {n, "Enum", "IntEnum", "NamedTuple", "OrderedDict", "defaultdict"}:
                    return FALSE
            return mk("isinst", y, n)

        return lift(f, x)

    def xf_getattr(self, a, kw, node):
        n = self.fz(a[1])
        if is_const(n):
            if len(a) == 2:
                return self.read_attr(a[0], cval(n), node)
            b = a[0]
            if ("h", b, cval(n)) in self.S.vals or (self.class_of(b) is not None and self.class_of(b).find(cval(n))):
                return self.read_attr(b, cval(n), node)
            if self.lacks(b, cval(n)):
                return a[2]
            return mk("call", "getattr", tuple(self.fz(x) for x in a), (), NONE)
        return None

    def xf_setattr(self, a, kw, node):
        n = self.fz(a[1])
        if is_const(n):
            self.store_attr(a[0], cval(n), a[2], node)
            return NONE
        return None

    def xf_hasattr(self, a, kw, node):
        if len(a) == 2 and is_const(self.fz(a[1])) and a[0].op == "inst":
            n = cval(self.fz(a[1]))
            if self.lacks(a[0], n):
                return FALSE
            v = self.S.vals.get(("h", a[0], n))
            if v is not None and self.closed(a[0]):
                there = FALSE
                for g, x in cases(v):
                    if x is not mk("attr", a[0], n):
                        there = or_(there, g)
                return there
            cls = self.CLS.get(a[0].dig)
            if v is None and cls is not None and (cls.find(n) or cls.find_attr(n)):
                return TRUE
        return mk("atom", mk("call", "hasattr", tuple(self.fz(x) for x in a), (), NONE))

    def xf_print(self, a, kw, node):
        return NONE

    def xf_type(self, a, kw, node):
        if len(a) == 1:
            c = self.class_of(a[0])
            if c is not None:
                return self.entity(c)
            x = self.fz(a[0])
            if x.op == "call" and x.args[0] == ".item" and x.args[1][0].op == "call":
                # python type of a numpy number
                n = str(x.args[1][0].args[0])
                for p, t in (("np.float", "float"), ("np.int", "int"), ("np.uint", "int")):
                    if n.startswith(p):
                        return mk("ext", t)
        return None

    def xf_sorted(self, a, kw, node):
        x = self.seqterm(a[0])
        while x.op == "call" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1:
            x = x.args[1][0]
        return self.alloc("list", mk("call", "sorted", (x,), self.keyed(kw), NONE))

    def getenv(self, k):
        """Setting of the environment; hooks["$env"] may fix some."""
        h = self.hooks.get("$env")
        r = h(self, k) if h is not None else None
        return r if r is not None else mk("call", "os.getenv", (k,), (), NONE)

    def xf_os_getenv(self, a, kw, node):
        kw = {"default" if k == "default" else k: v for k, v in kw.items()}
        if len(a) + len(kw) > 2 or not a:
            return None
        v = self.getenv(self.fz(a[0]))
        d = self.fz(a[1]) if len(a) > 1 else self.fz(kw["default"]) if "default" in kw else NONE
        return v if d is NONE else ite(isnone(v), d, v)

    xf_os_environ_get = xf_os_getenv

    def xf_os_path_join(self, a, kw, node):
        if any(x.op == "star" for x in a):
            return None
        return lift(lambda *xs: self.pathjoin(xs), *[self.fz(x) for x in a])

    def xf_os_path_sep_join(self, a, kw, node):
        x = self.fz(a[0])
        return self.pathjoin(list(x.args)) if x.op in ("list", "tuple") else None

    xf_os_sep_join = xf_os_path_sep_join

    def xf_pathlib_Path(self, a, kw, node):
        if len(a) == 1:
            return self.fz(a[0])
        if len(a) > 1:
            return self.pathjoin([self.fz(x) for x in a])
        return None

    def xf_struct_pack(self, a, kw, node):
        fm = self.fz(a[0])
        if not is_const(fm) or not isinstance(cval(fm), (str, bytes)):
            return None
        s = cval(fm)
        if isinstance(s, bytes):
            s = s.decode()
        vals = [self.fz(x) for x in a[1:]]
        if any(x.op == "star" for x in vals):
            return None
        chars = struct_chars(s)
        if chars is None:
            return None
        if sum(1 for c in chars if c[-1] != "x") != len(vals):
            return None
        out = []
        for c in chars:
            if c[-1] == "x":
                out.append(mk("fld", "x", ZERO))
            else:
                out.append(mk("fld", c, unint(vals.pop(0))))
        return mk("bytes", *out)

    def xf_struct_calcsize(self, a, kw, node):
        fm = self.fz(a[0])
        if is_const(fm) and isinstance(cval(fm), str):
            ch = struct_chars(cval(fm))
            if ch is not None:
                return const(sum(FLD[c[-1]] for c in ch))
        return None

    def xf_ctypes_sizeof(self, a, kw, node):
        if len(a) == 1 and a[0].op == "ext":
            c = CT.get(a[0].args[0].split(".")[-1])
            if c:
                return const(FLD[c])
        return None

    def xf_functools_partial(self, a, kw, node):
        return mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items(), key=lambda x: x[0])))

    def xf_itertools_chain(self, a, kw, node):
        return mk("list") if not a else cat([self.as_list(self.fz(x)) for x in a])

    def xf_copy_copy(self, a, kw, node):
        if a and a[0].op == "obj":
            return self.alloc(a[0].args[0], self.content(a[0]))
        return None

    def xf_super(self, a, kw, node):
        return self.opaque("super()", node)


# ---------------------------------------------------------------- module helpers
def d_ok(fl):
    return len(fl.frames) < fl.maxdepth


def own_object(k, it):
    return k[0] == "h" and k[1].op == "inst" and k[2] not in ("$new", "$c") and isinstance(k[1].args[1], T) and has(k[1].args[1], it)


def match_iter(p, t, m):
    """Substitution of loop variables in p that gives t."""
    if p is t:
        return True
    if p.op == "iter":
        if p in m:
            return m[p] is t
        m[p] = t
        return True
    if p.op != t.op or len(p.args) != len(t.args):
        return False
    return all(match_iter(a, b, m) if isinstance(a, T) and isinstance(b, T) else match_all(a, b, m) for a, b in zip(p.args, t.args))


def match_all(a, b, m):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(match_iter(x, y, m) if isinstance(x, T) and isinstance(y, T) else match_all(x, y, m) for x, y in zip(a, b))
    return a == b


def newborn(k, before, after):
    """A field of an object made since: nothing of it was there before."""
    return k[0] == "h" and k[1].op in ("obj", "inst") and born(k[1], after) and not born(k[1], before)


def born(o, st):
    return ("h", o, "$new") in st.vals or ("h", o, "$c") in st.vals


def fresh_stream(t):
    if t.op == "call" and isinstance(t.args[0], str) and t.args[0].split(".")[-1] == "open":
        xs = list(t.args[1]) + [v for _, v in t.args[2]]
        return any(is_const(x) and cval(x) in ("w", "wb", "bw", "wt", "xb", "w+b", "wb+") for x in xs)
    return False


def unint(t):
    """int(x) stored in an integer field keeps the value of x."""
    if t.op == "call" and t.args[0] == "int" and len(t.args[1]) == 1:
        return t.args[1][0]
    return t


def struct_chars(s):
    prefix = ""
    if s[:1] in "@=<>!":
        prefix, s = s[:1], s[1:]
    chars = []
    n = ""
    for c in s:
        if c.isspace():
            continue
        if c.isdigit():
            n += c
            continue
        if c in ("s", "p") or c not in FLD:
            return None
        chars += [c] * (int(n) if n else 1)
        n = ""
    big = prefix in (">", "!")
    out = []
    if prefix in ("", "@"):
        size = {"l": 8, "L": 8}
        pos = 0
        for c in chars:
            w = size.get(c, FLD[c])
            while pos % w:
                out.append("x")
                pos += 1
            out.append({"l": "q", "L": "Q"}.get(c, c))
            pos += w
        return out
    out = [{"l": "i", "L": "I"}.get(c, c) for c in chars]
    return [">" + c for c in out] if big else out


def handler_name(h):
    if h.type is None:
        return ""
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return "|".join(sorted(ast.unparse(t) for t in ts))


def strip_ret(t):
    """Value of a call: never-returning leaves dropped, fall-through is None."""
    t = strip_guarded(t)
    if t is None:
        return UNDEF

    def f(x):
        if x is UNDEF:
            return NONE
        if x.op == "ite":
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        return x

    return f(t)


def strip_guarded(t):
    if t is RAISED:
        return None
    if t.op == "ite":
        a = strip_guarded(t.args[1])
        b = strip_guarded(t.args[2])
        if a is None:
            return b
        if b is None:
            return a
        return ite(t.args[0], a, b)
    return t


def setter_of(cls, name):
    for c in cls.mro():
        for st in c.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                for d in st.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "setter":
                        return Func(c.module, st, f"{c.qual}.{name}.setter", c)
    return None


def contains_new_obj(v, n):
    return contains(v, lambda x: (x.op == "obj" and x.args[1] > n) or x.op == "gen")


def mu_name(mu):
    return mu.args[2]


def post_fid(fl):
    return fl.nfid


def relcond(cond, base):
    return cond


def mk_exists(N, it, c, D):
    if N.op == "until":
        D0 = N.args[0]
    else:
        D0 = N
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return TRUE if D0 is INF else some(D0)
    if D0 is INF:
        return TRUE if not isinstance(c, bool) and N.op == "until" and subst_same(N, c, it) else _ex(D0, it, c)
    return _ex(D0, it, c)


def subst_same(N, c, it):
    h, b = close(c, it)
    return N.args[2] is b


def _ex(D0, it, c):
    h, b = close(c, it)
    return exists_one(D0, h, b)


def looked_up(s, var, source):
    """The loop variable is used as a key of the container it came from: the container is a mapping."""
    src = ast.dump(source)
    for n in ast.walk(s):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id == var.id and ast.dump(n.value).replace("Store()", "Load()") == src:
            return True
    return False


def drawn(t):
    """An array of random numbers."""
    if t.op != "call":
        return False
    if t.args[0] == "np.random.uniform":
        return len(t.args[1]) > 2 or any(k == "size" for k, v in t.args[2])
    return t.args[0] in ("np.random.rand", "np.random.random", "np.random.random_sample") and bool(t.args[1] or t.args[2])


def counted(stop, it):
    """stop == not (it < n) for an invariant n : returns n."""
    if stop is TRUE:
        return ZERO
    if stop.op == "ite":
        for a in TT.gate_atoms(stop).values():
            if not has(a, it):
                x, y = (counted(TT.assume(stop, a, v), it) for v in (True, False))
                return None if x is None or y is None else ite(a, x, y)
    if stop.op == "ite" and stop.args[1] is FALSE and stop.args[2] is TRUE:
        a = stop.args[0]
        if a.op == "lt" and a.args[1].op == "const":
            lin, c0 = coefs(a.args[0])
            k = lin.pop((it,), None)
            if isinstance(k, int) and k > 0 and not any(has(m, it) for mono in lin for m in mono):
                # k*it + rest < c   <=>  it < ceil((c - rest) / k)
                rest = TT._frompoly(lin)
                num = sub(sub(a.args[1], rest), const(c0))
                return num if k == 1 else floordiv(add(num, const(k - 1)), const(k))
        return None
    if stop.op == "lt" and stop.args[1].op == "const":
        # lin < c with a negative coefficient on it: -k*it + rest < c
        lin, c0 = coefs(stop.args[0])
        k = lin.pop((it,), None)
        if isinstance(k, int) and k < 0 and not any(has(m, it) for mono in lin for m in mono):
            k = -k
            rest = TT._frompoly(lin)
            # continues while rest - k*it >= c  <=> it <= (rest - c)/k <=> it < floor((rest-c)/k)+1
            num = add(sub(rest, stop.args[1]), const(c0))
            return add(num if k == 1 else floordiv(num, const(k)), ONE)
        by = [m for m in lin if it in m]
        if len(by) == 1 and lin[by[0]] == -1 and len(by[0]) == 2 and not any(has(m, it) for mono in lin if mono != by[0] for m in mono):
            size = by[0][0] if by[0][1] is it else by[0][1]
            if TT.natural(size) and not has(size, it):
                # steps of a size that is not known
                del lin[by[0]]
                return floordiv(add(add(sub(TT._frompoly(lin), stop.args[1]), const(c0)), size), size)
    if stop.op == "eq":
        lin, c0 = coefs(stop.args[0])
        k = lin.pop((it,), None)
        if k in (1, -1) and not any(has(m, it) for mono in lin for m in mono) and is_num_const(stop.args[1]):
            rest = TT._frompoly(lin)
            num = sub(sub(stop.args[1], rest), const(c0))
            return num if k == 1 else neg(num)
    return None


def affine_in(t, it):
    if not has(t, it):
        return t.op not in ("rec",) and not contains(t, lambda x: x.op == "rec")
    if t.op != "poly" and t is not it:
        return False
    lin, c = coefs(t)
    k = lin.pop((it,), None)
    return k is not None and not any(has(m, it) for mono in lin for m in mono)


def grow(p, mu):
    """p == mu ++ seg on every gate: the gated seg, else None."""
    if p is mu:
        return mk("list")
    if p.op == "cat":
        if p.args[0] is mu:
            return cat(p.args[1:])
        if p.args[0].op == "ite":
            s = grow(p.args[0], mu)
            if s is not None:
                return cat([s] + list(p.args[1:]))
        return None
    if p.op == "ite":
        a, b = grow(p.args[1], mu), grow(p.args[2], mu)
        if a is None or b is None:
            return None
        return ite_seq(p.args[0], a, b)
    return None


def columns(p, mu):
    """A list of lists made when its first row comes, one element added to each list by every row: (gate of a row, elements)."""
    g, row, born = TRUE, p, nonempty(mu)
    while True:
        # the cases that do not ask for mu come first
        a = next((x for x in TT.gate_atoms(row).values() if not has(x, mu)), None)
        if a is None:
            break
        yes, no = TT.assume(row, a, True), TT.assume(row, a, False)
        if no is mu:
            g, row = and_(g, a), yes
        elif yes is mu:
            g, row = and_(g, not_(a)), no
        else:
            return None
    row = ite(born, TT.assume(row, born, True), TT.assume(row, born, False))
    if row.op != "ite" or row.args[0] is not born or row.args[2].op != "list":
        return None
    first, x, segs = row.args[2].args, row.args[1], {}
    while x.op == "upd" and is_const(x.args[1]):
        segs.setdefault(cval(x.args[1]), x.args[2])
        x = x.args[0]
    if x is not mu or set(segs) != set(range(len(first))):
        return None
    out = []
    for i, f in enumerate(first):
        f = TT.assume(f, row.args[0], False)
        s = grow(segs[i], mk("idx", mu, const(i)))
        if s is None or s is not f or has(s, mu):
            return None
        out.append(s)
    return g, out


def seq_over(which, c):
    """Largest/smallest element of a sequence term (the neutral bound when there is none)."""
    if c.op in ("list", "tuple"):
        return mk_minmax(which, *(c.args or (TT.NINF if which == "max" else TT.PINF,)))
    if c.op == "flat":
        return TT.mk_over(which + "over", c.args[0], c.args[1], seq_over(which, c.args[2]))
    if c.op == "ite":
        return ite(c.args[0], seq_over(which, c.args[1]), seq_over(which, c.args[2]))
    if c.op == "cat":
        return mk_minmax(which, *[seq_over(which, x) for x in c.args])
    h = 1 + height(c)
    return TT.mk_over(which + "over", seq_len(c), h, seq_idx(c, bv(h)))


def steps(p, mu, it):
    """p == min(mu + d, K) + e with invariant, not negative d, K and e: size of the steps, and what is not passed."""
    lin = {(p,): 1} if p.op == "min" else coefs(p)[0] if p.op == "poly" else {}
    for mm, k in lin.items():
        if len(mm) == 1 and mm[0].op == "min" and len(mm[0].args) == 2 and k == 1:
            e = sub(p, mm[0])
            for x, y in (mm[0].args, mm[0].args[::-1]):
                d = sub(x, mu)
                parts = [coefs(z) for z in (d, y, e)]
                if not any(has(z, w) for z in (y, d, e) for w in (mu, it)) and all(c0 >= 0 and all(v >= 0 and all(TT.natural(z) for z in m) for m, v in ln.items()) for ln, c0 in parts):
                    return add(d, e), add(y, e)
    return None


def one_value(p, mu):
    """When a round gives the value, and the constant that it then is; all other rounds keep what there is."""
    found = []

    def when(x):
        if x.op == "ite":
            if has(x.args[0], mu):
                return None
            a, b = when(x.args[1]), when(x.args[2])
            return None if a is None or b is None else ite(x.args[0], a, b)
        if x is mu:
            return FALSE
        if is_const(x) and (not found or found[0] is x):
            found[:] = [x]
            return TRUE
        return None

    g = when(p)
    return None if g is None or not found else (g, found[0])


def first_only(p, mu, it):
    """The value that is given in the first round, where other rounds give the same or none."""
    first = subst(p, {it.dig: ZERO})
    if has(first, mu) or first.op == "ite" or p.op != "ite":
        return None

    def leaves(x):
        return leaves(x.args[1]) and leaves(x.args[2]) if x.op == "ite" else x is mu or x is first

    return first if leaves(p) else None


def max_grow(p, mu, w):
    """p == max(mu, e) on every gate: the gated e (the neutral bound where mu is kept)."""
    if p is mu:
        return TT.NINF if w == "max" else TT.PINF
    if p.op == w and any(x is mu for x in p.args):
        return mk_minmax(w, *[x for x in p.args if x is not mu])
    if p.op == "ite":
        g = p.args[0]
        if has(g, mu):
            # the cases that do not ask for mu come first
            g = next((x for x in TT.gate_atoms(p).values() if not has(x, mu)), None)
            if g is None:
                return bounded(p, mu, w)
        a, b = max_grow(TT.assume(p, g, True), mu, w), max_grow(TT.assume(p, g, False), mu, w)
        if a is None or b is None:
            return None
        return ite(g, a, b)
    return None


def bounded(p, mu, w):
    """The bound e of 'e if mu < e else mu', in either order."""
    g, x, y = p.args
    for e, keep, up in ((x, y, w == "max"), (y, x, w == "min")):
        if keep is mu and not has(e, mu) and g.op == "lt":
            if g.args[0] is (sub(mu, e) if up == (e is x) else sub(e, mu)):
                return e
    return None


def zeros(t):
    if t.op == "list":
        return all(is_num_const(x) and cval(x) == 0 for x in t.args)
    if t.op == "repeat":
        return zeros(t.args[0])
    if t.op == "flat":
        return zeros(t.args[2])
    if t.op == "cat":
        return all(zeros(x) for x in t.args)
    if t.op == "ite":
        return zeros(t.args[1]) and zeros(t.args[2])
    return False


def tally_grow(p, mu):
    """p adds to single positions of mu (and may pad it with zeros): the sequence of (position, amount)."""
    if p is mu:
        return mk("list")
    if p.op == "cat":
        b = tally_grow(p.args[0], mu)
        pads = [mk("padding", x) for x in p.args[1:] if not zeros(x)]
        return b if b is None or not pads else cat([b, mk("list", *pads)])
    if p.op == "tally":
        b = tally_grow(p.args[0], mu)
        return None if b is None else cat([b, p.args[1]])
    if p.op == "upd":
        g, i, v = p.args
        b = tally_grow(g, mu)
        if b is None or kind(v) in TT.SEQ_KINDS or v.op in ("list", "tuple", "dict", "fmt"):
            return None
        e = sub(v, seq_idx(g, i))
        if has(e, mu):
            return None
        if e.op == "call" and e.args[0] == "float" and len(e.args[1]) == 1:
            e = e.args[1][0]
        return cat([b, mk("list", mk("tuple", i, e))])
    if p.op == "ite":
        a, b = tally_grow(p.args[1], mu), tally_grow(p.args[2], mu)
        if a is None or b is None:
            return None
        return ite_seq(p.args[0], a, b)
    return None


def mk_tally(base, seq):
    """Totals per position: base plus every (position, amount) of seq; zero padding is not represented."""
    if seq.op == "list" and not seq.args:
        return base
    if base.op == "tally":
        return mk("tally", base.args[0], cat([base.args[1], seq]))
    if seq.op == "flat" and seq_len(base) is rounds(seq.args[0]):
        b = seq.args[2]
        if b.op == "list" and len(b.args) == 1 and b.args[0].op == "tuple" and b.args[0].args[0] is bv(seq.args[1]):
            # one amount for every position
            h = max(seq.args[1], 1 + height(base))
            e = subst(b.args[0].args[1], {bv(seq.args[1]).dig: bv(h)})
            return mk_flat(seq.args[0], h, mk("list", add(seq_idx(base, bv(h)), e)))
    if seq.op == "flat" and seq.args[2].op == "flat" and seq_len(base) is rounds(seq.args[2].args[0]):
        D, h2 = seq.args[:2]
        N, h1, b = seq.args[2].args
        if b.op == "list" and len(b.args) == 1 and b.args[0].op == "tuple" and b.args[0].args[0] is bv(h1) and not has(N, bv(h2)):
            # one amount for every position, several times over
            slot = mk("sym", "$slot")
            p = mk_psum(D, h2, subst(b.args[0].args[1], {bv(h1).dig: slot}))
            h = 1 + max(height(p), height(base))
            return mk_flat(N, h, mk("list", add(seq_idx(base, bv(h)), subst(p, {slot.dig: bv(h)}))))
    return mk("tally", base, seq)


def mk_until(D, h, stop):
    """Rounds before the first one that stops."""
    if D.op == "inf":
        n = counted(stop, bv(h))
        if n is not None:
            return rounds(n)
    return mk("until", *TT.rebind((D, h, stop)))


TT.RENORM_HOOKS["until"] = mk_until
TT.RENORM_HOOKS["tally"] = mk_tally


def endless(t):
    return t.op == "call" and t.args[0] == "itertools.repeat" and len(t.args[1]) == 1 and not t.args[2]


def spelled(c):
    """Keys, values or pairs of a mapping that is written out."""
    d = c.args[0]
    if d.op != "dict" or len(d.args) > 12:
        return c
    return mk("list", *[p.args[0] if c.op == "keysof" else p.args[1] if c.op == "valsof" else mk("tuple", p.args[0], p.args[1]) for p in d.args])


def literal(t):
    """The numbers of a one-dimensional array made of literals."""
    if t.op == "call" and t.args[0] in ("np.array", "np.asarray") and len(t.args[1]) == 1 and all(k == "dtype" and v.op == "ext" and "int" in v.args[0] for k, v in t.args[2]):
        x = t.args[1][0]
        if x.op in ("list", "tuple") and x.args and all(is_const(y) and type(cval(y)) is int for y in x.args):
            return mk("list", *x.args)
    return None


def fixed_key(k):
    return is_const(k) or k.op == "tuple" and all(fixed_key(x) for x in k.args)


def dict_upd(cur, k, v):
    if cur.op == "dict":
        args = list(cur.args)
        allc = fixed_key(k)
        for i, p in enumerate(args):
            s = same_key(p.args[0], k)
            if s is True:
                args[i] = mk("kv", k, v)
                return mk("dict", *args)
            if s is None:
                allc = False
        if allc or not args:
            if fixed_key(k):
                return mk("dict", *(args + [mk("kv", k, v)]))
            if not args:
                return mk("dict", mk("kv", k, v))
    if cur.op == "dupd" and cur.args[1] is k:
        return mk("dupd", cur.args[0], k, v)
    if v.op == "ite" and v.args[0].op == "in" and v.args[0].args[0] is k and v.args[0].args[1] is cur and v.args[1].op == "idx" and v.args[1].args[0] is cur and v.args[1].args[1] is k:
        # what is there already stays
        return ite(v.args[0], cur, dict_upd(cur, k, v.args[2]))
    return mk("dupd", cur, k, v)


def dict_grow(p, mu):
    if p is mu:
        return mk("ups")
    if p.op == "dupd":
        b = dict_grow(p.args[0], mu)
        if b is None or b.op != "ups":
            return None
        return mk("ups", *(b.args + (mk("kv", p.args[1], p.args[2]),)))
    if p.op == "ite":
        a, b = dict_grow(p.args[1], mu), dict_grow(p.args[2], mu)
        if a is None or b is None:
            return None
        return ite(p.args[0], a, b)
    return None


def upd_grow(p, mu):
    if p is mu:
        return mk("ups")
    if p.op == "upd":
        b = upd_grow(p.args[0], mu)
        if b is None or b.op != "ups":
            return None
        return mk("ups", *(b.args + (mk("kv", p.args[1], p.args[2]),)))
    if p.op == "ite":
        a, b = upd_grow(p.args[1], mu), upd_grow(p.args[2], mu)
        if a is None or b is None:
            return None
        return ite(p.args[0], a, b)
    return None


def own_updates(p, mu, it):
    """Every round assigns at most the position of its own number."""
    return all(x is mu or x.op == "upd" and x.args[0] is mu and x.args[1] is it for _, x in TT.cases(p))


def mk_dflat(at, h, body, base):
    if (body.op == "ups" and not body.args) or at is ZERO:
        return base
    if body.op == "ups" and base.op == "dict" and all(fixed_key(p.args[0]) for p in body.args + base.args):
        has_ = {p.args[0].dig: p.args[1] for p in base.args}
        if all(p.args[0].dig in has_ for p in body.args):
            # entries that are there already and are assigned in every round: the last one stays
            for p in body.args:
                base = dict_upd(base, p.args[0], mk("fold", *TT.rebind((at, h, p.args[1], has_[p.args[0].dig]))))
            return base
    return mk("dflat", *TT.rebind((at, h, body, base)))


def mk_scat(at, h, body, base):
    if at.op == "ite" and body.op in ("ups", "ite"):
        a = at.args[0]
        x, y = (mk_scat(TT.assume(at, a, v), h, deep_assume(body, a, v), deep_assume(base, a, v)) for v in (True, False))
        return ite(a, x, y)
    if at is ZERO or (body.op == "ups" and not body.args):
        return base
    # every position 0..at-1 of a container of that length assigned once, in order
    if body.op == "ups" and len(body.args) == 1 and body.args[0].args[0] is bv(h) and seq_len(base) is rounds(at):
        return mk_flat(at, h, mk("list", body.args[0].args[1]))
    if body.op == "ite" and seq_len(base) is rounds(at):
        own = own_slots(body, h)
        if own is not None:
            e = seq_idx(base, bv(h))
            for g, v in own:
                if v is not None:
                    e = ite(g, v, e)
            return mk_flat(at, h, mk("list", e))
    # consecutive pieces of one size, assigned in order, that fill the container
    if body.op == "ups" and len(body.args) == 1 and body.args[0].args[0].op == "slice":
        (lo, hi, step), v = body.args[0].args[0].args, body.args[0].args[1]
        n = sub(hi, lo) if lo is not NONE and hi is not NONE else NONE
        if step is NONE and n is not NONE and not contains(n, lambda x: x is bv(h)) and lo is mul(bv(h), n) and seq_len(base) in (mul(at, n), mul(rounds(at), n)):
            if all(seq_len(x) is n for _, x in cases(v)):
                return mk("call", "np.concatenate", (mk_flat(at, h, mk("list", v)),), (), NONE)
    return mk("scat", *TT.rebind((at, h, body, base)))


TT.RENORM_HOOKS["dflat"] = mk_dflat
TT.RENORM_HOOKS["scat"] = lambda at, h, b, base: base if (b.op == "ups" and not b.args) or at is ZERO else mk_scat(at, h, b, base)


def _call_renorm(*a):
    name = a[0]
    if name == "os.path.join" and not a[2]:
        out = []
        for p in a[1]:
            if p.op == "call" and p.args[0] == "os.path.join" and not p.args[2]:
                out += list(p.args[1])
            else:
                out.append(p)
        return mk("call", name, tuple(out), (), *a[3:])
    return mk("call", *a)


TT.RENORM_HOOKS["call"] = _call_renorm
