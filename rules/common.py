"""Shared drivers for the rule modules."""
import ast
import textwrap

from vlib.flow import Budget, Flow, Frame, fresh_stream, mk_exists
from vlib.prog import AnchorError
from vlib.seqs import *
from vlib.terms import *

GE = "deepgnn.graph_engine"
SN = GE + ".snark"

_n = [0]


def h_getfs(fl, f, b, args, kw, node):
    a = fl.fz(args[0] if args else kw["path"])
    return mk("tuple", mk("call", "get_fs", (a,), (), NONE), mk("call", "get_fs_opts", (a,), (), NONE))


def h_convert(fl, f, b, args, kw, node):
    """Encoded features of one element (their bytes are decided separately)."""
    a = fl.fz(args[0] if args else kw["features"])
    if a.op == "list" and not a.args:
        return mk("list")
    return mk("call", "convert_features", (a,), (), NONE)


def h_any(fl, f, b, args, kw, node):
    """anything() in a requirement: the value is left open."""
    return mk("any")




def h_none(fl, f, b, args, kw, node):
    return NONE


BASE_HOOKS = {"get_fs": h_getfs, "anything": h_any, "get_logger": h_none}


def logged(name, what, func):
    """Calls of a method become entries of a virtual output, so that their order and gates are compared."""

    def h(fl, f, b, args, kw, node):
        fa, fk = tuple(fl.fz(a) for a in args), {k: fl.fz(v) for k, v in kw.items()}
        key = ("h", mk("call", "open", (const("calls of " + name), const("wb")), (), ONE), "$out")
        pa, pk = fl.norm_args(func, fa, tuple(sorted(fk.items())), func.cls is not None)
        fl.setv(key, cat([fl.getv(key), mk("list", mk("entry", what, *(pa + tuple(mk("arg", n, v) for n, v in pk))))]))
        fl.emit("call", name + "." + what, fa, tuple(sorted(fk.items())), b, NONE, node)
        return NONE

    return h


def log_of(fl, name):
    return fl.S.vals.get(("h", mk("call", "open", (const("calls of " + name), const("wb")), (), ONE), "$out"), mk("list"))


def rejections(fl, only=None):
    """When is an exception raised: condition over the whole run, per group of loops."""
    groups = {}
    for e in fl.events:
        if e.kind == "raise" and (only is None or only(e)):
            groups.setdefault(e.loops, []).append(e.guard)
    out = FALSE
    for loops, gs in groups.items():
        g = FALSE
        for x in gs:
            g = or_(g, x)
        for it, D in reversed(loops):
            g = mk_exists(D, it, g, D)
        out = or_(out, g)
    return out


def last(*names):
    return lambda q: q.split(".")[-1] in names


def source(check, text):
    _n[0] += 1
    return check.prog.add_source(f"drv{_n[0]}", textwrap.dedent(text), "<driver>")


def new_flow(check, extern=None, pure=None, hooks=None, **k):
    h = dict(BASE_HOOKS)
    h.update(hooks or {})
    fl = Flow(check.prog, extern=extern, hooks=h, pure=pure, **k)
    return fl


def run_driver(check, module, name, args=None, **k):
    """Analyse one driver function; returns the flow (with .ret)."""
    fl = new_flow(check, **k)
    try:
        fl.ret = fl.run(module.funcs[name], args)
        fl.failed = None
    except (Budget, RecursionError) as ex:
        fl.failed = type(ex).__name__
        fl.ret = mk("opaque", "budget", "", "")
    check.saw(fl)
    return fl


def run_func(check, func, args=None, selfterm=None, **k):
    fl = new_flow(check, **k)
    try:
        fl.ret = fl.run(func, args, selfterm)
        fl.failed = None
    except (Budget, RecursionError) as ex:
        fl.failed = type(ex).__name__
        fl.ret = mk("opaque", "budget", "", "")
    check.saw(fl)
    return fl


def outputs(fl):
    """Final contents of every file opened for writing: {path term: content term}."""
    out = {}
    for e in fl.events:
        if e.kind == "call" and e.name == "open" and e.res is not None:
            m = e.args[1]
            if is_const(m) and "w" in str(cval(m)):
                data = fl.S.vals.get(("h", e.res, "$out"), mk("list"))
                for g, path in cases(e.args[0]):
                    here = data if g is TRUE else ite(g, data, out.get(path, mk("list")))
                    out[path] = here
    return out


def norm_path(p):
    """Path as text with {..} for values, folders joined with /."""
    if p.op == "call" and p.args[0] == "os.path.join":
        return "/".join(norm_path(x) for x in p.args[1])
    if p.op == "fmt":
        return "".join(norm_path(x) for x in p.args)
    if is_const(p):
        return str(cval(p))
    return "{" + repr(p) + "}"


def compare_outputs(check, rule, what, code, spec, loc):
    co = {norm_path(k): v for k, v in outputs(code).items()}
    so = {norm_path(k): v for k, v in outputs(spec).items()}
    if code.failed:
        check.undecided(rule, what, "analysis budget exceeded", loc)
        return
    for p, want in sorted(so.items()):
        if p not in co:
            if any(opaque(k) for k in outputs(code)) or code.notes:
                check.undecided(rule, f"{what}:{p}", "file not identified", loc)
            else:
                check.violate(rule, f"{what}:{p}", f"no file of that name is written (written: {sorted(co)})", loc)
            continue
        check.equal(rule, f"{what}:{p}", co[p], want, loc)
    for e in code.events:
        if e.kind == "late":
            check.violate(rule, f"{what}:{norm_path(e.recv.args[1][0])}", "written after it was closed", e.loc)
        if e.kind == "call" and e.name == "open" and e.res is not None and fresh_stream(e.res) and norm_path(e.args[0]) in so:
            shut = code.S.vals.get(("h", e.res, "$shut"), FALSE)
            if constrain(shut, e.guard) is FALSE:
                check.violate(rule, f"{what}:{norm_path(e.args[0])}", "still open (buffered bytes lost) after the writer is closed", e.loc)
    return co, so


def floc(f):
    return (f.module.rel, f.node.lineno, f.qual)


def dict_keys(t):
    return [cval(p.args[0]) for p in t.args] if t.op == "dict" else []


def entry(t, k):
    if t.op == "dict":
        for p in t.args:
            if is_const(p.args[0]) and cval(p.args[0]) == k:
                return p.args[1]
    return mk("absent", k) if t.op == "dict" else mk("opaque", "dict", k, "")


def put_log(fl, name, what, *args):
    key = ("h", mk("call", "open", (const("calls of " + name), const("wb")), (), ONE), "$out")
    fl.setv(key, cat([fl.getv(key), mk("list", mk("entry", what, *args))]))


def log_method(log, what, ret=None, when=None):
    """Hook for a method of an object outside the repository: the call becomes an entry of a virtual output."""

    def h(fl, b, args, kw, node):
        recv = b if b.op in ("inst", "sym", "attr") else fl.fz(b)
        if when is not None and not when(recv):
            return None
        fa = tuple(fl.fz(a) for a in args)
        fk = tuple(mk("arg", k, fl.fz(v)) for k, v in sorted(kw.items()))
        put_log(fl, log, what, recv, *(fa + fk))
        fl.emit("call", "." + what, fa, (), recv, NONE, node)
        return ret

    return h


def log_ext(log, what, keep=True):
    """Hook for an external function: logged, then analysed as usual."""

    def h(fl, f, b, args, kw, node):
        fa = tuple(fl.fz(a) for a in args)
        fk = tuple(mk("arg", k, fl.fz(v)) for k, v in sorted(kw.items()))
        put_log(fl, log, what, *(fa + fk))
        return None if keep else NONE

    return h


def log_opened(log):
    """Files created for writing, in order."""

    def h(fl, f, b, args, kw, node):
        a = [fl.fz(x) for x in args]
        mode = a[1] if len(a) > 1 else fl.fz(kw.get("mode", const("r")))
        if is_const(mode) and "w" in str(cval(mode)):
            put_log(fl, log, "create", a[0] if a else NONE)
        return None

    return h, lambda fl, b, args, kw, node: h(fl, None, b, args, kw, node)


def argument(f, args, kw, i, name):
    """Argument of a hooked call, however it is spelled."""
    if name in kw:
        return kw[name]
    return args[i] if i < len(args) else NONE


def defaults(c, rule, f, want):
    """What leaving an optional argument out means. want: {parameter: literal or tuple of literals}"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    got = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) if a.defaults else {}
    got.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    names = {x.arg for x in pos + a.kwonlyargs}
    for n, w in want.items():
        if n not in names:
            continue
        what = f"{f.qual.split('.', 3)[-1]} {n}"
        if n not in got:
            c.violate(rule, what, "no default value", floc(f))
            continue
        try:
            v = ast.literal_eval(got[n])
        except (ValueError, TypeError, SyntaxError):
            c.undecided(rule, what, "default is not a literal", floc(f))
            continue
        ok = w if isinstance(w, list) else [w]
        c.expect(any(v == x and type(v) is type(x) for x in ok), rule, what, f"default is {v!r}, required {ok[0]!r}", floc(f))


def joined(x):
    """Text of the items of a sequence, one after the other."""
    if x.op in ("list", "tuple") and not any(y.op == "star" for y in x.args):
        return fmt(list(x.args))
    if x.op == "cat":
        return fmt([joined(p) for p in x.args])
    if x.op == "ite":
        return ite(x.args[0], joined(x.args[1]), joined(x.args[2]))
    if x.op == "flat":
        D, h, body = x.args
        if D is ZERO:
            return const("")
        return mk("call", ".join", (const(""), renorm("flat", (D, h, mk("list", joined(body))))), (), NONE)
    return mk("call", ".join", (const(""), x), (), NONE)


def texts(t):
    """Texts in one form, whether they grow piece by piece or are joined from a list."""

    def grown(body, acc):
        if body is acc:
            return mk("list")
        if body.op == "fmt" and body.args[0] is acc:
            return mk("list", fmt(list(body.args[1:])))
        if body.op == "ite":
            a, b = grown(body.args[1], acc), grown(body.args[2], acc)
            return None if a is None or b is None else ite(body.args[0], a, b)
        return None

    def f(x):
        if x.op == "fold" and x.args[0] is ZERO:
            return x.args[3]
        if x.op == "fold":
            D, h, body, init = x.args
            acc = mk("acc", h)
            more = grown(body, acc)
            if more is not None and not has(more, acc):
                return fmt([init, joined(renorm("flat", (D, h, more)))])
        if x.op == "call" and x.args[0] == ".join" and len(x.args[1]) == 2 and x.args[1][0] is const(""):
            return joined(x.args[1][1])
        return x

    def g(x):
        x = f(x)
        if x.op == "fmt" and len(x.args) == 1 and x.args[0].op == "call" and x.args[0].args[0] == ".join":
            return x.args[0]
        return x

    return rewrite(t, g)
