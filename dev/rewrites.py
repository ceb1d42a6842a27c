"""Behaviour-preserving rewrites of one source file."""
import ast, copy

from .faults import functions, isdoc


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def variants(src, fn=None):
    base = ast.parse(src)
    for q, _ in functions(base, fn):
        # each rewrite works on a fresh copy and finds the function again
        for make in (helper, ifswap, temps, ret_temp, aug, rename, whileloop, enumerate_counter, comp_loop, guard, split_and, fmtstr, indexloop, kwargs, earlycont, listcall, ternary, callfn, notcmp, selfalias, noopelse):
            k = 0
            while True:
                t = copy.deepcopy(base)
                fq = dict((a, (a, b)) for a, b in functions(t, fn))[q][1]
                owner = find_owner(t, fq)
                try:
                    r = make(t, owner, fq, k)
                except Exception as ex:  # a generator that does not apply
                    r = None
                    if not isinstance(ex, StopIteration):
                        print("generator", make.__name__, q, ex)
                        break
                if r is None:
                    break
                if r:
                    ast.fix_missing_locations(t)
                    yield f"{q} {make.__name__}#{k} {r if isinstance(r, str) else ''}", ast.unparse(t)
                k += 1


def find_owner(t, f):
    for n in ast.walk(t):
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list) and f in b:
                return n
    return t


def blocks(f):
    for n in ast.walk(f):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def nth(it, k):
    for i, x in enumerate(it):
        if i == k:
            return x
    return None


def helper(t, owner, f, k):
    """Move one statement (or run of two) into a helper."""
    cands = []
    for b in blocks(f):
        for i, st in enumerate(b):
            if isdoc(st) or isinstance(st, (ast.Return, ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)):
                continue
            for ln in (1, 2):
                run = b[i:i + ln]
                if len(run) != ln:
                    continue
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Nonlocal)) and not
                       (isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)))
                       for s in run for x in ast.walk(s)):
                    # allow break/continue inside loops wholly inside the run
                    if not all(isinstance(s, (ast.For, ast.While)) for s in run) or any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef)) for s in run for x in ast.walk(s)):
                        continue
                cands.append((b, i, ln))
    if k >= len(cands):
        return None
    b, i, ln = cands[k]
    run = b[i:i + ln]
    inner = {x.name for x in ast.walk(f) if x is not f and isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    if any(names(s, ast.Load) & ({"super"} | inner) for s in run):
        return False
    local = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            local.add(x.id)
    a = f.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    # enclosing function names are not visible in a helper at class/module level
    scope = local | set(params)
    comp = set()
    for s in run:
        for x in ast.walk(s):
            if isinstance(x, ast.comprehension):
                comp |= names(x.target, ast.Store)
            if isinstance(x, ast.Lambda):
                comp |= {y.arg for y in x.args.args}
    loads = set()
    for s in run:
        loads |= names(s, ast.Load)
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                loads.add(x.target.id)
    stores = set()
    for s in run:
        stores |= {x for x in names(s, ast.Store)} - comp
    # stored names used elsewhere in the function have to be returned
    inside = {id(x) for s in run for x in ast.walk(s)}
    used = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
    inloop = True
    outs = sorted(stores & (used | loads))
    definite = all(isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) for s in run)
    # a helper is only safe when everything it returns was bound before, or is bound by straight assignments
    first = set()
    ins = []
    bound = set()
    for s in run:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ins += [x for x in (names(s, ast.Load) | ({s.target.id} if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) else set())) if x not in bound]
            bound |= names(s, ast.Store)
        else:
            ins += [x for x in names(s, ast.Load) | names(s, ast.Store) - comp if x not in bound]
    if not definite and outs:
        before = set(params)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < run[0].lineno:
                before.add(x.id)
        for s in run:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                before |= names(s, ast.Store)
        if not set(outs) <= before:
            return False
    ins = [x for x in dict.fromkeys(sorted(ins)) if x in scope and (x not in comp or x in params)]
    if not definite:
        # only names certainly bound may be passed
        before = set(params) | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < run[0].lineno}
        ins = [x for x in ins if x in before]
    if any(isinstance(x, ast.FunctionDef) and x is not f and any(r is y for y in ast.walk(x) for r in run) for x in ast.walk(f)):
        return False
    method = isinstance(owner, ast.ClassDef) and params[:1] == ["self"]
    name = "_helper_extracted"
    static = not method
    ret = ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())) if len(outs) > 1 else (ast.Return(ast.Name(outs[0], ast.Load())) if outs else None)
    ins = [x for x in ins if x != "self"]
    fd = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in (["self"] if method else []) + ins], None, [], [], None, []), list(run) + ([ret] if ret else []), [], None)
    func = ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()) if method else ast.Name(name, ast.Load())
    call = ast.Call(func, [ast.Name(x, ast.Load()) for x in ins], [])
    if not outs:
        new = ast.Expr(call)
    else:
        tgt = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
        new = ast.Assign([tgt], call)
    b[i:i + ln] = [new]
    if method:
        owner.body.append(fd)
    else:
        if isinstance(owner, ast.ClassDef):
            return False
        if isinstance(owner, ast.Module):
            owner.body.insert(owner.body.index(f), fd)
        else:
            return False
    return ast.unparse(run[0]).split("\n")[0][:60]


def ifswap(t, owner, f, k):
    n = nth((x for x in ast.walk(f) if isinstance(x, ast.If) and x.orelse), k)
    if n is None:
        return None
    n.test = ast.UnaryOp(ast.Not(), n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def noopelse(t, owner, f, k):
    n = nth((x for x in ast.walk(f) if isinstance(x, ast.If) and not x.orelse), k)
    if n is None:
        return None
    n.orelse = n.body
    n.body = [ast.Pass()]
    n.test = ast.UnaryOp(ast.Not(), n.test)
    return True


def temps(t, owner, f, k):
    """Name one argument of a call before the call."""
    c = []
    for b in blocks(f):
        for i, st in enumerate(b):
            if isinstance(st, (ast.Assign, ast.Expr, ast.AugAssign, ast.Return)):
                v = st.value
                if isinstance(v, ast.Call):
                    for j, a in enumerate(v.args):
                        if not isinstance(a, (ast.Name, ast.Constant, ast.Starred)):
                            c.append((b, i, v.args, j))
                    for kw in v.keywords:
                        if kw.arg and not isinstance(kw.value, (ast.Name, ast.Constant)):
                            c.append((b, i, kw, None))
                elif isinstance(v, ast.BinOp):
                    c.append((b, i, v, "left"))
    if k >= len(c):
        return None
    b, i, tgt, j = c[k]
    if isinstance(tgt, list):
        if any(isinstance(x, ast.Call) for y in tgt[:j] for x in ast.walk(y)):
            return False
        e = tgt[j]
        tgt[j] = ast.Name("tmp_value", ast.Load())
    elif j == "left":
        e = tgt.left
        tgt.left = ast.Name("tmp_value", ast.Load())
    else:
        e = tgt.value
        tgt.value = ast.Name("tmp_value", ast.Load())
    b.insert(i, ast.Assign([ast.Name("tmp_value", ast.Store())], e))
    return True


def ret_temp(t, owner, f, k):
    c = [(b, i) for b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None]
    if k >= len(c):
        return None
    b, i = c[k]
    v = b[i].value
    b[i].value = ast.Name("result_value", ast.Load())
    b.insert(i, ast.Assign([ast.Name("result_value", ast.Store())], v))
    return True


def aug(t, owner, f, k):
    c = [(b, i) for b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute))]
    if k >= len(c):
        return None
    b, i = c[k]
    s = b[i]
    l = copy.deepcopy(s.target)
    l.ctx = ast.Load()
    b[i] = ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
    return True


def rename(t, owner, f, k):
    ps = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
    loc = sorted(names(f, ast.Store) - ps)
    if k >= len(loc):
        return None
    for x in ast.walk(f):
        if isinstance(x, (ast.Nonlocal, ast.Global)):
            return False
        if isinstance(x, ast.arg) and x.arg == loc[k]:
            return False
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id == loc[k]:
            x.id = loc[k] + "_rn"
        if isinstance(x, ast.ExceptHandler) and x.name == loc[k]:
            return False
    return loc[k]


def whileloop(t, owner, f, k):
    """for over range -> while."""
    c = []
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and isinstance(s.target, ast.Name) and not s.orelse \
               and len(s.iter.args) <= 2 and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) and isinstance(s.iter.args[-1], (ast.Name, ast.Attribute, ast.Call)):
                c.append((b, i))
    if k >= len(c):
        return None
    b, i = c[k]
    s = b[i]
    lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
    v = s.target.id if s.target.id != "_" else "loop_i"
    if s.target.id != "_" and any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno for x in ast.walk(f)):
        return False
    stop = ast.Assign([ast.Name("stop_value", ast.Store())], s.iter.args[-1])
    b[i:i + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo), stop,
                  ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name("stop_value", ast.Load())]),
                            s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    return True


def enumerate_counter(t, owner, f, k):
    c = []
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) \
               and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                c.append((b, i))
    if k >= len(c):
        return None
    b, i = c[k]
    s = b[i]
    ix = s.target.elts[0].id
    if any(isinstance(x, ast.Name) and x.id == ix and x.lineno > s.end_lineno for x in ast.walk(f)):
        return False
    b[i:i + 1] = [ast.Assign([ast.Name(ix, ast.Store())], ast.Constant(0)),
                  ast.For(s.target.elts[1], s.iter.args[0], s.body + [ast.AugAssign(ast.Name(ix, ast.Store()), ast.Add(), ast.Constant(1))], s.orelse)]
    return True


def comp_loop(t, owner, f, k):
    """x = [e for v in it if c] -> loop with append (also nested in a call argument / return)."""
    c = []
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign)) and s.value is not None:
                for x in ast.walk(s.value):
                    if isinstance(x, ast.ListComp) and len(x.generators) == 1:
                        c.append((b, i, s, x))
                        break
    if k >= len(c):
        return None
    b, i, s, x = c[k]
    inner = any(isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.Lambda)) and x is not y and any(z is x for z in ast.walk(y)) for y in ast.walk(s.value))
    if inner:
        return False
    g = x.generators[0]
    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_list", ast.Load()), "append", ast.Load()), [x.elt], []))]
    for cnd in reversed(g.ifs):
        body = [ast.If(cnd, body, [])]

    class R(ast.NodeTransformer):
        def visit_ListComp(self, n):
            return ast.Name("acc_list", ast.Load()) if n is x else n

    s.value = R().visit(s.value)
    b[i:i] = [ast.Assign([ast.Name("acc_list", ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
    return True


def guard(t, owner, f, k):
    """trailing `if c: A` at end of function -> `if not c: return` ; A"""
    b = f.body
    if k > 0 or not b or not isinstance(b[-1], ast.If) or b[-1].orelse:
        return None
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
        pass
    s = b[-1]
    b[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
    return True


def earlycont(t, owner, f, k):
    """last `if c: A` in a loop body -> `if not c: continue` ; A"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.For) and x.body and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse]
    if k >= len(c):
        return None
    b = c[k].body
    s = b[-1]
    b[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
    return True


def split_and(t, owner, f, k):
    c = [x for x in ast.walk(f) if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And)]
    if k >= len(c):
        return None
    x = c[k]
    first, rest = x.test.values[0], x.test.values[1:]
    r = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
    x.test = first
    x.body = [ast.If(r, x.body, [])]
    return True


def fmtstr(t, owner, f, k):
    """'..{}..'.format(a) -> f-string, f-string -> format."""
    c = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "format" and isinstance(x.func.value, ast.Constant) and not x.keywords]
    if k >= len(c):
        return None
    x = c[k]
    parts = x.func.value.value.split("{}")
    if len(parts) != len(x.args) + 1:
        return False
    vals = []
    for i, p in enumerate(parts):
        if p:
            vals.append(ast.Constant(p))
        if i < len(x.args):
            vals.append(ast.FormattedValue(x.args[i], -1, None))
    j = ast.JoinedStr(vals)

    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            if n is x:
                return j
            return self.generic_visit(n)

    R().visit(f)
    return True


def indexloop(t, owner, f, k):
    """for x in name: -> for i in range(len(name)): x = name[i]   (name is a plain list variable/attribute)"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.For) and isinstance(x.iter, (ast.Name, ast.Attribute)) and not isinstance(x.iter, ast.Call)]
    if k >= len(c):
        return None
    x = c[k]
    src = ast.unparse(x.iter)
    # only when the iterable is visibly a list
    ok = False
    for a in f.args.args:
        if isinstance(x.iter, ast.Name) and a.arg == x.iter.id and a.annotation is not None and ast.unparse(a.annotation).lower().startswith(("list", "typing.list")):
            ok = True
    if not ok:
        return False
    tgt = x.target
    x.body.insert(0, ast.Assign([tgt], ast.Subscript(x.iter, ast.Name("idx_i", ast.Load()), ast.Load())))
    x.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(x.iter)], [])], [])
    x.target = ast.Name("idx_i", ast.Store())
    return True


def kwargs(t, owner, f, k):
    """positional -> keyword for calls to functions defined in this file."""
    defs = {}
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                    defs[n.name] = [a.arg for a in m.args.args][1:]
        elif isinstance(n, ast.FunctionDef) and n in t.body:
            defs[n.name] = [a.arg for a in n.args.args]
    c = [x for x in ast.walk(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in defs and x.args and not any(isinstance(a, ast.Starred) for a in x.args)]
    if k >= len(c):
        return None
    x = c[k]
    p = defs[x.func.id]
    if len(p) < len(x.args):
        return False
    x.keywords = [ast.keyword(p[i], a) for i, a in enumerate(x.args)] + x.keywords
    x.args = []
    return True


def listcall(t, owner, f, k):
    """list(generator expression) / sum(list comp) forms."""
    c = [x for x in ast.walk(f) if isinstance(x, ast.ListComp)]
    if k >= len(c):
        return None
    x = c[k]

    class R(ast.NodeTransformer):
        def visit_ListComp(self, n):
            if n is x:
                return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])
            return self.generic_visit(n)

    R().visit(f)
    return True


def ternary(t, owner, f, k):
    """x = a if c else b -> if/else statement."""
    c = [(b, i) for b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp)]
    if k >= len(c):
        return None
    b, i = c[k]
    s = b[i]
    e = s.value
    b[i] = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
    return True


def callfn(t, owner, f, k):
    """hoist a method lookup: obj.m(...) -> fn = obj.m ; fn(...)"""
    c = [(b, i) for b in blocks(f) for i, s in enumerate(b) if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and "super" not in ast.unparse(s.value.func)]
    if k >= len(c):
        return None
    b, i = c[k]
    s = b[i]
    fnx = s.value.func
    s.value.func = ast.Name("bound_fn", ast.Load())
    b.insert(i, ast.Assign([ast.Name("bound_fn", ast.Store())], fnx))
    return True


def notcmp(t, owner, f, k):
    """a < b -> not a >= b (integers), x is None -> not x is not None, a == b -> not a != b"""
    c = [x for x in ast.walk(f) if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot))]
    if k >= len(c):
        return None
    x = c[k]
    inv = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            if n is x:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [inv[type(n.ops[0])]()], n.comparators))
            return self.generic_visit(n)

    R().visit(f)
    return True


def selfalias(t, owner, f, k):
    """read of self.attr through a local: only for attributes never assigned in this function."""
    if not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__":
        return None
    st = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == "self"}
    methods = {m.name for m in getattr(owner, "body", []) if isinstance(m, ast.FunctionDef)}
    # attributes assigned only in __init__ of the class
    other = set()
    for m in getattr(owner, "body", []):
        if isinstance(m, ast.FunctionDef) and m.name != "__init__":
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    other.add(x.attr)
    init = set()
    for m in getattr(owner, "body", []):
        if isinstance(m, ast.FunctionDef) and m.name == "__init__":
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    init.add(x.attr)
    c = sorted({x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self"} & init - st - methods - other)
    if k >= len(c):
        return None
    at = c[k]

    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            if n.attr == at and isinstance(n.value, ast.Name) and n.value.id == "self":
                return ast.Name("alias_" + at.strip("_"), ast.Load())
            return self.generic_visit(n)

    nested = [x for x in f.body if isdoc(x)]
    body = [R().visit(s) for s in f.body if not isdoc(s)]
    f.body = nested + [ast.Assign([ast.Name("alias_" + at.strip("_"), ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), at, ast.Load()))] + body
    return at
