"""Small faults in one source file."""
import ast, copy

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}
SKIPCALLS = ("logger", "get_logger", "print", "debug", "info", "warning")


def isdoc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)


def logging(st):
    for n in ast.walk(st):
        if isinstance(n, (ast.Name, ast.Attribute)):
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm in SKIPCALLS:
                return True
    return False


def functions(tree, fn):
    out = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef) and (fn is None or any(q == f or q.startswith(f + ".") for f in fn.split(","))):
                    out.append((q, c))
                else:
                    walk(c, q + ".")
                    continue
                walk(c, q + ".")
    walk(tree, "")
    return out


def variants(src, fn=None):
    tree = ast.parse(src)
    for q, f in functions(tree, fn):
        def text():
            return ast.unparse(tree)
        # statement faults
        for n in ast.walk(f):
            for field in ("body", "orelse", "finalbody"):
                b = getattr(n, field, None)
                if not isinstance(b, list):
                    continue
                for i, st in enumerate(list(b)):
                    if not isinstance(st, ast.stmt) or isdoc(st) or logging(st) or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Assert, ast.Raise, ast.Pass, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.AnnAssign)):
                        b[i] = ast.Pass()
                        yield f"{q}:{st.lineno} drop {ast.unparse(st)[:60]!r}", text()
                        b[i] = st
                    if isinstance(st, ast.If):
                        t = st.test
                        st.test = ast.UnaryOp(ast.Not(), t)
                        yield f"{q}:{st.lineno} negate if {ast.unparse(t)[:60]!r}", text()
                        st.test = t
                        if not any(isinstance(x, (ast.Raise,)) for x in st.body):
                            b[i:i+1] = st.body
                            yield f"{q}:{st.lineno} always if {ast.unparse(t)[:60]!r}", text()
                            b[i:i+len(st.body)] = [st]
                    if isinstance(st, ast.Return) and st.value is not None and not (isinstance(st.value, ast.Constant) and st.value.value is None):
                        v = st.value
                        st.value = ast.Constant(None)
                        yield f"{q}:{st.lineno} return None for {ast.unparse(v)[:60]!r}", text()
                        st.value = v
                    if i + 1 < len(b) and isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[i + 1], (ast.Assign, ast.AugAssign, ast.Expr)) and not logging(b[i + 1]):
                        b[i], b[i + 1] = b[i + 1], b[i]
                        yield f"{q}:{st.lineno} SWAPSTMT {ast.unparse(st)[:40]!r} <-> {ast.unparse(b[i])[:40]!r}", text()
                        b[i], b[i + 1] = b[i + 1], b[i]
        # expression faults
        skip = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Assert, ast.Raise)) or (isinstance(n, ast.Expr) and logging(n)) or isdoc(n):
                for x in ast.walk(n):
                    skip.add(id(x))
            for a in ("annotation", "returns"):
                if getattr(n, a, None) is not None:
                    for x in ast.walk(getattr(n, a)):
                        skip.add(id(x))
        for n in ast.walk(f):
            if id(n) in skip:
                continue
            ln = getattr(n, "lineno", 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = n.ops[0]
                for r in CMP.get(type(o), []):
                    n.ops[0] = r()
                    yield f"{q}:{ln} {type(o).__name__}->{r.__name__} {ast.unparse(n)[:60]!r}", text()
                n.ops[0] = o
            elif isinstance(n, (ast.BinOp, ast.AugAssign)):
                o = n.op
                for r in BIN.get(type(o), []):
                    n.op = r()
                    yield f"{q}:{ln} {type(o).__name__}->{r.__name__} {ast.unparse(n)[:60]!r}", text()
                n.op = o
                if isinstance(n, ast.AugAssign):
                    pass
                elif isinstance(o, (ast.Sub, ast.FloorDiv, ast.Mod, ast.Div)):
                    n.left, n.right = n.right, n.left
                    yield f"{q}:{ln} swap operands {ast.unparse(n)[:60]!r}", text()
                    n.left, n.right = n.right, n.left
            elif isinstance(n, ast.BoolOp):
                o = n.op
                n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                yield f"{q}:{ln} and/or {ast.unparse(n)[:60]!r}", text()
                n.op = o
                for i in range(len(n.values)):
                    v = n.values.pop(i)
                    if len(n.values) >= 1:
                        yield f"{q}:{ln} drop operand {ast.unparse(v)[:60]!r}", text() if len(n.values) > 1 else text()
                    n.values.insert(i, v)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                pass
            elif isinstance(n, ast.IfExp):
                n.body, n.orelse = n.orelse, n.body
                yield f"{q}:{ln} swap ifexp {ast.unparse(n)[:60]!r}", text()
                n.body, n.orelse = n.orelse, n.body
            elif isinstance(n, ast.Constant):
                v = n.value
                alts = []
                if isinstance(v, bool):
                    alts = [not v]
                elif isinstance(v, int):
                    alts = [v + 1, v - 1]
                elif isinstance(v, float):
                    alts = [v + 1]
                elif isinstance(v, str) and v and len(v) < 40:
                    alts = [v[:-1] + chr(ord(v[-1]) + 1) if v[-1] != "z" else v[:-1] + "a"]
                elif v is None:
                    alts = [0]
                for a in alts:
                    n.value = a
                    yield f"{q}:{ln} const {v!r}->{a!r}", text()
                n.value = v
            elif isinstance(n, ast.Call):
                if isinstance(n.func, (ast.Name, ast.Attribute)):
                    for i in range(len(n.args) - 1):
                        if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]) and not isinstance(n.args[i], ast.Starred) and not isinstance(n.args[i+1], ast.Starred):
                            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                            yield f"{q}:{ln} swap args {i} {ast.unparse(n)[:70]!r}", text()
                            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                    for i in range(len(n.keywords)):
                        k = n.keywords.pop(i)
                        yield f"{q}:{ln} drop kw {k.arg} of {ast.unparse(n.func)[:60]!r}", text()
                        n.keywords.insert(i, k)
                    if n.args and not isinstance(n.args[-1], ast.Starred) and len(n.args) > 1:
                        v = n.args.pop()
                        yield f"{q}:{ln} drop last arg of {ast.unparse(n.func)[:60]!r}", text()
                        n.args.append(v)
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                s = n.slice
                for part in ("lower", "upper"):
                    v = getattr(s, part)
                    if v is not None:
                        setattr(s, part, None)
                        yield f"{q}:{ln} drop slice {part} {ast.unparse(v)[:40]!r}", text()
                        setattr(s, part, v)
            elif isinstance(n, ast.Dict):
                for i in range(len(n.keys)):
                    k, v = n.keys.pop(i), n.values.pop(i)
                    yield f"{q}:{ln} drop dict item {ast.unparse(k)[:40] if k else '**'}", text()
                    n.keys.insert(i, k); n.values.insert(i, v)
        # name confusions: same-function parameters exchanged at one use
        ps = [a.arg for a in f.args.args if a.arg not in ("self", "cls")]
        if len(ps) > 1:
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps and id(n) not in skip:
                    o = n.id
                    n.id = ps[(ps.index(o) + 1) % len(ps)]
                    yield f"{q}:{n.lineno} use {n.id} for {o}", text()
                    n.id = o
