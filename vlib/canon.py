"""One form for each of several ways to write the same array computation.

Applied by the rules to both sides of a comparison, after the values have been derived.
"""
from . import terms as TT
from .terms import *
from .seqs import seq_len, array, mk_flat, has, invariant_gate

ROUND = {"math.floor": "floor", "np.floor": "floor", "int": "floor", "math.ceil": "ceil", "np.ceil": "ceil"}


TYPED = {"np.array": 1, "np.ascontiguousarray": 1, "np.asarray": 1, "np.zeros": 1, "np.empty": 1, "np.ones": 1, "np.full": 2}


def quotient(a, b):
    """Rounded down a / b of whole numbers, b > 0: multiples of b taken out, leading sign positive."""
    if is_num_const(b):
        return TT.floordiv(a, b)
    out, best = ZERO, len(TT._monos(a))
    for k in (-2, -1, 1, 2):
        x = sub(a, mul(const(k), b))
        if len(TT._monos(x)) < best:
            out, a, best = const(k), x, len(TT._monos(x))
    lin, k = coefs(a)
    if not lin:
        return add(out, TT.floordiv(a, b))
    first = min(lin, key=lambda m: [x.dig for x in m])
    if not isinstance(lin[first], str) and lin[first] < 0:
        return sub(sub(out, ONE), mk("fdiv", sub(neg(a), ONE), b))
    return add(out, mk("fdiv", a, b))


def inward(x):
    """The smaller (larger) of several numbers, plus something: the smaller of the sums."""
    d = dict(TT._monos(x))
    for m, k in d.items():
        if len(m) == 1 and m[0].op in ("min", "max") and k == 1 and len(d) > 1:
            rest = sub(x, m[0])
            if not any(y.op in ("min", "max") for mm in TT._monos(rest) for y in mm):
                return mk_minmax(m[0].op, *[add(a, rest) for a in m[0].args])
    return x


def whole(x):
    """Certainly a whole number."""
    if x.op == "poly":
        return all(isinstance(k, int) and all(whole(y) for y in m) for m, k in TT._monos(x).items())
    return x.op in ("fdiv", "len", "bv", "iter") or kind(x) == "int"


def rounding(x):
    if x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1 and not x.args[2] and whole(x.args[1][0]):
        return x.args[1][0]
    if x.op == "call" and x.args[0] in ROUND and len(x.args[1]) == 1 and not x.args[2]:
        d = x.args[1][0]
        if d.op == "ite":
            return ite(d.args[0], rounding(mk("call", x.args[0], (d.args[1],), (), x.args[3])), rounding(mk("call", x.args[0], (d.args[2],), (), x.args[3])))
        if d.op == "div":
            a, b = d.args
            return quotient(a, b) if ROUND[x.args[0]] == "floor" else add(ONE, quotient(sub(a, ONE), b))
    if x.op == "fdiv":
        return lift(quotient, *x.args)
    return x


def bounds(s, base):
    """A slice without the bounds it would have anyway."""
    lo, hi, step = s.args
    if step is not NONE and not (is_num_const(step) and cval(step) > 0) and kind(step) != "int" and step.op not in ("sym", "poly"):
        return s
    n = seq_len(base)
    if lo is ZERO:
        lo = NONE
    if hi is n:
        hi = NONE
    if hi.op == "min" and n in hi.args:
        hi = mk_minmax("min", *[h for h in hi.args if h is not n])
    if step is ONE:
        step = NONE
    return mk("slice", lo, hi, step)


def add_column(t, v):
    """Every row of a list of rows with v after it."""
    if t.op == "flat":
        b = add_column(t.args[2], v)
        return None if b is None or has(v, bv(t.args[1])) else mk_flat(t.args[0], t.args[1], b)
    if t.op == "ite":
        a, b = add_column(t.args[1], v), add_column(t.args[2], v)
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.op == "list" and all(r.op == "list" for r in t.args):
        return mk("list", *[mk("list", *(r.args + (v,))) for r in t.args])
    return None


def masked(key):
    """A key that compares a whole array with something."""
    return (key.op in TT.ATOM_OPS or key.op == "ite" and kind(key) == "bool") and contains(key, array)


def strided(x):
    """A walk over every n-th element as a walk over all of them, every n-th one taken."""
    D, h, body = x.args[:3]
    if D.op != "len" or D.args[0].op != "idx" or D.args[0].args[1].op != "slice":
        return x
    s = D.args[0]
    base, (lo, hi, step) = s.args[0], s.args[1].args
    if hi is not NONE or step is NONE or is_num_const(step) or has(base, bv(h)):
        return x
    e = mk("idx", s, bv(h))
    probe = mk("sym", "$element")
    out = rewrite(body, lambda y: probe if y is e else y)
    if has(out, bv(h)) or contains(out, lambda y: y is s):
        return x
    body = rewrite(out, lambda y: mk("idx", base, bv(h)) if y is probe else y)
    g = eq(TT.mod(bv(h), step), ZERO if lo is NONE else lo)
    unit = {"flat": mk("list"), "psum": ZERO, "exists": FALSE}[x.op]
    return TT.renorm(x.op, (seq_len(base), h, ite(g, body, unit)))


UTF8 = (const("utf-8"), const("utf8"), const("UTF-8"))
WHOLE = mk("slice", NONE, NONE, NONE)
JOINED = ("np.concatenate", "np.stack", "np.vstack", "np.hstack", "np.column_stack")
LIFTED = ("np.array", "np.concatenate", "np.full", "np.arange", ".reshape")
SHAPED = ("np.full", "np.zeros", "np.ones", "np.empty")


def outward(x):
    """Gates inside an array expression come before it."""
    parts = ()
    if x.op == "call" and x.args[0] in LIFTED:
        parts = x.args[1] + tuple(v for _, v in x.args[2])
    elif x.op in ("idx", "upd", "attr", "slice", "cat"):
        parts = [a for a in x.args if isinstance(a, T)]
    g = next((a.args[0] for a in parts if a.op == "ite"), None)
    return x if g is None else ite(g, given(x, g, True), given(x, g, False))


def given(t, g, v):
    return rewrite(t, lambda y: const(v) if y is g else y)


def listed(s):
    """A shape given as a tuple, as a list."""
    if s.op == "tuple":
        return mk("list", *s.args)
    if s.op == "cat":
        return cat([listed(p) for p in s.args])
    return s


def arrays(t):
    """One name for each way to copy, cut, pad or extend an array or to round a quotient."""

    def f(x):
        if x.op in ("upd", "idx") and masked(x.args[1]):
            return mk("call", "<mask>", x.args, (), NONE)
        y = outward(x)
        if y is not x:
            return ite(y.args[0], f(y.args[1]), f(y.args[2])) if y.op == "ite" else f(y)
        if x.op == "call":
            name, a, kw = x.args[:3]
            if name in SHAPED and a and a[0].op in ("tuple", "cat"):
                shape = listed(a[0])
                if shape is not a[0]:
                    return f(mk("call", name, (shape,) + a[1:], kw, x.args[3]))
            if name in (".view", ".astype") and len(a) == 1 and dict(kw).get("dtype") is not None:
                return mk("call", name, a + (dict(kw)["dtype"],), tuple(p for p in kw if p[0] not in ("dtype", "copy")), x.args[3])
            if name in TYPED and len(a) == TYPED[name] + 1 and "dtype" not in dict(kw):
                return f(mk("call", name, a[:-1], tuple(sorted(kw + (("dtype", a[-1]),))), x.args[3]))
            if name in JOINED and a and a[0].op == "tuple":
                return f(mk("call", name, (mk("list", *a[0].args),) + a[1:], kw, x.args[3]))
            if name == "np.column_stack" and len(a) == 1 and not kw:
                return mk("call", "np.stack", a, (("axis", ONE),), x.args[3])
            if name == "np.ascontiguousarray":
                return f(mk("call", "np.array", a, kw, x.args[3]))
            if name in ("np.array", "np.asarray", ".copy") and len(a) == 1 and not kw and array(a[0]):
                return a[0]
            if name == "np.concatenate" and len(a) == 1 and not kw and a[0].op in ("list", "tuple") and len(a[0].args) == 1 and array(a[0].args[0]):
                return a[0].args[0]
            if name == "np.sum" and len(a) == 1 and not kw:
                return mk("call", ".sum", a, (), NONE)
            if name in (".copy", "np.copy") and len(a) == 1 and not kw:
                return a[0] if array(a[0]) else mk("call", "np.copy", a, (), NONE)
            if name == "bytes" and len(a) == 2 and a[1] in UTF8 and not kw or name == ".encode" and len(a) <= 2 and a[-1] in UTF8 and not kw:
                return mk("call", ".encode", a[:1], (), NONE)
            if name == "sorted" and len(a) == 1 and a[0].op == "call" and a[0].args[0] == "list" and len(a[0].args[1]) == 1:
                return f(mk("call", "sorted", a[0].args[1], kw, x.args[3]))
            if name == ".readlines" and len(a) == 1 and a[0].op == "call" and a[0].args[0] == "open":
                return a[0]
            if name == "np.arange" and len(a) == 3 and not kw:
                return mk("call", name, a[:2], (("step", a[2]),), x.args[3])
            if name == "np.concatenate" and kw == (("axis", ONE),) and len(a) == 1 and a[0].op == "list" and len(a[0].args) == 2:
                l, r = a[0].args
                if l.op == r.op == "call" and l.args[0] == "np.array" and r.args[0] == "np.full" and len(r.args[1]) == 2 and r.args[1][0].op == "list":
                    if r.args[1][0].args == (seq_len(l), ONE):
                        rows = add_column(l.args[1][0], r.args[1][1])
                        if rows is not None:
                            return mk("call", "np.array", (rows,) + l.args[1][1:], l.args[2], l.args[3])
            return rounding(x)
        if x.op == "fdiv":
            return rounding(x)
        if x.op in ("repeat", "poly"):
            y = times(x)
            return inward(y) if y.op == "poly" else y
        if x.op == "upd" and x.args[0].op == "upd" and x.args[0].args[1] is x.args[1]:
            x = mk("upd", x.args[0].args[0], *x.args[1:])
        if x.op in ("idx", "upd") and x.args[1].op == "slice":
            s = bounds(x.args[1], x.args[0])
            x = x if s is x.args[1] else mk(x.op, x.args[0], s, *x.args[2:])
            x = outward(x)
            if x.op == "ite":
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if x.op == "idx" and x.args[1] is WHOLE and (array(x.args[0]) or kind(x.args[0]) in TT.SEQ_KINDS):
            return x.args[0]
        if x.op == "upd" and x.args[1] is WHOLE and array(x.args[2]) and seq_len(x.args[0]) is seq_len(x.args[2]):
            return x.args[2]
        if x.op == "len":
            return seq_len(x.args[0])
        if x.op == "idx" and x.args[1] is ZERO and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
            return seq_len(x.args[0].args[0])
        if x.op == "upd" and x.args[1] is ZERO and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
            return cat([mk("list", x.args[2]), mk("idx", x.args[0], mk("slice", ONE, NONE, NONE))])
        if x.op == "upd" and x.args[1].op == "slice":
            return padded(x)
        if x.op in ("flat", "psum", "exists"):
            x = strided(x)
        if x.op == "exists":
            g = invariant_gate(x.args[2], bv(x.args[1]))
            if g is not None:
                parts = [TT.renorm("exists", (x.args[0], x.args[1], assume(x.args[2], g, v))) for v in (True, False)]
                return ite(g, f(parts[0]), f(parts[1]))
        if x.op == "flat" and is_num_const(x.args[0]) and 0 <= cval(x.args[0]) <= 8:
            return cat([subst(x.args[2], {bv(x.args[1]).dig: const(i)}) for i in range(cval(x.args[0]))])
        if x.op == "flat" and x.args[2].op == "list" and len(x.args[2].args) == 1:
            g = invariant_gate(x.args[2].args[0], bv(x.args[1]))
            if g is not None:
                parts = [mk_flat(x.args[0], x.args[1], mk("list", given(x.args[2].args[0], g, v))) for v in (True, False)]
                return ite(g, f(parts[0]), f(parts[1]))
        if x.op == "mod" and is_num_const(x.args[1]):
            lin, k = coefs(x.args[0])
            n = cval(x.args[1])
            if isinstance(n, int) and n and all(isinstance(v, int) and v % n == 0 for v in list(lin.values()) + [k]):
                return ZERO
        return x

    for _ in range(4):
        t, old = rewrite(t, f), t
        if t is old:
            break
    return t


def times(x):
    """Columns of a table multiplied by one number each: only those that change."""
    if x.op == "repeat":
        by, table = x.args
    else:
        d = TT._monos(x)
        m = next(iter(d))
        if len(d) != 1 or d[m] != 1 or len(m) != 2 or not all(map(array, m)):
            return x
        by = next((y for y in m if y.args[0] == "np.array" and y.args[1][0].op in ("list", "tuple")), m[0])
        table = m[1] if by is m[0] else m[0]
        by = by.args[1][0]
    if not array(table) or by.op not in ("list", "tuple"):
        return x
    out = table
    for i, v in enumerate(by.args):
        if v is not ONE:
            key = mk("tuple", WHOLE, const(i))
            out = mk("upd", out, key, mul(mk("idx", table, key), v))
    return out


def padded(x):
    """Rows copied to the front of a filled array: the rows and then the filling."""
    full, s, r = x.args
    if full.op != "call" or full.args[0] != "np.full" or len(full.args[1]) != 2 or s.args[0] is not NONE or s.args[2] is not NONE or s.args[1] is not seq_len(r):
        return x
    rest = mk("idx", mk("attr", r, "shape"), mk("slice", ONE, NONE, NONE))
    shape = full.args[1][0]
    if shape.op != "cat" or len(shape.args) != 2 or shape.args[1] is not rest or shape.args[0].op not in ("list", "tuple") or len(shape.args[0].args) != 1:
        return x
    more = sub(shape.args[0].args[0], seq_len(r))
    fill = mk("call", "np.full", (cat([mk("list", more), rest]), full.args[1][1]), full.args[2], full.args[3])
    return mk("call", "np.concatenate", (mk("list", r, fill),), (), NONE)
