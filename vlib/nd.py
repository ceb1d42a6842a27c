"""Arrays as sequences: a vector is the sequence of its elements, a table the tuple of its columns."""
from .seqs import *
from . import terms as TT

WHOLE = mk("slice", NONE, NONE, NONE)
SAME_INT = ("np.int64", "int")


def table(*cols):
    return mk("table", *cols)


def fresh(*ts):
    """A height no binder and no bound variable of the terms has."""
    return 1 + max([0] + [x.args[0] if x.op in ("bv", "acc") else height(x) for t in ts for x in subterms(t) if x.op in ("bv", "acc") or x in ts])


def is_seq(t):
    if t.op == "ite":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    if t.op == "flat":
        return is_seq(t.args[2])
    return t.op in ("list", "cat", "repeat", "weave", "ranks") or t.op == "call" and t.args[0] in ("flatten", "unique") or t.op == "idx" and t.args[1].op == "slice" and is_seq(t.args[0])


def each(t, fn):
    """fn of every element, in order."""
    if t.op == "list":
        return mk("list", *map(fn, t.args))
    if t.op in ("cat", "weave"):
        parts = [each(p, fn) for p in t.args]
        return cat(parts) if t.op == "cat" else mk("weave", *parts)
    if t.op == "repeat":
        return mk("repeat", each(t.args[0], fn), t.args[1])
    if t.op == "flat":
        h = max(t.args[1], 1)
        return mk_flat(t.args[0], h, each(t.args[2], fn))
    if t.op == "ite":
        return ite(t.args[0], each(t.args[1], fn), each(t.args[2], fn))
    probe = mk("sym", "$probe")
    e = fn(probe)
    if e is probe:
        return t
    h = fresh(e, t)
    return mk_flat(seq_len(t), h, mk("list", subst(e, {probe.dig: seq_idx(t, bv(h))})))


def repeated(x, n):
    return mk_flat(n, fresh(x, n), mk("list", x))


def counted(lo, n):
    h = fresh(lo, n)
    return mk_flat(n, h, mk("list", add(lo, bv(h))))


def split(t, n):
    """The sequence before and from position n, when it is a seam."""
    if n is ZERO:
        return mk("list"), t
    parts = list(t.args) if t.op == "cat" else [t]
    if all(p.op == "weave" for p in parts) and False:
        return None
    got = ZERO
    for i, p in enumerate(parts):
        got = add(got, seq_len(p))
        if got is n:
            return cat(parts[:i + 1]), cat(parts[i + 1:]) if i + 1 < len(parts) else mk("list")
    return None


def rows(t):
    """A sequence of rows of one width as a table."""
    if t.op == "list" and t.args and all(r.op in ("list", "tuple") for r in t.args) and len({len(r.args) for r in t.args}) == 1 and t.args[0].args:
        return table(*[mk("list", *[r.args[k] for r in t.args]) for k in range(len(t.args[0].args))])
    if t.op == "flat":
        b = rows(t.args[2])
        return None if b is None else table(*[mk_flat(t.args[0], t.args[1], c) for c in b.args])
    if t.op == "repeat":
        b = rows(t.args[0])
        return None if b is None else table(*[mk("repeat", c, t.args[1]) for c in b.args])
    if t.op == "cat":
        bs = [rows(p) for p in t.args]
        if any(b is None for b in bs) or len({len(b.args) for b in bs}) != 1:
            return None
        return table(*[cat(list(cs)) for cs in zip(*[b.args for b in bs])])
    if t.op == "ite":
        a, b = rows(t.args[1]), rows(t.args[2])
        for x, y in ((t.args[1], b), (t.args[2], a)):
            if x.op == "list" and not x.args and y is not None:
                a, b = a or table(*[x] * len(y.args)), b or table(*[x] * len(y.args))
        if a is None or b is None or len(a.args) != len(b.args):
            return None
        return table(*[ite(t.args[0], x, y) for x, y in zip(a.args, b.args)])
    return None


def chunks(t, k):
    """A vector cut into rows of k, as a table."""
    if k < 1:
        return None
    if k == 1:
        return table(t)
    if t.op == "weave" and len(t.args) == k:
        return table(*t.args)
    if t.op == "list" and len(t.args) % k == 0:
        return table(*[mk("list", *t.args[i::k]) for i in range(k)])
    if t.op == "repeat" and t.args[0].op == "list" and len(t.args[0].args) == 1 and is_num_const(t.args[1]) and cval(t.args[1]) == k:
        return table(*[t.args[0]] * k)
    if t.op == "flat":
        b = chunks(t.args[2], k)
        return None if b is None else table(*[mk_flat(t.args[0], t.args[1], c) for c in b.args])
    if t.op == "cat":
        bs = [chunks(p, k) for p in t.args]
        return None if any(b is None for b in bs) else table(*[cat(list(cs)) for cs in zip(*[b.args for b in bs])])
    if t.op == "ite":
        a, b = chunks(t.args[1], k), chunks(t.args[2], k)
        return None if a is None or b is None else table(*[ite(t.args[0], x, y) for x, y in zip(a.args, b.args)])
    return None


def glued(parts):
    """Arrays one after the other."""
    if parts.op in ("list", "tuple"):
        xs = list(parts.args)
        if xs and all(x.op == "table" for x in xs) and len({len(x.args) for x in xs}) == 1:
            return table(*[cat(list(cs)) for cs in zip(*[x.args for x in xs])])
        if any(x.op == "table" for x in xs):
            return None
        return cat(xs) if xs else mk("list")
    if parts.op == "flat":
        b = glued(parts.args[2])
        if b is None:
            return None
        return table(*[mk_flat(parts.args[0], parts.args[1], c) for c in b.args]) if b.op == "table" else mk_flat(parts.args[0], parts.args[1], b)
    if parts.op == "repeat":
        b = glued(parts.args[0])
        if b is None:
            return None
        g = lambda c: mk_flat(parts.args[1], fresh(c, parts.args[1]), c)
        return table(*map(g, b.args)) if b.op == "table" else g(b)
    if parts.op == "cat":
        bs = [glued(p) for p in parts.args]
        return None if any(b is None for b in bs) else glued(mk("list", *bs))
    return None


def side(xs):
    """Arrays next to each other."""
    cols = []
    for x in xs:
        cols += list(x.args) if x.op == "table" else [x]
    return table(*cols)


def bag(t):
    """Parts of a sequence whose order does not matter."""
    if t.op in ("cat", "weave"):
        out = []
        for p in t.args:
            out += bag(p)
        return sorted({p.dig: p for p in out}.values(), key=lambda p: p.dig)
    if t.op == "list":
        return [mk("list", x) for x in t.args]
    if t.op == "call" and t.args[0] in ("unique", "flatten"):
        return list(t.args[1]) if t.args[0] == "unique" else [t]
    return [t]


def row_bag(t):
    """Parts of a table whose order does not matter."""
    cols = [list(c.args) if c.op == "cat" else [c] for c in t.args]
    if len({len(c) for c in cols}) == 1 and all(len({seq_len(p).dig for p in ps}) == 1 for ps in zip(*cols)):
        parts = {p.dig: p for p in (table(*ps) for ps in zip(*cols))}
        return sorted(parts.values(), key=lambda p: p.dig)
    return [t]


def unique(t):
    return mk("call", "unique", tuple(bag(t)), (), NONE)


def dims(s):
    return list(s.args) if s.op in ("list", "tuple") else [s]


def filled(s, v):
    d = dims(s)
    TT.COUNTS.update(n.dig for n in d)  # negative sizes are refused
    if len(d) == 1:
        return repeated(v, d[0])
    if len(d) == 2 and is_num_const(d[1]) and cval(d[1]) <= 8:
        return table(*[repeated(v, d[0])] * cval(d[1]))
    return None


def whole(dtype):
    return dtype.op == "ext" and dtype.args[0] in SAME_INT or is_const(dtype) and cval(dtype) in ("int64", "i8")


def stored_as(c):
    """Type of the elements of a column made in one piece."""
    e = c.args[0].args[0] if c.op == "repeat" and c.args[0].op == "list" and len(c.args[0].args) == 1 else None
    return e.args[0] if e is not None and e.op == "cast" else None


def cast(t, dtype):
    """Elements stored as another type; whole numbers of full width as they are."""
    if dtype is None or dtype is NONE or whole(dtype):
        return t
    own = dtype.args[0] if dtype.op == "attr" and dtype.args[1] == "dtype" else None
    g = lambda e: e if is_const(e) or own is not None and e.op == "idx" and has(e, own) else mk("cast", dtype, e)
    return table(*[each(c, g) for c in t.args]) if t.op == "table" else each(t, g)


def known_size(n):
    """A number made of the lengths and counts the caller gives."""
    return all(x.op in ("poly", "const", "len", "sym", "floordiv") for x in subterms(n))


def column(c, lo, hi, v):
    """Column with the rows from lo to hi replaced."""
    n = seq_len(c)
    lo = ZERO if lo is NONE else lo
    hi = n if hi is NONE else hi
    a = split(c, lo)
    if a is None:
        return None
    b = split(a[1], sub(hi, lo))
    if b is None:
        return None
    new = v if is_seq(v) or v.op in ("idx", "call") else repeated(v, sub(hi, lo))
    room, size = sub(hi, lo), seq_len(new)
    if room is not size and size is not ONE and known_size(room) and known_size(size):
        new = mk("misfit", new, room)
    return cat([a[0], cast(new, stored_as(c)), b[1]])


def marks(b, v, new):
    """A matrix with one value at the given positions."""
    old = list(b.args[2]) if b.op == "marks" and b.args[1] is v else []
    b = b.args[0] if old else b
    return mk("marks", b, v, tuple(sorted({p.dig: p for p in old + list(new)}.values(), key=lambda p: p.dig)))


def marked(t):
    """A loop marking positions of a matrix."""
    D, h, body, base = t.args
    if body.op == "ite" and not has(body.args[0], bv(h)):
        a, b = marked(mk("scat", D, h, body.args[1], base)), marked(mk("scat", D, h, body.args[2], base))
        return None if a is None or b is None else ite(body.args[0], a, b)
    if body.op != "ups" or base.op not in ("call", "marks") or len({kv.args[1].dig for kv in body.args}) != 1 or has(body.args[0].args[1], bv(h)):
        return None
    new = []
    for kv in body.args:
        if kv.args[0].op != "tuple" or len(kv.args[0].args) != 2 or any(x.op in ("slice", "list") for x in kv.args[0].args):
            return None
        new += row_bag(table(*[mk_flat(D, h, mk("list", x)) for x in kv.args[0].args]))
    return marks(base, body.args[0].args[1], new)


def before(n, h):
    """Sum of n over the rounds before."""
    k = fresh(n, bv(h))
    return mk_psum(bv(h), k, subst(n, {bv(h).dig: bv(k)}))


def runs(t):
    """A loop filling one stretch after the other: what was filled in."""
    D, h, body, base = t.args
    if base.op != "table" or body.op != "ups" or not body.args:
        return None
    cols = list(base.args)
    for kv in body.args:
        key, v = kv.args
        if key.op != "tuple" or len(key.args) != 2 or not is_num_const(key.args[1]):
            return None
        s, k = key.args[0], cval(key.args[1])
        if s.op != "slice" or s.args[2] is not NONE or s.args[0] is NONE or s.args[1] is NONE:
            return None
        n = sub(s.args[1], s.args[0])
        if has(v, mk("acc", h)):
            return None
        if s.args[0] is not before(n, h):
            if any(y.op == "call" and not contains(n, lambda z: z is y) for y in subterms(s.args[0])):
                return None
            cols[k] = mk("stretches", D, h, s.args[0], n, v, cols[k])
            continue
        new = mk_flat(D, h, repeated(v, n) if not is_seq(v) else v)
        c = column(cols[k], ZERO, seq_len(new), new)
        if c is None:
            return None
        cols[k] = c
    return table(*cols)


def history(t):
    """A loop extending a list from its last element: (rounds, step from the element before, first element)."""
    D, h, body, init = t.args
    acc = mk("acc", h)
    if body.op != "cat" or body.args[0] is not acc or len(body.args) != 2 or body.args[1].op != "list" or len(body.args[1].args) != 1:
        return None
    if init.op != "list" or len(init.args) != 1:
        return None
    prev = mk("prev")
    last = (const(-1), bv(h))  # as many elements as rounds, and the first one
    e = rewrite(body.args[1].args[0], lambda x: init.args[0] if x is mk("idx", acc, ZERO) else prev if x.op == "idx" and x.args[0] is acc and x.args[1] in last else x)
    return None if has(e, acc) else (D, h, subst(e, {prev.dig: acc}), init.args[0])


def state(D, h, e, x0):
    """Value after D rounds, each computing e from the value before."""
    return mk("fold", *TT.rebind((D, h, e, x0)))


def steps(x):
    """Lists of the values of a loop: one value computed from the one before."""
    if x.op == "idx" and x.args[0].op == "fold" and (is_num_const(x.args[1]) and cval(x.args[1]) == -1 or x.args[1] is x.args[0].args[0]):
        r = history(x.args[0])
        return x if r is None else state(*r)
    if x.op == "fold":
        r = history(x)
        if r is not None:
            D, h, e, x0 = r
            k = fresh(D, x)
            now = state(bv(k), h, e, x0)
            return cat([mk("list", x0), mk_flat(D, k, mk("list", subst(e, {mk("acc", h).dig: now, bv(h).dig: bv(k)})))])
        lin, k = coefs(x.args[0])
        if k == 1 and len(lin) == 1 and all(c == 1 and m[0].op == "bv" and len(m) == 1 for m, c in lin.items()):
            # the last round of a known one
            D, h, e, x0 = x.args
            D = sub(D, ONE)
            return subst(e, {mk("acc", h).dig: state(D, h, e, x0), bv(h).dig: D})
    return x


def unroll(t):
    """Top down, so that the last element of a list is recognised before the list itself."""
    memo = {}

    def go(x):
        r = memo.get(x.dig)
        if r is None:
            y = x
            for _ in range(4):
                z = steps(y)
                if z is y:
                    break
                y = z

            def ga(a):
                return go(a) if isinstance(a, T) else tuple(ga(v) for v in a) if isinstance(a, tuple) else a

            args = tuple(ga(a) for a in y.args)
            r = memo[x.dig] = y if args == y.args else TT.renorm(y.op, args)
        return r

    return go(t)


def tables(t):
    """Array expressions as vectors and tables."""

    def f(x):
        op = x.op
        if op == "ite" and x.args[1].op == x.args[2].op == "table" and len(x.args[1].args) == len(x.args[2].args):
            return table(*[ite(x.args[0], a, b) for a, b in zip(x.args[1].args, x.args[2].args)])
        if op == "idx" and x.args[0].op == "call" and x.args[0].args[0] == "np.nditer" and x.args[0].args[1][0].op in ("list", "tuple"):
            return mk("tuple", *[seq_idx(v, x.args[1]) for v in x.args[0].args[1][0].args])
        if op == "call":
            y = call(x, *x.args)
            return x if y is None else y
        if op == "attr" and x.args[1] == "size":
            return mul(const(len(x.args[0].args)), seq_len(x.args[0])) if x.args[0].op == "table" else seq_len(x.args[0])
        if op == "attr" and x.args[1] == "shape" and x.args[0].op == "table":
            return mk("tuple", seq_len(x.args[0].args[0]), const(len(x.args[0].args)))
        if op == "attr" and x.args[1] == "T" and x.args[0].op == "call" and x.args[0].args[0] in ("np.array", "np.stack") and x.args[0].args[1][0].op in ("list", "tuple"):
            return side(x.args[0].args[1][0].args)
        if op == "idx" and x.args[1] is ZERO and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
            return seq_len(x.args[0].args[0])
        if op == "len" and x.args[0].op == "table":
            return seq_len(x.args[0].args[0])
        if op == "idx":
            return index(*x.args) or x
        if op == "upd":
            return store(*x.args) or x
        if op == "scat":
            return runs(x) or marked(x) or x
        if op == "fold":
            return filled_rows(x) or x
        if op == "cat" and any(p.op == "left" and p.args[1] is ZERO for p in x.args):
            return cat([p for p in x.args if p.op != "left" or p.args[1] is not ZERO])
        if op == "star":
            return x
        return x

    def call(x, name, a, kw, serial):
        kw = dict(kw)
        if name == "np.reshape" and len(a) == 2 and not kw:
            name, a = ".reshape", (a[0],) + tuple(dims(a[1]))
        elif name == ".reshape" and len(a) == 2 and a[1].op in ("list", "tuple"):
            a = (a[0],) + tuple(a[1].args)
        if name in (".flatten", ".ravel", "np.ravel") and len(a) == 1 and not kw:
            name, a = ".reshape", (a[0], const(-1))
        if name == ".reshape" and not kw and all(is_num_const(v) for v in a[1:]):
            d = [cval(v) for v in a[1:]]
            v = a[0]
            if d == [-1]:
                if v.op == "table":
                    return v.args[0] if len(v.args) == 1 else mk("weave", *v.args)
                return v if is_seq(v) else mk("call", "flatten", (v,), (), NONE)
            if len(d) == 2 and (d[0] == -1 or v.op == "list" and not v.args):
                w = mk("weave", *v.args) if v.op == "table" and len(v.args) > 1 else v.args[0] if v.op == "table" else v
                return (chunks(w, d[1]) or table(*[mk("every", w, const(d[1]), const(i)) for i in range(d[1])])) if is_seq(w) else None
        if name in ("np.array", "np.asarray") and a and (is_seq(a[0]) or a[0].op == "table"):
            dt = kw.get("dtype", a[1] if len(a) > 1 else None)
            return cast(rows(a[0]) or a[0], dt)
        if name == ".astype" and (is_seq(a[0]) or a[0].op == "table"):
            return cast(a[0], kw.get("dtype", a[1] if len(a) > 1 else None))
        if name == ".astype" and len(a) == 2 and a[1].op == "ext" and a[1].args[0] in SAME_INT:
            return a[0]
        if name in ("np.zeros", "np.ones", "np.empty", "np.full") and a:
            dt = kw.get("dtype", a[2 if name == "np.full" else 1] if len(a) > (2 if name == "np.full" else 1) else None)
            v = {"np.zeros": ZERO, "np.ones": ONE, "np.empty": mk("unset")}.get(name) or (a[1] if len(a) > 1 else kw.get("fill_value"))
            dt = dt or (mk("ext", "np.float64") if name != "np.full" else None)
            if dt is not None and not whole(dt):
                v = mk("cast", dt, v)
            return filled(a[0], v)
        if name == "np.arange" and len(a) == 1 and set(kw) <= {"dtype"}:
            return counted(ZERO, a[0])
        if name == "np.repeat" and len(a) == 2 and not kw:
            v, n = a
            h = fresh(v, n)
            k = seq_idx(n, bv(h)) if seq_len(n) is seq_len(v) and kind(n) not in ("int", "num") else n
            return mk_flat(seq_len(v), h, repeated(seq_idx(v, bv(h)), k))
        if name == "np.tile" and len(a) == 2 and not kw and a[1].op not in ("list", "tuple"):
            return mk_flat(a[1], fresh(*a), a[0])
        if name in ("np.block", "np.hstack", "np.column_stack") and len(a) == 1 and a[0].op in ("list", "tuple") and not kw:
            if name != "np.hstack" or any(v.op == "table" for v in a[0].args):
                return side(a[0].args)
        axis = kw.get("axis", a[1] if len(a) > 1 else ZERO)
        if name in ("np.stack", "np.concatenate") and a[0].op in ("list", "tuple") and axis is ONE and set(kw) <= {"axis"}:
            return side(a[0].args)
        if name in ("np.concatenate", "np.vstack") and axis is ZERO and set(kw) <= {"axis"} or name == "np.hstack" and not kw:
            return glued(a[0])
        if name == "np.stack" and a[0].op in ("list", "tuple") and axis is ZERO and set(kw) <= {"axis"}:
            return mk("list", *a[0].args)
        if name == "np.pad" and set(kw) <= {"mode", "constant_values"} and len(a) <= 3:
            return pad(a[0], a[1], kw.get("constant_values", ZERO), a[2] if len(a) > 2 else kw.get("mode", const("constant")))
        if name == "np.unique" and len(a) == 1 and set(kw) <= {"return_inverse", "axis"}:
            ax = kw.get("axis", NONE)
            if a[0].op == "table" and ax is ZERO and "return_inverse" not in kw:
                return mk("call", "unique rows", tuple(row_bag(a[0])), (), NONE)
            if a[0].op != "table" and ax in (NONE, ZERO):
                u = unique(a[0])
                if kw.get("return_inverse", FALSE) is FALSE:
                    return u
                return mk("tuple", u, each(a[0], lambda e: mk("rank", u, e)))
        if name in ("np.sum", ".sum") and len(a) == 1 and not kw and a[0].op != "table":
            h = fresh(a[0])
            return mk_psum(seq_len(a[0]), h, seq_idx(a[0], bv(h)))
        if name == "int" and len(a) == 1 and not kw and a[0].op == "idx" and TT.is_count(a[0]):
            return a[0]
        return None

    def pad(v, w, fill, mode):
        # padding by a negative number of elements is refused
        TT.COUNTS.update(n.dig for n in subterms(w) if n.op not in ("list", "tuple"))
        if not is_const(mode) or cval(mode) != "constant" or w.op not in ("tuple", "list"):
            return None
        if v.op == "table":
            if len(w.args) != 2 or any(p.op not in ("tuple", "list") or len(p.args) != 2 for p in w.args) or w.args[1].args != (ZERO, ZERO):
                return None
            return table(*[cat([repeated(fill, w.args[0].args[0]), c, repeated(fill, w.args[0].args[1])]) for c in v.args])
        if len(w.args) == 1 and w.args[0].op in ("tuple", "list"):
            w = w.args[0]
        if len(w.args) != 2 or any(p.op in ("tuple", "list") for p in w.args):
            return None
        return cat([repeated(fill, w.args[0]), v, repeated(fill, w.args[1])])

    def index(b, k):
        if b.op == "table":
            if k.op == "tuple" and len(k.args) == 2 and is_num_const(k.args[1]):
                c = b.args[cval(k.args[1])] if -len(b.args) <= cval(k.args[1]) < len(b.args) else None
                return None if c is None else c if k.args[0] is WHOLE else f(mk("idx", c, k.args[0])) if k.args[0].op == "slice" else seq_idx(c, k.args[0])
            if k.op == "tuple" and len(k.args) == 2 and k.args[0] is WHOLE and k.args[1].op == "slice" and all(v is NONE or is_num_const(v) for v in k.args[1].args):
                cs = b.args[slice(*[None if v is NONE else cval(v) for v in k.args[1].args])]
                return table(*cs) if cs else None
            if k.op == "tuple" and len(k.args) == 2 and k.args[0] is WHOLE and k.args[1].op == "list" and k.args[1].args and all(is_num_const(v) for v in k.args[1].args):
                return table(*[b.args[cval(v)] for v in k.args[1].args])
            if k.op == "slice":
                cs = [f(mk("idx", c, k)) for c in b.args]
                return table(*cs)
            if kind(k) in ("int", "num") or k.op in ("bv", "poly", "iter"):
                return mk("list", *[seq_idx(c, k) for c in b.args])
        if k.op == "slice" and k.args[2] is NONE and is_seq(b):
            lo, hi, _ = k.args
            a = split(b, ZERO if lo is NONE else lo)
            if a is None:
                return None
            if hi is NONE:
                return a[1]
            z = split(a[1], sub(hi, ZERO if lo is NONE else lo))
            return None if z is None else z[0]
        return None

    def store(b, k, v):
        if b.op == "table" and k.op == "tuple" and len(k.args) == 2 and k.args[0].op == "slice" and k.args[0].args[2] is NONE and is_num_const(k.args[1]):
            i = cval(k.args[1])
            if -len(b.args) <= i < len(b.args):
                cols = list(b.args)
                c = column(cols[i], k.args[0].args[0], k.args[0].args[1], v)
                if c is not None:
                    cols[i] = c
                    return table(*cols)
        if b.op in ("call", "marks") and k.op == "tuple" and len(k.args) == 2 and all(is_seq(y) or y.op in ("idx", "call") for y in k.args):
            return marks(b, v, row_bag(table(*k.args)))
        return None

    for _ in range(6):
        t, old = rewrite(project(unroll(t), f), f), t
        if t is old:
            break
    return t


# ------------------------------------------------------------------ tables filled row by row
def writes(body, acc):
    """What one round stores in the table: a sequence of (position, row), or None."""
    if body is acc:
        return mk("list")
    if body.op == "ite":
        a, b = writes(body.args[1], acc), writes(body.args[2], acc)
        return None if a is None or b is None else ite_seq(body.args[0], a, b)
    if body.op == "fold":
        a, b = writes(body.args[3], acc), writes(body.args[2], mk("acc", body.args[1]))
        return None if a is None or b is None else cat([a, mk_flat(body.args[0], body.args[1], b)])
    if body.op == "scat":
        D, h, ups, base = body.args
        a, b = writes(base, acc), puts(ups)
        return None if a is None or b is None else cat([a, mk_flat(D, h, b)])
    if body.op == "upd":
        a = writes(body.args[0], acc)
        if a is None:
            return None
        at, v = body.args[1:]
        if at.op == "tuple" and len(at.args) == 2:
            at, v = at.args[0], mk("upd", mk("idx", body.args[0], at.args[0]), at.args[1], v)
        if at.op in ("slice", "tuple", "list"):
            return None
        if a.op == "list" and a.args and a.args[-1].args[0] is at:
            # the same row once more
            old = a.args[-1].args[1]
            v = rewrite(v, lambda x: old if x.op == "idx" and x.args[1] is at and x.args[0] is body.args[0] else x)
            a = mk("list", *a.args[:-1])
        return cat([a, mk("list", mk("put", at, v))])
    return None


def puts(ups):
    if ups.op == "ite":
        a, b = puts(ups.args[1]), puts(ups.args[2])
        return None if a is None or b is None else ite_seq(ups.args[0], a, b)
    if ups.op != "ups":
        return None
    out = []
    for kv in ups.args:
        at, v = kv.args
        cell = at.op == "tuple" and len(at.args) == 2
        if cell:
            at, v = at.args[0], mk("upd", mk("old"), at.args[1], v)
        if at.op in ("slice", "tuple", "list"):
            return None
        if out and out[-1].args[0] is at:
            if cell:
                v = mk("upd", out[-1].args[1], *v.args[1:])
            out.pop()
        out.append(mk("put", at, v))
    return mk("list", *out)


def row_of(v, width):
    cells = {}
    while v.op == "upd" and is_num_const(v.args[1]):
        cells.setdefault(cval(v.args[1]) % width, v.args[2])
        v = v.args[0]
    if v.op in ("list", "tuple") and len(v.args) == width:
        for i, e in enumerate(v.args):
            cells.setdefault(i, e)
    return mk("list", *[cells[i] for i in range(width)]) if len(cells) == width else None


def in_order(w, start, width):
    """Rows of the writes, when each goes to the position after the one before; None otherwise."""
    if w.op == "list":
        out = []
        for i, p in enumerate(w.args):
            r = row_of(p.args[1], width)
            if r is None or p.args[0] is not add(start, const(i)):
                return None
            out.append(r)
        return mk("list", *out)
    if w.op == "ite":
        a, b = in_order(w.args[1], start, width), in_order(w.args[2], start, width)
        return None if a is None or b is None else ite_seq(w.args[0], a, b)
    if w.op == "cat":
        out = []
        for p in w.args:
            r = in_order(p, start, width)
            if r is None:
                return None
            out.append(r)
            start = add(start, seq_len(p))
        return cat(out)
    if w.op == "flat":
        D, h, body = w.args
        r = in_order(body, add(start, before(seq_len(body), h)), width)
        return None if r is None else mk_flat(D, h, r)
    return None


def filled_rows(x):
    base = x.args[3]
    if base.op != "table":
        return None
    w = writes(mk("fold", *(x.args[:3] + (mk("sym", "$base"),))), mk("sym", "$base"))
    if w is None:
        return None
    r = in_order(w, ZERO, len(base.args))
    t = None if r is None else rows(r)
    if t is None:
        return None
    left = sub(seq_len(base.args[0]), seq_len(r))
    cols = [cat([cast(c, stored_as(b)), mk("left", b, left)]) for c, b in zip(t.args, base.args)]
    return table(*cols)


# ------------------------------------------------------------------ sums and bounds with min and max
def positive(t):
    """min and max of two numbers through the positive part of their difference."""

    def f(x):
        if x.op in ("min", "max") and len(x.args) == 2 and all(kind(a) in ("int", "num", None) for a in x.args):
            a, b = x.args
            return add(a, part(sub(b, a))) if x.op == "max" else sub(a, part(sub(a, b)))
        return x

    def part(d):
        if is_num_const(d):
            return const(max(cval(d), 0))
        lin, _ = coefs(d)
        lead = min(lin, key=lambda m: tuple(y.dig for y in m))
        return mk("pos", d) if lin[lead] > 0 else add(mk("pos", neg(d)), d)

    return rewrite(t, f)


def at_least(t, k, below, d=0):
    """Certainly t >= k, with the bound variables below their bounds."""
    t = sub(t, const(k)) if k else t
    if never_negative(t):
        return True
    if d > 8:
        return False
    for m, c in TT._monos(t).items():
        if len(m) == 1 and m[0].op == "pos":
            rest = sub(t, mul(const(c), m[0]))
            if c > 0:
                return at_least(rest, 0, below, d + 1) or at_least(add(rest, mul(const(c), m[0].args[0])), 0, below, d + 1)
            return at_least(rest, 0, below, d + 1) and at_least(add(rest, mul(const(c), m[0].args[0])), 0, below, d + 1)
    for m, c in TT._monos(t).items():
        if len(m) == 1 and m[0].dig in below and c < 0:
            slack = mk("sym", "$slack" + str(d))
            TT.COUNTS.add(slack.dig)
            top = sub(sub(below[m[0].dig], ONE), slack)
            return at_least(subst(t, {m[0].dig: top}), 0, below, d + 1)
    return False


def spared(body, h):
    """(position left out, what it holds, what the others hold)."""
    if body.op != "ite" or body.args[0].op != "eq":
        return None
    d = sub(*body.args[0].args)
    for m, c in TT._monos(d).items():
        if m == (bv(h),) and c in (1, -1):
            at = mul(const(-c), sub(d, mul(const(c), bv(h))))
            if not has(at, bv(h)):
                return at, body.args[1], body.args[2]
    return None


def gaps(t):
    """Loops that treat one round apart, as the rounds before it, that round and the rounds after it."""

    def go(x, below):
        if x.op in ("flat", "psum"):
            D, h, body = x.args
            D = go(D, below)
            k = bv(h)
            body = go(body, {**below, k.dig: D})
            r = spared(body, h)
            if r is not None and at_least(r[0], 0, below) and at_least(sub(D, r[0]), 1, below):
                at, it, others = r
                make = mk_flat if x.op == "flat" else mk_psum
                join = (lambda *p: cat(list(p))) if x.op == "flat" else lambda a, b, c: add(a, add(b, c))
                after = subst(others, {k.dig: add(k, add(at, ONE))})
                return join(make(at, h, others), subst(it, {k.dig: at}), make(sub(sub(D, at), ONE), h, after))
            return TT.renorm(x.op, (D, h, body))

        def ga(a):
            return go(a, below) if isinstance(a, T) else tuple(ga(v) for v in a) if isinstance(a, tuple) else a

        args = tuple(ga(a) for a in x.args)
        if x.op == "pos":
            if at_least(args[0], 0, below):
                return args[0]
            if at_least(neg(args[0]), 0, below):
                return ZERO
        if x.op in ("max", "min") and len(args) == 2:
            for a, b in (args, args[::-1]):
                if at_least(sub(a, b), 0, below):
                    return a if x.op == "max" else b
        return x if args == x.args else TT.renorm(x.op, args)

    return go(t, {})


def views(t, F):
    """What is taken out of the state of a loop: largest subterms made of the state alone."""
    memo, out = {}, {}

    def pure(x):
        # None: not about F; False: about other things too
        r = memo.get(x.dig, 0)
        if r != 0:
            return r
        if x is F:
            r = True
        elif is_const(x):
            r = None
        else:
            subs = [pure(y) for y in TT._iter_terms(x.args)]
            r = False if x.op not in ("idx", "len", "slice", "attr") or False in subs else True if True in subs else None if x.op == "slice" else False
        memo[x.dig] = r
        return r

    for x in subterms(t):
        if x.op in ("idx", "len", "attr") and pure(x) is True:
            out[x.dig] = x
    return sorted(out.values(), key=lambda x: -sum(1 for _ in subterms(x)))


def project(t, f):
    """A loop of which only a part of the state is used, as a loop over that part."""
    for F in [x for x in subterms(t) if x.op == "fold" and x.args[3].op in ("list", "tuple")]:
        D, h, e, x0 = F.args
        acc, hole = mk("acc", h), mk("sym", "$part")
        for p in views(t, F):
            g = lambda v: rewrite(subst(p, {F.dig: v}), f)
            step = rewrite(e, lambda x: x)
            mine = g(acc)
            new = rewrite(g(step), lambda x: hole if x is mine else x)
            if not has(new, acc):
                t = subst(t, {p.dig: state(D, h, subst(new, {hole.dig: acc}), g(x0))})
    return t
