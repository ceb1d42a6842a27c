"""Sequence, dictionary and aggregate normal forms used by the dataflow evaluator."""
import math

from .terms import *
from . import terms as TT

INF = mk("inf")


def has(t, x):
    return contains(t, lambda y: y is x)


def close(body, it):
    h = height(body) + 1
    return h, subst(body, {it.dig: bv(h)})


def open_(body, h, i):
    return subst(body, {bv(h).dig: i})


def invariant_gate(body, x):
    """A gate of the body that does not depend on the bound variable."""
    best, st, seen = None, [body], set()
    while st:
        t = st.pop()
        if t.dig in seen:
            continue
        seen.add(t.dig)
        if t.op == "cat":
            st += list(t.args)
        elif t.op == "ite":
            a = t.args[0]
            if not has(a, x) and (best is None or TT._order(a) < TT._order(best)):
                best = a
            st += [t.args[1], t.args[2]]
        if len(seen) > 400:
            break
    return best


def assume_seq(t, a, v):
    if t.op == "cat":
        return cat([assume_seq(p, a, v) for p in t.args])
    if t.op == "ite":
        t = assume(t, a, v)
        if t.op == "ite":
            x, y = assume_seq(t.args[1], a, v), assume_seq(t.args[2], a, v)
            return t if x is t.args[1] and y is t.args[2] else ite(t.args[0], x, y)
        return assume_seq(t, a, v) if t.op == "cat" else t
    return t


def mk_flat(D, h, body):
    """Concatenation over 0 <= bv(h) < D of the list-valued body."""
    g = invariant_gate(body, bv(h)) if body.op in ("ite", "cat") else None
    if g is not None:
        return ite_seq(g, mk_flat(assume(D, g, True), h, assume_seq(body, g, True)), mk_flat(assume(D, g, False), h, assume_seq(body, g, False)))
    if body.op == "list" and not body.args:
        return mk("list")
    if is_const(D) and isinstance(cval(D), int) and cval(D) <= 0:
        return mk("list")
    if is_const(D) and isinstance(cval(D), int) and cval(D) <= 4:
        return cat([open_(body, h, const(i)) for i in range(cval(D))])
    # identity comprehension  [x[i] for i in range(len(x))]  ==  list(x)
    if body.op == "list" and len(body.args) == 1:
        e = body.args[0]
        if e.op == "idx" and e.args[1] is bv(h) and not has(e.args[0], bv(h)) and seq_len(e.args[0]) is D:
            return e.args[0]
        if not has(e, bv(h)):
            return mk("repeat", body, D)
    return mk("flat", *TT.rebind((D, h, body)))


def single(body):
    """The element when the list-valued body always has exactly one element."""
    if body.op == "list" and len(body.args) == 1:
        return body.args[0]
    if body.op == "ite":
        a, b = single(body.args[1]), single(body.args[2])
        if a is not None and b is not None:
            return ite(body.args[0], a, b)
    return None


def never_negative(t, d=0):
    if d > 6:
        return False
    if t.dig in TT.COUNTS:
        return True
    op = t.op
    if op == "const":
        return isinstance(cval(t), (int, float)) and cval(t) >= 0
    if op in ("len", "iter", "bv", "inf", "until", "ziplen", "nbytes", "lt", "eq", "isnone", "truthy", "in", "isinst", "nonempty", "exists"):
        return True
    if op == "call" and t.args[0] == "len" or op in ("sym", "attr", "call", "idx", "fold") and TT.is_count(t):
        return True
    if op == "poly":
        return all(isinstance(c, (int, float)) and c >= 0 and all(never_negative(m, d + 1) for m in mono) for mono, c in t.args[0])
    if op == "ite":
        return never_negative(t.args[1], d + 1) and never_negative(t.args[2], d + 1)
    if op == "psum":
        return never_negative(t.args[2], d + 1)
    if op == "max":
        return any(never_negative(x, d + 1) for x in t.args)
    if op == "min":
        return all(never_negative(x, d + 1) for x in t.args)
    if op == "fdiv":
        return all(isinstance(x, T) and never_negative(x, d + 1) for x in t.args[:2])
    if op == "mod":
        return isinstance(t.args[1], T) and never_negative(t.args[1], d + 1)
    return False


def rounds(n):
    """Number of rounds of a loop over a domain of length n, which is empty when n is negative."""
    if never_negative(n):
        return n
    return ite(lt(n, ONE), ZERO, n)


def some(n):
    """A domain of length n is not empty."""
    return not_(eq(n, ZERO)) if never_negative(n) else lt(ZERO, n)


def deep_assume(t, a, v):
    """t with every gate in it, at any depth, decided as far as the fact goes."""
    return TT.rewrite(t, lambda x: TT.assume(x, a, v) if x.op == "ite" or x.op in TT.ATOM_OPS else x)


def exists_one(D, h, body):
    if D.op == "ite":
        a = D.args[0]
        return ite(a, *[exists_one(assume(D, a, v), h, deep_assume(body, a, v)) for v in (True, False)])
    if is_const(D) and isinstance(cval(D), int) and cval(D) <= 4:
        out = FALSE
        for i in range(cval(D)):
            out = or_(out, as_bool(open_(body, h, const(i))))
        return out
    if body is FALSE:
        return FALSE
    if body is TRUE and D.op != "inf":
        return some(D)
    return mk("exists", *TT.rebind((D, h, body)))


TT.RENORM_HOOKS["exists"] = exists_one


def mk_psum(at, h, body):
    """Sum over 0 <= bv(h) < at of body."""
    if is_const(at) and cval(at) == 0:
        return ZERO
    x = bv(h)
    if not has(body, x):
        return mul(rounds(at), body)
    g = invariant_gate(body, x) if body.op == "ite" else None
    if g is not None:
        return ite(g, mk_psum(assume(at, g, True), h, assume(body, g, True)), mk_psum(assume(at, g, False), h, assume(body, g, False)))
    if body.op == "poly":
        out = ZERO
        for mono, c in body.args[0]:
            inv = [m for m in mono if not has(m, x)]
            dep = [m for m in mono if has(m, x)]
            k = const(c)
            for m in inv:
                k = mul(k, m)
            if not dep:
                out = add(out, mul(k, rounds(at)))
            else:
                p = dep[0]
                for m in dep[1:]:
                    p = mul(p, m)
                out = add(out, mul(k, mk("psum", *TT.rebind((at, h, p)))))
        return out
    if body.op == "ite":
        # one integer factor of every case leaves the sum
        g = 0
        for l in leafset(body):
            for c in TT._monos(l).values():
                if not isinstance(c, int):
                    g = 1
                    break
                g = math.gcd(g, c)
        if g > 1:
            k = const(g)
            return mul(k, mk("psum", *TT.rebind((at, h, lift(lambda x: TT.floordiv(x, k), body)))))
    return mk("psum", *TT.rebind((at, h, body)))


def seq_len(t):
    op = t.op
    if op in ("list", "tuple"):
        if not any(x.op == "star" for x in t.args):
            return const(len(t.args))
    if op == "dict":
        return const(len(t.args))
    if op == "cat":
        out = ZERO
        for p in t.args:
            out = add(out, seq_len(p))
        return out
    if op == "flat":
        D, h, body = t.args
        if single(body) is not None:
            return rounds(D)
        return mk_psum(D, h, seq_len(body))
    if op in ("upd",):
        return seq_len(t.args[0])
    if op == "repeat":
        if t.args[1].op == "call" and t.args[1].args[0] in ("np.array", "np.asarray"):
            return seq_len(t.args[1])  # a product of arrays, element by element
        return mul(seq_len(t.args[0]), rounds(t.args[1]))
    if op == "ite":
        return lift(seq_len, t)
    if op == "const" and isinstance(cval(t), (str, bytes)):
        return const(len(cval(t)))
    if op == "range":
        return rounds(t.args[1])
    if op == "enum":
        return seq_len(t.args[0])
    if op == "zip":
        return mk_minmax("min", *[seq_len(x) for x in t.args])
    if op in ("items", "keysof", "valsof", "reversed"):
        return seq_len(t.args[0])
    if op == "call" and t.args[0] in ("sorted", "list", "tuple", ".astype", "np.array", "np.asarray", ".copy", ".keys", "random.shuffle", "np.random.shuffle") and t.args[1]:
        return seq_len(t.args[1][0])
    if op == "call" and t.args[0] in ("np.empty", "np.zeros", "np.ones", "np.full"):
        s = t.args[1][0] if t.args[1] else None
        if s is not None:
            if s.op in ("tuple", "list") and s.args:
                return s.args[0]
            if kind(s) in ("int", "num"):
                return s
    if op == "call" and t.args[0] in ("np.arange", "np.random.permutation") and len(t.args[1]) == 1 and kind(t.args[1][0]) in ("int", "num"):
        return rounds(t.args[1][0])
    if op == "call" and t.args[0] == "np.concatenate" and len(t.args[1]) == 1:
        parts, kw = t.args[1][0], dict(t.args[2])
        ax = kw.get("axis", ZERO)
        if set(kw) <= {"axis"} and is_num_const(ax):
            if cval(ax) >= 1 and parts.op in ("list", "tuple") and parts.args:
                return seq_len(parts.args[0])
            if cval(ax) == 0 and parts.op in ("list", "tuple", "flat", "cat", "repeat"):
                return added_lens(parts)
    if op == "call" and t.args[0] == "np.nditer" and t.args[1][0].op in ("list", "tuple") and t.args[1][0].args:
        return seq_len(t.args[1][0].args[0])
    if op == "every":
        return TT.floordiv(seq_len(t.args[0]), t.args[1])
    if op == "stretches":
        return seq_len(t.args[5])
    if op in ("table", "weave"):
        return mul(const(len(t.args) if op == "weave" else 1), seq_len(t.args[0]))
    if op == "bytes":
        return nbytes(t)
    if op == "idx" and array(t.args[1]):
        return seq_len(t.args[1])
    for f in TT.LEN_RULES:
        n = f(t)
        if n is not None:
            return n
    return mk("len", t)


def array(t):
    if t.op == "idx" and t.args[1].op == "slice":
        return array(t.args[0])
    return t.op == "call" and t.args[0] in ("np.array", "np.concatenate", "np.full", "np.arange", "np.random.permutation")


def added_lens(t):
    """Number of elements of all parts together."""
    if t.op in ("list", "tuple"):
        out = ZERO
        for x in t.args:
            out = add(out, seq_len(x))
        return out
    if t.op == "flat":
        return mk_psum(t.args[0], t.args[1], added_lens(t.args[2]))
    if t.op == "repeat":
        return mul(added_lens(t.args[0]), rounds(t.args[1]))
    if t.op == "cat":
        out = ZERO
        for x in t.args:
            out = add(out, added_lens(x))
        return out
    if t.op == "ite":
        return ite(t.args[0], added_lens(t.args[1]), added_lens(t.args[2]))
    return mk("len", mk("call", "np.concatenate", (t,), (), NONE))


FLD = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "?": 1, "c": 1, "x": 1, "e": 2}


def nbytes(t):
    if t.op == "bytes":
        out = ZERO
        for p in t.args:
            out = add(out, nbytes(p))
        return out
    if t.op == "fld":
        return const(FLD.get(t.args[0][-1], 1))
    if t.op == "const" and isinstance(cval(t), (bytes, str)):
        return const(len(cval(t)))
    if t.op == "ite":
        return lift(nbytes, t)
    return mk("nbytes", t)


def same_key(a, b):
    """True / False / None for key equality."""
    if a is b:
        return True
    r = eq(a, b)
    if r is TRUE:
        return True
    if r is FALSE:
        return False
    return None


def own_slots(body, h):
    """Round i of a loop assigns position i at most: [(gate, value or None)]."""
    out = []
    for g, u in cases(body):
        if u.op != "ups" or len(u.args) > 1 or any(k.args[0] is not bv(h) for k in u.args):
            return None
        out.append((g, u.args[0].args[1] if u.args else None))
    return out


def seq_idx(t, i):
    def f(t, i):
        op = t.op
        ci = cval(i) if is_const(i) and isinstance(cval(i), int) else None
        if op in ("list", "tuple") and ci is not None and not any(x.op == "star" for x in t.args):
            if -len(t.args) <= ci < len(t.args):
                return t.args[ci]
        if op == "const" and isinstance(cval(t), (str,)) and ci is not None and -len(cval(t)) <= ci < len(cval(t)):
            return const(cval(t)[ci])
        if op == "cat" and ci is not None:
            if ci >= 0 and t.args[0].op == "list":
                if ci < len(t.args[0].args):
                    return t.args[0].args[ci]
            if ci < 0 and t.args[-1].op == "list" and -ci <= len(t.args[-1].args):
                return t.args[-1].args[ci]
        if op == "cat" and i.op == "slice" and i.args[0] in (NONE, ZERO) and i.args[2] in (NONE, ONE) and t.args[-1].op == "list":
            # all but the last ones
            k = cval(i.args[1]) if is_const(i.args[1]) else None
            if isinstance(k, int) and k < 0 and -k <= len(t.args[-1].args) and not any(x.op == "star" for x in t.args[-1].args):
                return cat([*t.args[:-1], mk("list", *t.args[-1].args[:k])])
        if op == "cat" and i.op == "slice" and i.args[1] is NONE and i.args[2] in (NONE, ONE) and t.args[0].op == "list":
            # all but the first ones
            k = cval(i.args[0]) if is_const(i.args[0]) else None
            if isinstance(k, int) and 0 < k <= len(t.args[0].args) and not any(x.op == "star" for x in t.args[0].args):
                return cat([mk("list", *t.args[0].args[k:]), *t.args[1:]])
        if op == "idx" and ci is not None and ci >= 0 and t.args[1].op == "slice":
            a, b, step = t.args[1].args
            if a in (NONE, ZERO) and step in (NONE, ONE) and is_const(b) and isinstance(cval(b), int) and ci < cval(b):
                return seq_idx(t.args[0], i)
        if op == "flat" and i.op != "slice":
            D, h, body = t.args
            e = single(body)
            if e is not None:
                if ci is not None and ci < 0:
                    i = add(D, i)
                return open_(e, h, i)
        if op == "dict":
            res = mk("idx", t, i)
            allk = True
            hit = None
            for p in t.args:
                s = same_key(p.args[0], i)
                if s is True:
                    hit = p.args[1]
                elif s is None:
                    allk = False
            if hit is not None and allk:
                return hit
            keys = [p.args[0] for p in t.args]
            if all(is_const(k) for k in keys) and len(set(k.dig for k in keys)) == len(keys):
                # (the order of the keys does not matter to who asks for one)
                res = mk("idx", mk("dict", *sorted(t.args, key=lambda p: repr(cval(p.args[0])))), i)
            return res
        if op in ("upd", "dupd"):
            b, k, v = t.args
            s = same_key(k, i)
            if s is True:
                return v
            if s is False:
                return seq_idx(b, i)
            return mk("idx", t, i)
        if op == "scat" and i is t.args[0] and own_slots(t.args[2], t.args[1]) is not None:
            # only the positions before i were assigned
            return seq_idx(t.args[3], i)
        if op == "repeat" and i.op != "slice":
            b = t.args[0]
            if b.op == "list" and len(b.args) == 1:
                return b.args[0]
        if op == "range" and i.op != "slice":
            return add(t.args[0], mul(t.args[2], i))
        if op == "enum" and i.op != "slice":
            return mk("tuple", add(t.args[1], i), seq_idx(t.args[0], i))
        if op == "zip" and i.op != "slice":
            return mk("tuple", *[seq_idx(x, i) for x in t.args])
        if op == "items" and i.op != "slice":
            k = mk("idx", mk("keysof", t.args[0]), i)
            return mk("tuple", k, seq_idx(t.args[0], k))
        if op == "valsof" and i.op != "slice":
            k = mk("idx", mk("keysof", t.args[0]), i)
            return seq_idx(t.args[0], k)
        if op == "reversed" and i.op != "slice":
            return seq_idx(t.args[0], sub(sub(seq_len(t.args[0]), ONE), i))
        if op == "call" and t.args[0] in ("np.empty", "np.zeros") and False:
            pass
        if i.op == "slice":
            a, b, c = i.args
            if a is NONE and b is NONE and c is NONE:
                return t
            if a is ZERO:
                return seq_idx(t, mk("slice", NONE, b, c))
            if c is NONE and "min" in (a.op, b.op):
                # cut off at the end anyway
                n = seq_len(t)
                a, b = [mk_minmax("min", *[y for y in x.args if y is not n]) if x.op == "min" and n in x.args else x for x in (a, b)]
                i = mk("slice", a, b, c)
            if c is NONE and b.op == "poly":
                # beyond the end anyway where the bound that is added to is the end
                n = seq_len(t)
                for x in {y.dig: y for m in coefs(b)[0] for y in m}.values():
                    rest = sub(b, x)
                    if x.op == "min" and n in x.args and coefs(b)[0].get((x,)) == 1 and all(v >= 0 and all(TT.natural(y) for y in m) for m, v in coefs(rest)[0].items()) and coefs(rest)[1] >= 0:
                        b = add(rest, mk_minmax("min", *[y for y in x.args if y is not n]))
                        i = mk("slice", a, b, c)
                        break
            if op == "flat" and c is NONE and t.args[0].op == "len" and t.args[2].op == "list" and len(t.args[2].args) == 1:
                # what is made of each element of a sequence: made of the elements of its slice
                X, v = t.args[0].args[0], bv(t.args[1])
                each = mk("sym", "$each")
                e = subst(t.args[2], {mk("idx", X, v).dig: each})
                if not contains(e, lambda x: x is v) and contains(e, lambda x: x is each):
                    part = seq_idx(X, i)
                    h = 1 + max(t.args[1], height(part))
                    return mk_flat(seq_len(part), h, subst(e, {each.dig: seq_idx(part, bv(h))}))
            if op in ("list", "tuple"):
                vals = []
                for x in (a, b, c):
                    if x is NONE:
                        vals.append(None)
                    elif is_const(x) and isinstance(cval(x), int):
                        vals.append(cval(x))
                    else:
                        vals = None
                        break
                if vals is not None and not any(x.op == "star" for x in t.args):
                    return mk(op, *t.args[slice(*vals)])
            if op == "range" and c is NONE and is_const(t.args[2]) and cval(t.args[2]) == 1:
                pass
        return mk("idx", t, i)

    if i.op == "ite":
        # a value just stored under this very key
        if t.op in ("upd", "dupd") and t.args[1] is i:
            return t.args[2]
        if t.op == "dict" and len(t.args) == 1 and t.args[0].op == "kv" and t.args[0].args[0] is i:
            return t.args[0].args[1]
    return lift(f, t, i)


def ite_seq(c, a, b):
    """Gate two list contents, factoring common prefix and suffix."""
    if a is b or c in (TRUE, FALSE):
        return ite(c, a, b)
    pa, pb = _items(a), _items(b)
    if pa is None or pb is None:
        return ite(c, a, b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[len(pa) - 1 - j] == pb[len(pb) - 1 - j]:
        j += 1
    if i == 0 and j == 0:
        return ite(c, a, b)
    mid = ite(c, _join(pa[i:len(pa) - j]), _join(pb[i:len(pb) - j]))
    return cat([_join(pa[:i]), mid, _join(pa[len(pa) - j:])])


def _items(t):
    parts = t.args if t.op == "cat" else (t,)
    out = []
    for p in parts:
        if p.op == "list":
            out += [("e", x) for x in p.args]
        else:
            out.append(("p", p))
    return out


def _join(items):
    return cat([mk("list", x) if k == "e" else x for k, x in items])


def is_listy(t):
    return t.op in ("list", "cat", "flat") or (t.op == "ite" and is_listy(t.args[1]) and is_listy(t.args[2]))


TT.RENORM_HOOKS["flat"] = mk_flat
TT.RENORM_HOOKS["psum"] = mk_psum
TT.RENORM_HOOKS["idx"] = seq_idx
TT.RENORM_HOOKS["len"] = lambda x: seq_len(x)
TT.RENORM_HOOKS["nbytes"] = nbytes
TT.RENORM_HOOKS["repeat"] = lambda a, b: mul(a, b) if kind(a) in TT.SEQ_KINDS else mk("repeat", a, b)


def _in_norm(a, b):
    return mk_in(a, b)


def mk_in(a, b):
    def f(a, b):
        if b.op in ("list", "tuple", "setof"):
            els = b.args
            if b.op == "setof":
                els = b.args[0].args if b.args and b.args[0].op == "list" else None
            if els is not None and len(els) <= 8 and not any(x.op == "star" for x in els):
                out = FALSE
                for x in els:
                    out = or_(out, eq(a, x))
                return out
        if b.op == "dict":
            out = FALSE
            for p in b.args:
                out = or_(out, eq(a, p.args[0]))
            return out
        if b.op == "dupd":
            s = same_key(b.args[1], a)
            if s is True:
                return TRUE
            if s is False:
                return mk_in(a, b.args[0])
        if b.op == "keysof":
            return mk_in(a, b.args[0])
        if a.op == "idx" and a.args[0].op == "keysof" and a.args[0].args[0] is b:
            return TRUE
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) in cval(b))
            except TypeError:
                pass
        return mk("in", a, b)

    return lift(f, a, b)


TT.RENORM_HOOKS["in"] = mk_in
