"""Closed forms of loops written out for inputs of a few elements.

A difference below a loop summary that the normal form cannot judge in general may still show for short inputs:
there every summary is a finite combination of the elements.  Only ever used to refute.
"""
from . import terms as TT
from .flow import dict_upd
from .terms import *

SIZES = ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (0, 1), (1, 0), (1, 3))
LIMIT = 20000


class Big(Exception):
    pass


def path(t):
    """Number of elements taken on the way to a part of the input, or None."""
    n = named = 0
    while True:
        if t.op == "sym" or named and t.op == "call" and not contains(t, lambda y: y.op in ("bv", "acc")):
            return n
        named = t.op == "attr" or t.op == "idx" and is_const(t.args[1]) and isinstance(cval(t.args[1]), str)
        if t.op == "attr":
            t = t.args[0]
        elif t.op == "idx" and t.args[1].op in ("const", "bv"):
            n += is_num_const(t.args[1]) or t.args[1].op == "bv"
            t = t.args[0]
        else:
            return None


def numbers(*ts):
    """Numbers of rounds that are values of their own: a count that was handed in, an entry of a file that was read."""
    out = {}
    for t in ts:
        for x in subterms(t):
            if x.op in TT.BINDERS:
                D = x.args[0]
                if (D.op == "sym" or D.op in ("idx", "attr") and not contains(D, lambda y: y.op in ("bv", "acc"))) and D.dig not in out:
                    out[D.dig] = D
    return out


def spelled(t):
    """A list of known length, element by element."""
    if t.op == "repeat" and t.args[0].op == "list" and is_num_const(t.args[1]) and 0 <= cval(t.args[1]) <= 8:
        return mk("list", *(t.args[0].args * int(cval(t.args[1]))))
    return t


def put(base, i, v, mapping):
    if mapping:
        return dict_upd(base, i, v)
    base = spelled(base)
    if base.op == "ite":
        return ite(base.args[0], put(base.args[1], i, v, mapping), put(base.args[2], i, v, mapping))
    if base.op == "list" and is_num_const(i) and -len(base.args) <= cval(i) < len(base.args):
        els = list(base.args)
        els[int(cval(i))] = v
        return mk("list", *els)
    return mk("upd", base, i, v)


def updated(base, ups, mapping):
    if ups.op == "ite":
        return ite(ups.args[0], updated(base, ups.args[1], mapping), updated(base, ups.args[2], mapping))
    if ups.op != "ups":
        raise Big()
    for p in ups.args:
        base = put(base, p.args[0], p.args[1], mapping)
    return base


def tallied(base, seq):
    base = spelled(base)
    if base.op == "list" and seq.op == "list" and all(x.op == "tuple" and is_num_const(x.args[0]) and 0 <= cval(x.args[0]) < len(base.args) for x in seq.args):
        els = list(base.args)
        for x in seq.args:
            els[int(cval(x.args[0]))] = add(els[int(cval(x.args[0]))], x.args[1])
        return mk("list", *els)
    return None


def small(t, sizes, given):
    """t for inputs of these sizes; conditions that hold there are added to given."""
    memo = {}
    n = [0]

    def count(x):
        d = path(x)
        return None if d is None else sizes[min(d, len(sizes) - 1)]

    def go(x):
        r = memo.get(x.dig)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > LIMIT:
            raise Big()
        r = memo[x.dig] = step(x)
        return r

    def ga(a):
        return go(a) if isinstance(a, T) else tuple(ga(y) for y in a) if isinstance(a, tuple) else a

    def step(x):
        if x.op == "len":
            k = count(x.args[0])
            if k is not None:
                return const(k)
        if x.op == "nonempty":
            k = count(x.args[0])
            if k is not None:
                return TRUE if k else FALSE
        if x.op == "tally":
            r = tallied(go(x.args[0]), go(x.args[1]))
            if r is not None:
                return r
        if x.op == "ite":
            g = go(x.args[0])
            return go(x.args[1]) if g is TRUE else go(x.args[2]) if g is FALSE else ite(g, go(x.args[1]), go(x.args[2]))
        if x.op in TT.BINDERS:
            D = go(x.args[0])
            if D.op == "ite":
                return ite(D.args[0], go(mk(x.op, D.args[1], *x.args[1:])), go(mk(x.op, D.args[2], *x.args[1:])))
            h, body = x.args[1], x.args[2]
            if is_num_const(D) and int(cval(D)) == cval(D) and x.op != "until":
                k = int(cval(D))
                at = [{bv(h).dig: const(i)} for i in range(max(k, 0))]
                if x.op == "fold":
                    acc = go(x.args[3])
                    for m in at:
                        acc = go(subst(body, dict(m, **{mk("acc", h).dig: acc})))
                    return acc
                if x.op in ("scat", "dflat"):
                    base = go(x.args[3])
                    for m in at:
                        base = updated(base, go(subst(body, m)), x.op == "dflat")
                    return base
                parts = [go(subst(body, m)) for m in at]
                if x.op == "flat":
                    return cat(parts)
                if x.op == "psum":
                    r = ZERO
                    for p in parts:
                        r = add(r, p)
                    return r
                if x.op == "exists":
                    r = FALSE
                    for p in parts:
                        r = or_(r, p)
                    return r
                return TT.mk_minmax(x.op[:3], *parts) if parts else (TT.NINF if x.op[:3] == "max" else TT.PINF)
            if x.op == "until" and (D.op == "inf" or is_num_const(D)):
                k = sizes[0] if D.op == "inf" else min(sizes[0], int(cval(D)))
                for i in range(k + 1):
                    if D.op == "inf" or i < cval(D):
                        g = go(subst(body, {bv(h).dig: const(i)}))
                        given.append(g if i == k else not_(g))
                return const(k)
            args = (D, h) + tuple(go(y) for y in x.args[2:])
        else:
            args = tuple(ga(a) for a in x.args)
        if args == x.args:
            return x
        r = TT.renorm(x.op, args)
        return r

    return go(t)


def ordered(facts):
    """Whether the gates passed compare the same things more than once: they might exclude each other."""
    seen = set()
    for g, _ in facts:
        if g.op in ("lt", "eq") and not (g.op == "eq" and any(is_const(a) for a in g.args)):
            own = {y.dig for a in g.args for y in subterms(a) if y.op in ("sym", "idx", "attr", "call", "len")}
            if own & seen:
                return True
            seen |= own
    return False


def differ(got, want, judge):
    """First short input on which the two differ beyond doubt: (sizes, difference)."""
    counts = numbers(got, want)
    for sizes in SIZES:
        given = []
        fixed = {k: const(sizes[1 if contains(D, lambda y: y.op == "idx" and y.args[1].op != "const") else 0]) for k, D in counts.items()}
        try:
            a, b = (small(subst(t, fixed), sizes, given) for t in (got, want))
            for g in given:
                a, b = ite(g, a, NONE), ite(g, b, NONE)
        except (Big, RecursionError):
            continue
        d = judge(a, b)
        if d is not None and not ordered(d[2]):
            return sizes, d
    return None
