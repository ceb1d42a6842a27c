"""Equivalence of two gated terms by walking their diagrams together.

Every gate met on the way is fixed to both values in turn on both sides at once, so two diagrams that test
the same conditions in another order are found equal.  Below binders and constructors the walk is structural.
"""
from . import terms as TT
from .terms import *
from .seqs import seq_len


class Limit(Exception):
    pass


class Same:
    def __init__(self, budget=40000):
        self.n = budget
        self.bad = None
        self.memo = {}

    def fix(self, t, facts):
        for a, v in facts:
            if t.op == "ite" or t.op in TT.ATOM_OPS:
                t = assume(t, a, v)
            elif t.op == "cat":
                t = cat([self.fix(p, ((a, v),)) for p in t.args])
            elif t.op in ("flat", "psum", "exists") and t.args[0].op == "ite":
                D = assume(t.args[0], a, v)
                if D is not t.args[0]:
                    t = TT.renorm(t.op, (D,) + t.args[1:])
            elif t.op in ("flat", "psum", "exists"):
                continue
            else:
                break
        return t

    def gate(self, t):
        if t.op == "ite":
            return t.args[0]
        if t.op == "cat":
            for p in t.args:
                if p.op == "ite":
                    return p.args[0]
        if t.op in ("flat", "psum", "exists") and t.args[0].op == "ite":
            return t.args[0].args[0]
        return None

    def eq(self, a, b, facts=()):
        if a is b:
            return True
        self.n -= 1
        if self.n < 0:
            raise Limit()
        a, b = self.fix(a, facts), self.fix(b, facts)
        if a is b or a.op == "any" or b.op == "any":
            return True
        k = (a.dig, b.dig, frozenset((f.dig, v) for f, v in facts))
        if k in self.memo:
            return self.memo[k]
        r = self._eq(a, b, facts)
        self.memo[k] = r
        return r

    def _eq(self, a, b, facts):
        g = self.gate(a) or self.gate(b)
        if g is None and (a.op in TT.ATOM_OPS) != (b.op in TT.ATOM_OPS) or (a.op in TT.ATOM_OPS and b.op in TT.ATOM_OPS and a.op != b.op):
            # a condition against a constant or another condition
            g = a if a.op in TT.ATOM_OPS else b
            if len(facts) > 60:
                return self.fail(a, b, facts)
            for v in (True, False):
                x, y = assume(a, g, v), assume(b, g, v)
                if not self.eq(x, y, facts + ((g, v),)):
                    return False
            return True
        if g is not None:
            if len(facts) > 60:
                return self.fail(a, b, facts)
            for v in (True, False):
                f2 = facts + ((g, v),)
                if not self.eq(a, b, f2):
                    return False
            return True
        return self.parts(a, b, facts)

    def fail(self, a, b, facts):
        if impossible(facts) or from_front(a, b, facts):
            return True
        if self.bad is None:
            self.bad = (a, b, facts)
        return False

    def parts(self, a, b, facts):
        if a.op != b.op:
            for g, v in facts:
                # a value known to be None (or a constant) under the gates passed
                if v and (g.op == "isnone" and NONE in (a, b) and g.args[0] in (a, b) or g.op == "eq" and set(g.args) == {a, b}):
                    return True
            if {a.op, b.op} & {"poly"} and self.poly(a, b, facts):
                return True
            return self.fail(a, b, facts)
        if a.op == "poly":
            return self.poly(a, b, facts) or self.fail(a, b, facts)
        if a.op in ("max", "min") and len(a.args) == len(b.args) and len(a.args) <= 4:
            rest = list(b.args)
            for x in a.args:
                for y in rest:
                    save, self.bad = self.bad, ()
                    ok = self.eq(x, y, facts)
                    self.bad = save
                    if ok:
                        rest.remove(y)
                        break
                else:
                    return self.fail(a, b, facts)
            return True
        if a.op == "eq" and len(a.args) == 2:
            for xs in (b.args, b.args[::-1]):
                save, self.bad = self.bad, ()
                ok = all(self.arg(x, y, facts) for x, y in zip(a.args, xs))
                self.bad = save
                if ok:
                    return True
            return self.fail(a, b, facts)
        if len(a.args) != len(b.args):
            return self.fail(a, b, facts)
        if a.op == "idx" and a.args[1].op == b.args[1].op == "slice" and (a.args[1].args[1] is NONE) != (b.args[1].args[1] is NONE):
            a, b = self.to_end(a, facts), self.to_end(b, facts)
        if a.op in TT.BINDERS and a.args[1] != b.args[1]:
            # same bound variable on both sides
            h = max(a.args[1], b.args[1])
            while any(contains(y, lambda z: z is bv(h)) for t in (a, b) if t.args[1] != h for y in t.args[2:]):
                h += 1

            def at(t):
                m = {bv(t.args[1]).dig: bv(h), mk("acc", t.args[1]).dig: mk("acc", h)}
                return (t.args[0], h, subst(t.args[2], m)) + t.args[3:]

            xa, xb = at(a), at(b)
        else:
            xa, xb = a.args, b.args
        for x, y in zip(xa, xb):
            if not self.arg(x, y, facts):
                return self.fail(a, b, facts)
        return True

    def to_end(self, t, facts):
        """A slice that reaches past the end under the gates passed goes to the end."""
        lo, hi, step = t.args[1].args
        if hi is NONE or step is not NONE:
            return t
        n = self.fix(seq_len(t.args[0]), facts)
        short = self.fix(lt(hi, n), facts)
        return mk("idx", t.args[0], mk("slice", lo, NONE, step)) if short is FALSE else t

    def arg(self, x, y, facts):
        if isinstance(x, T) and isinstance(y, T):
            return self.eq(x, y, facts)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg(p, q, facts) for p, q in zip(x, y))
        return x == y

    def poly(self, a, b, facts):
        d = TT._sub(a, b)
        if d is ZERO:
            return True
        m = TT._monos(d)
        # remaining monomials have to cancel in pairs up to equivalence
        pos = [(k, c) for k, c in m.items() if not isinstance(c, str) and c > 0]
        neg_ = [(k, c) for k, c in m.items() if not isinstance(c, str) and c < 0]
        if len(pos) != len(neg_) or len(pos) > 5:
            return False
        for k, c in pos:
            for j in neg_:
                if j[1] == -c and len(j[0]) == len(k):
                    save, self.bad = self.bad, ()
                    ok = all(self.eq(x, y, facts) for x, y in zip(k, j[0]))
                    self.bad = save
                    if ok:
                        neg_.remove(j)
                        break
            else:
                return False
        return True


def impossible(facts):
    """Whether the gates passed exclude each other: an element that has a property, and none that has a weaker one."""
    some = [g for g, v in facts if v and g.op == "exists"]
    none = [g for g, v in facts if not v and g.op == "exists"]
    for x in some:
        for y in none:
            if x.args[0] is y.args[0]:
                b = y.args[2] if x.args[1] == y.args[1] else subst(y.args[2], {bv(y.args[1]).dig: bv(x.args[1])})
                if and_(x.args[2], not_(b)) is FALSE:
                    return True
    return False


def from_front(a, b, facts):
    """Places counted from the end of something whose length the gates passed fix."""
    known = {}
    for g, v in facts:
        if v and g.op == "eq" and is_num_const(g.args[1]) and g.args[0].op == "len":
            known[g.args[0].args[0].dig] = cval(g.args[1])
    if not known:
        return False

    def f(x):
        if x.op == "idx" and x.args[0].dig in known and is_num_const(x.args[1]) and cval(x.args[1]) < 0:
            return mk("idx", x.args[0], const(known[x.args[0].dig] + cval(x.args[1])))
        return x

    if rewrite(a, f) is rewrite(b, f):
        return True
    seen = {}
    for g, v in facts:
        if seen.setdefault(rewrite(g, f).dig, v) != v:
            return True
    return False


def same(a, b, budget=40000):
    """(verdict True/False/None, (x, y, facts) first difference)"""
    if a is b:
        return True, None
    s = Same(budget)
    try:
        r = s.eq(a, b)
    except (Limit, RecursionError):
        return None, (a, b, ())
    return r, s.bad if not r else None
