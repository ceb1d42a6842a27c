"""Hash-consed value terms with a normal form.

The evaluator in flow.py maps every expression of the analysed program to one of
these terms (value numbering over gated SSA).  Two expressions that the rules of
this module can see to be equal become the *same* object, so equality is `is`.

Shapes (op, args):
  const(type, value)         literal
  sym(name)                  parameter / named root
  poly(((mono, coef)...))    integer/real polynomial over other terms
  ite(atom, a, b)            gated value, an ordered decision diagram
  lt(lin, c)  eq(a, b)  isnone(x)  truthy(x)  in(a, b) isinst(x, T)    atoms
  call/attr/idx/list/...     everything else
"""
import hashlib
import time

_TABLE = {}


class T:
    __slots__ = ("op", "args", "dig", "size", "flags")

    def __repr__(self):
        return show(self)


OPAQUE_OPS = {"opaque", "rec", "mu", "undef", "exc", "hole"}


def _akey(a):
    if isinstance(a, T):
        return a.dig
    if isinstance(a, tuple):
        return "(" + ",".join(_akey(x) for x in a) + ")"
    return type(a).__name__ + ":" + repr(a)


def _iter_terms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _iter_terms(a)


LIMIT = [0, 0.0]  # calls so far, time at which to give up


class Slow(Exception):
    """The part of a check being worked on takes too long."""


# exceptions that are ordinarily caught to ask a question; catching any other to carry on is another behaviour
QUESTIONS = {"KeyError", "IndexError", "LookupError", "AttributeError", "StopIteration", "ValueError", "TypeError", "FileNotFoundError", "FileExistsError", "ImportError", "ModuleNotFoundError", "ZeroDivisionError", "NotImplementedError", "UnicodeDecodeError"}


def asks(names):
    names = [names] if isinstance(names, str) else names
    return any(str(n).split(".")[-1] in QUESTIONS for n in names)


def mk(op, *args):
    LIMIT[0] += 1
    if not LIMIT[0] & 4095 and LIMIT[1] and time.time() > LIMIT[1]:
        raise Slow("time limit")
    k = op + "|" + ",".join(_akey(a) for a in args)
    dig = hashlib.blake2b(k.encode(), digest_size=10).hexdigest()
    t = _TABLE.get(dig)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.dig = dig
        s = 1
        fl = op in OPAQUE_OPS and not (op == "exc" and not asks(args[0]))
        for x in _iter_terms(args):
            s += x.size
            fl = fl or x.flags
        t.size = s
        t.flags = fl
        _TABLE[dig] = t
    return t


def subterms(t, seen=None):
    """All distinct subterms (preorder)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.dig in seen:
            continue
        seen.add(x.dig)
        yield x
        stack.extend(_iter_terms(x.args))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def opaque(t):
    """True when the term contains something the analysis did not understand."""
    return t is not None and t.flags


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, T):
        return v
    return mk("const", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
EMPTYSTR = const("")
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def sym(name):
    return mk("sym", name)


def is_num_const(t):
    return t.op == "const" and t.args[0] in ("int", "float", "bool")


# ------------------------------------------------------------------ kinds
STR_METHODS = {
    "strip", "lstrip", "rstrip", "lower", "upper", "replace", "format", "join", "decode",
    "title",
}
_INT_CALLS = {"len", "int", "ord", "hash", "id", "nbytes"}


KINDS = {}
COUNTS = set()  # arguments a driver declares never negative
COUNT_RULES = []  # further terms a rule declares never negative: functions of the term
LEN_RULES = []  # lengths a rule knows: functions of the sequence, or None
OBJECTS = set()  # arguments a driver declares None or an object without a truth value of its own


def kind(t):
    op = t.op
    if op in ("sym", "attr"):
        return KINDS.get(t.dig)
    if op == "const":
        return t.args[0]
    if op == "poly":
        for mono, c in t.args[0]:
            if isinstance(c, float):
                return "float"
            for m in mono:
                if kind(m) == "float":
                    return "float"
        return "num"
    if op == "typed":
        return t.args[1]
    if op in ("fmt", "str"):
        return "str"
    if op in ("list", "cat", "flat"):
        return "list"
    if op == "tuple":
        return "tuple"
    if op == "repeat":
        return kind(t.args[0])
    if op == "fold":
        return "list" if kind(t.args[3]) == "list" else None
    if op == "idx":
        if t.args[1].op != "slice":
            return "str" if kind(t.args[0]) == "str" else elem_kind(t.args[0])
        k = kind(t.args[0])
        return k if k in SEQ_KINDS else None
    if op == "dict":
        return "dict"
    if op in ("lt", "eq", "isnone", "truthy", "in", "isinst", "nonempty"):
        return "bool"
    if op in ("len", "iter", "fdiv", "mod", "psum", "sum", "ziplen", "nbytes"):
        return "int"
    if op == "ite":
        a = kind(t.args[1])
        b = kind(t.args[2])
        if a == b:
            return a
        if {a, b} <= {"int", "num", "bool"}:
            return "num"
        return None
    if op == "bytes":
        return "bytes"
    if op == "max" or op == "min":
        return "num"
    if op == "call":
        f = t.args[0]
        if isinstance(f, str):
            if f in _INT_CALLS:
                return "int"
            if f == "float":
                return "float"
            if f in ("str", "os.path.join", "repr"):
                return "str"
            if f in ("list", "sorted", "set"):
                return "list"
            if f in ("bytes", "struct.pack"):
                return "bytes"
            if f.startswith(".") and f[1:] in STR_METHODS:
                return "str"
            if f == ".tobytes" or f == ".encode":
                return "bytes"
            if f in (".split", ".splitlines", ".keys", ".values", ".items"):
                return "list"
    return None


APART = {"float", "str", "bytes", "list", "tuple", "dict", "set", "np.ndarray"}
SEQ_KINDS = {"str", "list", "tuple", "bytes"}


def elem_kind(t, d=0):
    """Kind shared by all elements of a sequence, if known."""
    op = t.op
    if d > 8:
        return None
    if op in ("list", "tuple", "cat", "setof"):
        ks = {elem_kind(x, d + 1) if op in ("cat", "setof") else kind(x) for x in t.args}
        return ks.pop() if len(ks) == 1 else None
    if op == "repeat":
        return elem_kind(t.args[0], d + 1)
    if op == "call" and isinstance(t.args[0], str):
        f, a = t.args[0], t.args[1]
        if f in (".split", ".rsplit", ".splitlines"):
            return "str"
        if f == "np.multiply":
            return "float"
        if f == "csv.reader":
            return "list"
        if f in ("sorted", "list", "tuple", "set") and a:
            return elem_kind(a[0], d + 1)
        if f == ".__next__" and a and a[0].op == "call" and a[0].args[0] == "csv.reader":
            return "str"
    if op == "idx" and t.args[1].op == "slice":
        return elem_kind(t.args[0], d + 1)
    if op == "mu" and isinstance(t.args[1], T):
        return elem_kind(t.args[1], d + 1)
    if op in ("sym", "attr"):
        return KINDS.get((t.dig, "[]"))
    return None


# ------------------------------------------------------------------ polynomials
def _monos(t):
    """dict mono(tuple of T)->coef ; t numeric-ish."""
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const" and t.args[0] in ("int", "float", "bool"):
        v = cval(t)
        if isinstance(v, bool):
            v = int(v)
        return {(): v} if v != 0 else {}
    return {(t,): 1}


def _frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and not isinstance(c, float) and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), [x.dig for x in mc[0]])))
    return mk("poly", items)


LIFT_LIMIT = 48


def _leaves(t, lim=200):
    if t.op != "ite":
        return 1
    n = 0
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.dig in seen:
            continue
        seen.add(x.dig)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        n += 1
        if n > lim:
            return n
    return n


def leafset(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.dig in seen:
            continue
        seen.add(x.dig)
        if x.op == "ite":
            st += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def lift(fn, *ts):
    """Apply fn to terms, moving ite above it when the result stays small."""
    tot = 1
    any_ite = False
    for t in ts:
        if t.op == "ite":
            any_ite = True
            tot *= _leaves(t)
    if not any_ite or tot > LIFT_LIMIT:
        return fn(*ts)
    atom = min((t.args[0] for t in ts if t.op == "ite"), key=_order)
    hi = [assume(t, atom, True) for t in ts]
    lo = [assume(t, atom, False) for t in ts]
    return ite(atom, lift(fn, *hi), lift(fn, *lo))


def add(a, b):
    return lift(_add, a, b)


def _add(a, b):
    ka, kb = kind(a), kind(b)
    if ka in SEQ_KINDS or kb in SEQ_KINDS:
        return concat(a, b)
    d = _monos(a)
    for m, c in _monos(b).items():
        d[m] = d.get(m, 0) + c
    return _frompoly(d)


def neg(a):
    return lift(lambda x: _frompoly({m: -c for m, c in _monos(x).items()}), a)


def sub(a, b):
    return lift(_sub, a, b)


def _sub(a, b):
    d = _monos(a)
    for m, c in _monos(b).items():
        d[m] = d.get(m, 0) - c
    return _frompoly(d)


def mul(a, b):
    return lift(_mul, a, b)


def _mul(a, b):
    ka, kb = kind(a), kind(b)
    if ka in SEQ_KINDS or kb in SEQ_KINDS:
        if kb in SEQ_KINDS and ka not in SEQ_KINDS:
            a, b = b, a
        if a.op in ("list", "tuple") and is_num_const(b) and 0 <= cval(b) <= 16 and isinstance(cval(b), int):
            return mk(a.op, *(a.args * cval(b)))
        return mk("repeat", a, b)
    da, db = _monos(a), _monos(b)
    if len(da) * len(db) > 64:
        return mk("bin", "*", *sorted((a, b), key=lambda x: x.dig))
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.dig))
            d[m] = d.get(m, 0) + c1 * c2
    return _frompoly(d)


def floordiv(a, b):
    return lift(_fdiv, a, b)


def _fdiv(a, b):
    if is_num_const(b) and isinstance(cval(b), int) and cval(b) != 0:
        k = cval(b)
        if is_num_const(a) and isinstance(cval(a), int):
            return const(cval(a) // k)
        d = _monos(a)
        if k == 1:
            return a
        if d and all(isinstance(c, int) and c % k == 0 for c in d.values()):
            return _frompoly({m: c // k for m, c in d.items()})
        # split off the exactly divisible part
        div = {m: c // k for m, c in d.items() if isinstance(c, int) and c % k == 0}
        rest = {m: c for m, c in d.items() if not (isinstance(c, int) and c % k == 0)}
        if div and rest:
            return _add(_frompoly(div), mk("fdiv", _frompoly(rest), b))
    if a is b:
        return ONE
    return mk("fdiv", a, b)


def mod(a, b):
    def f(a, b):
        if kind(a) == "str":
            return percent_format(a, b)
        if is_num_const(a) and is_num_const(b) and isinstance(cval(a), int) and isinstance(cval(b), int) and cval(b):
            return const(cval(a) % cval(b))
        return mk("mod", a, b)

    return lift(f, a, b)


def truediv(a, b):
    def f(a, b):
        if is_num_const(a) and is_num_const(b) and cval(b):
            return const(cval(a) / cval(b))
        return mk("div", a, b)

    return lift(f, a, b)


def coefs(t):
    """(linear dict without const, const)"""
    d = _monos(t)
    c = d.pop((), 0)
    return d, c


# ------------------------------------------------------------------ sequences / strings
def concat(a, b):
    if kind(a) == "str" or kind(b) == "str" or a.op == "fmt" or b.op == "fmt":
        return fmt([a, b])
    if kind(a) == "bytes" or kind(b) == "bytes":
        return mk("bytes", *(_bparts(a) + _bparts(b)))
    if a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.args + b.args))
    parts = []
    for x in (a, b):
        if x.op == "cat":
            parts.extend(x.args)
        else:
            parts.append(x)
    return cat(parts)


def _bparts(t):
    if t.op == "bytes":
        return t.args
    if t.op == "const" and t.args[0] == "bytes" and cval(t) == b"":
        return ()
    return (t,)


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            sub_ = list(p.args)
        else:
            sub_ = [p]
        for q in sub_:
            if q.op == "list" and len(q.args) == 0:
                continue
            if out and out[-1].op == "list" and q.op == "list":
                out[-1] = mk("list", *(out[-1].args + q.args))
            else:
                out.append(q)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def fmt(parts):
    """String concatenation normal form; parts are terms (str consts or values)."""
    parts = [const(p) if isinstance(p, str) else p for p in parts]
    if any(p.op == "ite" for p in parts):
        return lift(lambda *ps: fmt(ps), *parts)
    out = []
    for p in parts:
        if p.op == "fmt":
            seq = p.args
        elif p.op == "call" and p.args[0] == "str" and len(p.args[1]) == 1:
            seq = (p.args[1][0],)
        else:
            seq = (p,)
        for q in seq:
            if q.op in ("list", "tuple") and q.args and all(is_const(x) and type(cval(x)) in (int, bool, str) for x in q.args):
                q = const(str([cval(x) for x in q.args] if q.op == "list" else tuple(cval(x) for x in q.args)))
            if is_const(q) and not isinstance(cval(q), (bytes, float)):
                s = str(cval(q))
                if s == "":
                    continue
                if out and is_const(out[-1]):
                    out[-1] = const(cval(out[-1]) + s)
                else:
                    out.append(const(s))
            else:
                out.append(q)
    if not out:
        return EMPTYSTR
    if len(out) == 1 and is_const(out[0]):
        return out[0]
    if any(p.op == "ext" and p.args[0] in SEPARATORS or p.op == "call" and p.args[0] == "os.path.join" for p in out):
        return located(out)
    return mk("fmt", *out)


SEPARATORS = ("os.path.sep", "os.sep")


def located(out):
    """Text with path separators in it, as a joined path."""
    parts = [[]]
    for p in out:
        if p.op == "ext" and p.args[0] in SEPARATORS:
            parts.append([])
        elif p.op == "call" and p.args[0] == "os.path.join" and not p.args[2] and not parts[-1]:
            parts[-1:] = [[x] for x in p.args[1]]
        else:
            parts[-1].append(p)
    if not all(parts) or len(parts) < 2:
        return mk("fmt", *out)
    return mk("call", "os.path.join", tuple(p[0] if len(p) == 1 else fmt(p) for p in parts), (), NONE)


def percent_format(a, b):
    if not is_const(a):
        return mk("bin", "%", a, b)
    import re

    args = list(b.args) if b.op == "tuple" else [b]
    parts = []
    pos = 0
    for m in re.finditer(r"%[sdi]|%%", cval(a)):
        parts.append(const(cval(a)[pos:m.start()]))
        pos = m.end()
        if m.group() == "%%":
            parts.append(const("%"))
        elif args:
            parts.append(args.pop(0))
        else:
            return mk("bin", "%", a, b)
    parts.append(const(cval(a)[pos:]))
    return fmt(parts)


def strformat(s, args, kwargs):
    """'...'.format(...)"""
    import string

    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if spec or conv or "." in field or "[" in field:
                return None
            if field == "":
                parts.append(args[auto])
                auto += 1
            elif field.isdigit():
                parts.append(args[int(field)])
            else:
                parts.append(kwargs[field])
    except (IndexError, KeyError, ValueError):
        return None
    return fmt(parts)


# ------------------------------------------------------------------ gates
ATOM_OPS = {"lt", "eq", "isnone", "truthy", "in", "isinst", "nonempty", "exc", "exists", "atom"}


def _order(atom):
    # atoms over the same subject sort next to each other
    s = atom.args[0]
    return ((s.dig if isinstance(s, T) else ""), atom.op, atom.dig)


def _top(t):
    return t.args[0] if t.op == "ite" else None


_ITE = {}


def ite(c, a, b):
    """c: boolean diagram; a, b: any terms."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.dig, a.dig, b.dig)
    r = _ITE.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        # c is an atom used as boolean value
        c2 = c
        if c.op not in ATOM_OPS:
            c2 = mk("truthy", c)
        atomc = c2
        # bring into diagram form
        cand = [atomc] + [x.args[0] for x in (a, b) if x.op == "ite"]
    else:
        atomc = None
        cand = [c.args[0]] + [x.args[0] for x in (a, b) if x.op == "ite"]
    v = min(cand, key=_order)

    def cof(t, val):
        return assume(t, v, val)

    if atomc is not None:
        ch = TRUE if atomc is v else cofactor_atom(atomc, v, True)
        cl = FALSE if atomc is v else cofactor_atom(atomc, v, False)
    else:
        ch, cl = cof(c, True), cof(c, False)
    hi = ite(ch, cof(a, True), cof(b, True))
    lo = ite(cl, cof(a, False), cof(b, False))
    r = node(v, hi, lo)
    _ITE[k] = r
    return r


def cofactor_atom(atom, v, val):
    x = implied(v, val, atom)
    if x is None:
        return atom
    return const(x)


def node(v, hi, lo):
    if hi is lo:
        return hi
    if v.op == "isnone" and hi is ZERO and lo is v.args[0]:
        # for an optional number, "0 if x is None else x" is "x or 0"
        return ite(mk("truthy", lo), lo, ZERO)
    if hi is TRUE and lo is FALSE:
        return v
    if v.op == "nonempty" and lo.op != "ite" and contains(hi, lambda x: x.op == "len" and x.args[0] is v.args[0]):
        # what an empty sequence gives is already what its length 0 gives
        if subst(hi, {mk("len", v.args[0]).dig: ZERO}) is lo:
            return hi
    if v.op in ("lt", "eq"):
        # a repetition of non-positive length is already empty
        for x, y, val in ((hi, lo, True), (lo, hi, False)):
            if x.op == "list" and not x.args and y.op in ("repeat", "flat"):
                d = y.args[1] if y.op == "repeat" else y.args[0]
                if assume(lt(d, ONE), v, val) is TRUE:
                    return y
    m = _minmax(v, hi, lo)
    if m is not None:
        return m
    if v.op == "eq" and hi.op == lo.op == "call" and hi.args[0] == lo.args[0] and v.args[0].op in ("bv", "iter") and is_num_const(v.args[1]) and subst(lo, {v.args[0].dig: v.args[1]}) is hi:
        # what the other case would give anyway
        return lo
    if v.op == "eq" and hi.op != "ite" and lo.op != "ite":
        # a if a == b else b  is  b
        if {hi.dig, lo.dig} == {v.args[0].dig, v.args[1].dig}:
            return lo
        if is_num_const(hi) and is_num_const(v.args[1]) and v.args[0].op in ("sym", "len") and lo.op in ("max", "min", "poly") and subst(lo, {v.args[0].dig: v.args[1]}) is hi:
            return lo
        if is_num_const(v.args[1]) and kind(hi) not in SEQ_KINDS and kind(lo) not in SEQ_KINDS and v.args[0].op == "poly" \
                and NONE not in (hi, lo) and hi.op not in ("const",):
            d = _sub(hi, lo)
            e = _sub(v.args[0], v.args[1])
            if d is e or d is _sub(ZERO, e):
                return lo
    return mk("ite", v, hi, lo)


def _minmax(v, hi, lo):
    """a<b ? b : a  ==> max(a, b) ; with ties irrelevant."""
    if v.op != "lt" or hi.op == "ite" or lo.op == "ite":
        return None
    if kind(hi) in SEQ_KINDS or kind(lo) in SEQ_KINDS or hi.op in ("tuple", "list") or lo.op in ("tuple", "list"):
        return None
    if hi in (TRUE, FALSE, NONE) or lo in (TRUE, FALSE, NONE):
        return None
    lin, c = v.args
    d = _sub(hi, lo)
    if is_const(d):
        return None
    diff = _sub(lin, c)  # < 0 on hi branch
    for adj in (ZERO, ONE):
        e = _add(diff, adj) if adj is ONE else diff
        if d is _sub(ZERO, e):
            return mk_minmax("max", hi, lo)
        if d is e:
            return mk_minmax("min", hi, lo)
    return None


NINF = mk("ninf")
PINF = mk("pinf")


def mk_over(op, D, h, body):
    """max/min of body over bv(h) in 0..D-1; a case without element is the neutral bound."""
    which = op[:3]
    zero = NINF if which == "max" else PINF
    if D is ZERO or body is zero:
        return zero
    if not contains(body, lambda x: x is bv(h)) and is_num_const(D):
        return body
    if body.op == "ite" and not contains(body.args[0], lambda x: x is bv(h)):
        return ite(body.args[0], mk_over(op, D, h, body.args[1]), mk_over(op, D, h, body.args[2]))
    return mk(op, *rebind((D, h, body)))


def _trim(t, which, b, unit):
    """Drop candidates that cannot exceed the constant bound b."""
    if is_num_const(t):
        return unit if (cval(t) <= b if which == "max" else cval(t) >= b) else t
    if t.op == which + "over":
        n = _trim(t.args[2], which, b, unit)
        return t if n is t.args[2] else mk_over(t.op, t.args[0], t.args[1], n)
    if t.op == "ite":
        x, y = _trim(t.args[1], which, b, unit), _trim(t.args[2], which, b, unit)
        return t if x is t.args[1] and y is t.args[2] else ite(t.args[0], x, y)
    return t


def mk_minmax(which, *xs):
    out = []
    tot = 1
    for x in xs:
        if x.op == "ite":
            tot *= _leaves(x)
    if 1 < tot <= LIFT_LIMIT:
        return lift(lambda *ys: mk_minmax(which, *ys), *xs)
    unit, top = (NINF, PINF) if which == "max" else (PINF, NINF)
    if top in xs:
        return top
    xs = [x for x in xs if x is not unit] or [unit]
    cs = [cval(x) for x in xs if is_num_const(x)]
    if cs:
        b = max(cs) if which == "max" else min(cs)
        xs = [x if is_num_const(x) else _trim(x, which, b, unit) for x in xs]
        xs = [x for x in xs if x is not unit]
    for x in xs:
        if x.op == which:
            out.extend(x.args)
        else:
            out.append(x)
    uniq = {x.dig: x for x in out}
    xs = sorted(uniq.values(), key=lambda x: x.dig)
    if len(xs) == 1:
        return xs[0]
    if all(is_num_const(x) for x in xs):
        return const((max if which == "max" else min)(cval(x) for x in xs))
    return mk(which, *xs)


_ASSUME = {}


def assume(t, atom, val):
    """Simplify diagram t under atom == val (only top-level diagram structure)."""
    if t.op in ATOM_OPS:
        x = implied(atom, val, t)
        return t if x is None else const(x)
    if t.op != "ite":
        return t
    k = (t.dig, atom.dig, val)
    r = _ASSUME.get(k)
    if r is None:
        v, hi, lo = t.args
        x = implied(atom, val, v)
        if x is True:
            r = assume(hi, atom, val)
        elif x is False:
            r = assume(lo, atom, val)
        else:
            r = node(v, assume(hi, atom, val), assume(lo, atom, val))
        _ASSUME[k] = r
    return r


def implied(atom, val, other):
    """Value of `other` forced by atom == val, or None."""
    if atom is other:
        return val
    if not isinstance(atom.args[0], T) or not isinstance(other.args[0], T):
        return None
    a, o = atom.op, other.op
    s = atom.args[0]
    t = other.args[0]
    if a == "eq" and val and o == "isnone" and s.op == "poly" and is_num_const(atom.args[1]):
        # numbers compared equal: neither side is None
        if any(len(m) == 1 and m[0] is t for m in _monos(s)):
            return False
    if a == "isnone" and val and o == "eq" and t.op == "poly" and is_num_const(other.args[1]):
        if any(len(m) == 1 and m[0] is s for m in _monos(t)):
            return False
    if s is t:
        if a == "eq" and val:
            c = atom.args[1]
            if o == "eq":
                if is_const(c) and is_const(other.args[1]):
                    return False  # distinct constants (same ones are the same atom)
            elif o == "isnone" and is_const(c):
                return False
            elif o == "truthy" and is_const(c):
                return bool(cval(c))
            elif o == "lt" and is_num_const(c) and is_num_const(other.args[1]):
                return cval(c) < cval(other.args[1])
            elif o == "nonempty" and is_const(c) and isinstance(cval(c), str):
                return bool(cval(c))
        elif a == "isnone" and val:
            if o == "truthy":
                return False
            if o == "eq" and is_const(other.args[1]):
                return False
            if o == "isinst":
                return False
            if o == "nonempty":
                return False
        elif a == "isnone" and not val:
            pass
        elif a == "truthy" and val:
            if o == "isnone":
                return False
            if o == "eq" and is_const(other.args[1]) and not cval(other.args[1]):
                return False
        elif a == "truthy" and not val:
            if o == "eq" and is_const(other.args[1]) and cval(other.args[1]):
                return False
        elif a == "isinst" and val:
            if o == "isnone":
                return False
            if o == "isinst" and {atom.args[1], other.args[1]} <= APART and atom.args[1] != other.args[1]:
                return False
        elif a == "nonempty" and val:
            if o == "isnone":
                return False
        if a == "lt" and o == "lt" and is_num_const(atom.args[1]) and is_num_const(other.args[1]):
            c1, c2 = cval(atom.args[1]), cval(other.args[1])
            if val and c1 <= c2:
                return True
            if not val and c2 <= c1:
                return False
        if a == "lt" and o == "eq" and is_num_const(atom.args[1]) and is_num_const(other.args[1]):
            c1, c2 = cval(atom.args[1]), cval(other.args[1])
            if val and c2 >= c1:
                return False
            if not val and c2 < c1:
                return False
    # a total or a search over an empty sequence
    if a == "nonempty" and not val:
        if o == "lt" and t.op == "psum" and _walks(t, s) and is_num_const(other.args[1]):
            return 0 < cval(other.args[1])
        if o == "lt" and is_num_const(other.args[1]) and cval(other.args[1]) > 0 and _bounded(t, s):
            return True
        if o == "exists" and _walks(other, s):
            return False
    if o == "nonempty":
        if a == "lt" and not val and s.op == "psum" and _walks(s, t) and is_num_const(atom.args[1]) and cval(atom.args[1]) > 0:
            return True
        if a == "lt" and not val and is_num_const(atom.args[1]) and cval(atom.args[1]) > 0 and _bounded(s, t):
            return True
        if a == "exists" and val and _walks(atom, t):
            return True
    return None


def _bounded(p, x):
    """Not above a total over x."""
    if p.op != "poly":
        return False
    up = [m for m, c in _monos(p).items() if not (isinstance(c, (int, float)) and c < 0 and all(natural(y) for y in m))]
    return len(up) == 1 and len(up[0]) == 1 and up[0][0].op == "psum" and _walks(up[0][0], x)


def _walks(b, x):
    return b.args[0].op == "len" and b.args[0].args[0] is x


def as_bool(t):
    """Truth value of a term as a boolean diagram."""
    op = t.op
    if op == "const":
        return const(bool(cval(t)))
    if op in ATOM_OPS:
        return t
    if op == "ite":
        return ite(t.args[0], as_bool(t.args[1]), as_bool(t.args[2]))
    if op == "len":
        return nonempty(t.args[0])
    if op in ("list", "tuple", "dict"):
        return const(len(t.args) > 0)
    if op == "fmt":
        if any(is_const(x) and cval(x) for x in t.args):
            return TRUE
    if kind(t) in ("int", "num") or op == "poly":
        return not_(eq(t, ZERO))
    if op in ("flat", "cat") or kind(t) in SEQ_KINDS:
        return nonempty(t)
    if op in ("inst", "fn"):
        return TRUE
    if t.dig in OBJECTS:
        return not_(isnone(t))
    return mk("truthy", t)


def nonempty(x):
    if x.op in ("list", "tuple", "dict"):
        return const(len(x.args) > 0)
    if x.op == "cat" and any(p.op == "list" and p.args for p in x.args):
        return TRUE
    if x.op == "repeat":
        return and_(nonempty(x.args[0]), lt(ZERO, x.args[1]))
    if x.op == "flat" and x.args[0].op == "len" and x.args[2].op == "list" and x.args[2].args and x.args[2].args[0].op != "star":
        return nonempty(x.args[0].args[0])
    if is_const(x) and isinstance(cval(x), (str, bytes)):
        return const(len(cval(x)) > 0)
    return mk("nonempty", x)


def not_(t):
    t = as_bool(t)
    return ite(t, FALSE, TRUE)


def and_(a, b):
    a, b = as_bool(a), as_bool(b)
    return ite(a, b, FALSE)


def or_(a, b):
    a, b = as_bool(a), as_bool(b)
    return ite(a, TRUE, b)


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if a is NONE or b is NONE:
            return isnone(b if a is NONE else a)
        if is_const(a) and is_const(b):
            try:
                return const(bool(cval(a) == cval(b)))
            except Exception:
                return FALSE
        if a.op == b.op == "class":
            return FALSE
        if is_const(a):
            a, b = b, a
        if is_const(b) and not is_num_const(b):
            if cval(b) == "" and False:
                return not_(nonempty(a))
            if a.op == "fmt" and isinstance(cval(b), str) and a.args:
                p, q = a.args[0], a.args[-1]
                if is_const(p) and not cval(b).startswith(str(cval(p))) or is_const(q) and not cval(b).endswith(str(cval(q))):
                    return FALSE
            if isinstance(cval(b), (str, bytes)) and len(cval(b)) == 0:
                return ite(nonempty(a), FALSE, TRUE)
            return mk("eq", a, b)
        if a.op == b.op and a.op in ("tuple", "list") and not any(x.op == "star" for t in (a, b) for x in t.args):
            if len(a.args) != len(b.args):
                return FALSE
            if len(a.args) <= 6:
                r = TRUE
                for x, y in zip(a.args, b.args):
                    r = and_(r, eq(x, y))
                return r
        if kind(a) in SEQ_KINDS or kind(b) in SEQ_KINDS or a.op in ("tuple", "list", "dict", "inst"):
            x, y = sorted((a, b), key=lambda t: t.dig)
            return mk("eq", x, y)
        if b in (TRUE, FALSE) :
            return mk("eq", a, b)
        # numeric
        lin, c = coefs(_sub(a, b))
        if not lin:
            return const(c == 0)
        lin, c = _signnorm(lin, c)
        lt_ = _frompoly(lin)
        if lt_.op == "len" and c == 0:
            return ite(nonempty(lt_.args[0]), FALSE, TRUE)
        if lt_.op == "fdiv" and c == 0 and len(lt_.args) == 2:
            # a // b is 0 where a < b
            x, y = lt_.args
            part, k = coefs(x)
            if all(v >= 0 and all(natural(z) for z in mm) for mm, v in part.items()) and (k >= 0 or k == -1 and (y,) in part) and (natural(y) or is_num_const(y) and cval(y) > 0):
                return lt(x, y)
        return mk("eq", lt_, const(_ci(-c)))

    return lift(f, a, b)


def _ci(c):
    return int(c) if isinstance(c, float) and c.is_integer() and False else c


def _signnorm(lin, c):
    m = min(lin, key=lambda mm: (len(mm), [x.dig for x in mm]))
    k = lin[m]
    if k < 0:
        lin = {mm: -v for mm, v in lin.items()}
        c = -c
        return lin, c
    return lin, c


def is_count(x):
    if x.dig in COUNTS or any(f(x) for f in COUNT_RULES):
        return True
    return x.op == "call" and x.args[0] == "int" and len(x.args[1]) == 1 and is_count(x.args[1][0])


def natural(x):
    """Cannot be negative, whatever the program does."""
    if x.op in ("len", "iter", "bv") or x.op in ("sym", "attr", "call", "idx", "fold") and is_count(x):
        return True
    if x.op == "max":
        return any(is_num_const(a) and cval(a) >= 0 or natural(a) for a in x.args)
    return False


def lt(a, b):
    """a < b"""

    def f(a, b):
        if a is b:
            return FALSE
        if is_const(a) and is_const(b):
            try:
                return const(bool(cval(a) < cval(b)))
            except Exception:
                return mk("atom", mk("bin", "<", a, b))
        if kind(a) in SEQ_KINDS or kind(b) in SEQ_KINDS or a.op == "tuple" or b.op == "tuple":
            return mk("atom", mk("bin", "<", a, b))
        isf = kind(a) == "float" or kind(b) == "float"
        lin, c = coefs(_sub(a, b))  # lin + c < 0
        if not lin:
            return const(c < 0)
        for mm, k in lin.items():
            if len(mm) == 1 and mm[0].op == "min" and len(mm[0].args) == 2 and k in (1, -1) and not isf:
                # a bound that does not matter
                rest = _sub(_sub(a, b), mm[0] if k == 1 else _sub(ZERO, mm[0]))
                for x, y in (mm[0].args, mm[0].args[::-1]):
                    d = _add(rest, y) if k == 1 else _sub(rest, y)
                    if is_num_const(d):
                        if (cval(d) < 0) == (k == 1):
                            return const(k == 1)
                        return lt(_add(rest, x) if k == 1 else _sub(rest, x), ZERO)
        m = min(lin, key=lambda mm: (len(mm), [x.dig for x in mm]))
        if lin[m] > 0:
            l = _frompoly(lin)
            c2 = -c
            if l.op == "len" and c2 == 1:
                return ite(nonempty(l.args[0]), FALSE, TRUE)
            if is_count(l) and c2 == 1:
                return eq(l, ZERO)
            if c2 <= 0 and all(v > 0 and all(natural(x) for x in mm) for mm, v in lin.items()):
                return FALSE
            return mk("lt", l, const(c2))
        # -L + c < 0  <=>  L > c  <=> not (L <= c)
        l = _frompoly({mm: -v for mm, v in lin.items()})
        if isf or isinstance(c, float) and not float(c).is_integer():
            return ite(mk("lt", l, mk("eps", const(c))), FALSE, TRUE)
        if l.op == "len" and c == 0:
            return nonempty(l.args[0])
        if is_count(l) and c == 0:
            return not_(eq(l, ZERO))
        if c < 0 and all(v < 0 and all(natural(x) for x in mm) for mm, v in lin.items()):
            return TRUE
        return ite(mk("lt", l, const(c + 1)), FALSE, TRUE)

    return lift(f, a, b)


def le(a, b):
    return not_(lt(b, a))


def isnone(a):
    def f(a):
        if a is NONE:
            return TRUE
        if is_const(a) or a.op in (
            "list", "tuple", "dict", "fmt", "poly", "cat", "flat", "inst", "len", "obj", "lambda", "func", "bytes", "max", "min", "fdiv", "mod", "iter", "psum", "sum", "class", "self", "cfunc"
        ):
            return FALSE
        if kind(a) in ("int", "num", "str", "list", "bytes", "float", "bool", "tuple", "dict"):
            return FALSE
        if a.dig in COUNTS:
            return FALSE
        if a.op == "fold" and a.args[3] is not NONE:
            # never None when neither the start nor any step can be
            b = subst(a.args[2], {mk("acc", a.args[1]).dig: ZERO})
            if isnone(a.args[3]) is FALSE and isnone(b) is FALSE:
                return FALSE
        return mk("isnone", a)

    return lift(f, a)


def constrain(t, g):
    """Simplify the top diagram of t under the boolean g."""
    if g is TRUE or (t.op != "ite" and t.op not in ATOM_OPS):
        return t
    if t.op in ATOM_OPS:
        if and_(g, t) is FALSE:
            return FALSE
        if and_(g, ite(t, FALSE, TRUE)) is FALSE:
            return TRUE
        return t
    v, hi, lo = t.args
    g1 = ite(g, v, FALSE)
    if g1 is FALSE:
        return constrain(lo, g)
    g2 = ite(g, ite(v, FALSE, TRUE), FALSE)
    if g2 is FALSE:
        return constrain(hi, g)
    return ite(v, constrain(hi, g1), constrain(lo, g2))


def units(g):
    """Literals forced by the boolean diagram g: list of (atom, val)."""
    out = []
    if g.op in ATOM_OPS:
        return [(g, True)]
    while g.op == "ite":
        v, hi, lo = g.args
        if lo is FALSE:
            out.append((v, True))
            g = hi
        elif hi is FALSE:
            out.append((v, False))
            g = lo
        else:
            break
    if g.op in ATOM_OPS:
        out.append((g, True))
    return out


def assume_all(t, lits):
    for a, v in lits:
        if t.op != "ite" and t.op not in ATOM_OPS:
            return t
        t = assume(t, a, v)
    return t


def cases(t, g=TRUE):
    """Split diagram into [(guard, leaf)]."""
    if t.op != "ite":
        return [(g, t)] if g is not FALSE else []
    v, hi, lo = t.args
    out = []
    g1 = and_(g, v)
    if g1 is not FALSE:
        out += cases(hi, g1)
    g2 = and_(g, ite(v, FALSE, TRUE))
    if g2 is not FALSE:
        out += cases(lo, g2)
    return out


def atoms_of(g):
    out = {}
    for x in subterms(g):
        if x.op in ATOM_OPS:
            out[x.dig] = x
    return out


def gate_atoms(g):
    """Atoms of the top decision diagram only."""
    out = {}
    st = [g]
    while st:
        x = st.pop()
        if x.op == "ite":
            out[x.args[0].dig] = x.args[0]
            st += [x.args[1], x.args[2]]
        elif x.op in ATOM_OPS:
            out[x.dig] = x
    return out


# ------------------------------------------------------------------ substitution
BINDERS = {"flat", "psum", "maxover", "minover", "fold", "until", "exists", "dflat", "scat"}


def bv(h):
    return mk("bv", h)


_HGT = {}


def height(t):
    """Greatest binder height inside t."""
    r = _HGT.get(t.dig)
    if r is None:
        r = 0
        for x in _iter_terms(t.args):
            r = max(r, height(x))
        if t.op in BINDERS:
            r = max(r, t.args[1])
        _HGT[t.dig] = r
    return r


def subst(t, m):
    """Replace subterms by digest map {dig: T}; rebuilds through the constructors."""
    if not m:
        return t
    memo = {}

    def go(x):
        r = m.get(x.dig)
        if r is not None:
            return r
        r = memo.get(x.dig)
        if r is not None:
            return r
        if x.op in BINDERS and (bv(x.args[1]).dig in m or x.op == "fold" and mk("acc", x.args[1]).dig in m):
            own = (bv(x.args[1]).dig, mk("acc", x.args[1]).dig) if x.op == "fold" else (bv(x.args[1]).dig,)
            m2 = {k: v for k, v in m.items() if k not in own}
            args = (go(x.args[0]), x.args[1], subst(x.args[2], m2)) + tuple(go(y) for y in x.args[3:])
            r = x if all(a is b for a, b in zip(args, x.args)) else renorm(x.op, args)
            memo[x.dig] = r
            return r
        changed = False

        def ga(a):
            nonlocal changed
            if isinstance(a, T):
                b = go(a)
                if b is not a:
                    changed = True
                return b
            if isinstance(a, tuple):
                return tuple(ga(y) for y in a)
            return a

        args = tuple(ga(a) for a in x.args)
        r = x if not changed else renorm(x.op, args)
        memo[x.dig] = r
        return r

    return go(t)


def rewrite(t, f):
    """Apply f to every subterm, bottom up, rebuilding through the constructors."""
    memo = {}

    def go(x):
        r = memo.get(x.dig)
        if r is not None:
            return r

        def ga(a):
            return go(a) if isinstance(a, T) else tuple(ga(y) for y in a) if isinstance(a, tuple) else a

        args = tuple(ga(a) for a in x.args)
        r = f(x if args == x.args else renorm(x.op, args))
        memo[x.dig] = r
        return r

    return go(t)


def settle(t, limit=30000):
    """Drop branches, at any depth, that the gates around them rule out."""
    memo = {}
    n = [0]

    def go(x, facts):
        x = assume_all(x, facts)
        k = (x.dig, tuple((a.dig, v) for a, v in facts))
        r = memo.get(k)
        if r is not None:
            return r
        n[0] += 1
        if n[0] > limit or len(facts) > 40:
            return x
        if x.op == "ite":
            v, hi, lo = x.args
            r = ite(v, go(hi, facts + ((v, True),)), go(lo, facts + ((v, False),)))
        else:

            def ga(a):
                return go(a, facts) if isinstance(a, T) else tuple(ga(y) for y in a) if isinstance(a, tuple) else a

            args = tuple(ga(a) for a in x.args)
            r = x if args == x.args else renorm(x.op, args)
        memo[k] = r
        return r

    return go(t, ())


RENORM_HOOKS = {}


def renorm(op, args):
    if op == "poly":
        out = ZERO
        for mono, c in args[0]:
            p = const(c)
            for f_ in mono:
                p = mul(p, f_)
            out = add(out, p)
        return out
    if op == "ite":
        return ite(as_bool(args[0]), args[1], args[2])
    if op == "fdiv":
        return floordiv(*args)
    if op == "mod":
        return mod(*args)
    if op == "div":
        return truediv(*args)
    if op == "lt":
        b = args[1]
        if b.op == "eps":
            return not_(lt(b.args[0], args[0]))
        return lt(*args)
    if op == "eq":
        return eq(*args)
    if op == "isnone":
        return isnone(*args)
    if op == "truthy":
        return as_bool(args[0])
    if op == "nonempty":
        return lift(nonempty, args[0])
    if op == "fmt":
        return fmt(args)
    if op == "cat":
        return cat(args)
    if op in ("max", "min"):
        return mk_minmax(op, *args)
    if op in ("maxover", "minover"):
        return mk_over(op, *args)
    if op in BINDERS:
        args = rebind(args)
    h = RENORM_HOOKS.get(op)
    if h:
        return h(*args)
    return mk(op, *args)


def rebind(args):
    """Canonical bound-variable height."""
    h = args[1]
    want = 1 + max(height(y) for y in args[2:])
    if want == h:
        return args
    while any(contains(y, lambda z: z is bv(want) or z is mk("acc", want)) for y in args[2:]):
        want += 1
    if want == h:
        return args
    return (args[0], want) + tuple(subst(y, {bv(h).dig: bv(want), mk("acc", h).dig: mk("acc", want)}) for y in args[2:])


def last_value(f):
    """A fold whose steps either keep the value or replace it by something independent of it."""
    acc = mk("acc", f.args[1])

    def ok(t):
        if t is acc:
            return True
        if t.op == "ite":
            return not contains(t.args[0], lambda x: x is acc) and ok(t.args[1]) and ok(t.args[2])
        if t.op == "fold" and last_value(t) and not contains(t.args[2], lambda x: x is acc):
            return ok(t.args[3])
        return not contains(t, lambda x: x is acc)

    return ok(f.args[2])


# ------------------------------------------------------------------ printing
def show(t, depth=0, lim=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1, lim) for x in t) + ")"
        return str(t)
    if depth > lim:
        return "…"
    s = lambda x: show(x, depth + 1, lim)
    op, a = t.op, t.args
    if op == "const":
        return repr(a[1])
    if op == "sym":
        return a[0]
    if op == "self":
        return "self"
    if op == "poly":
        out = []
        for mono, c in a[0]:
            body = "*".join(s(m) for m in mono)
            if not body:
                out.append(str(c))
            elif c == 1:
                out.append(body)
            else:
                out.append(f"{c}*{body}")
        return "(" + " + ".join(out) + ")"
    if op == "attr":
        return f"{s(a[0])}.{a[1]}"
    if op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "slice":
        return ":".join("" if x is NONE else s(x) for x in a)
    if op == "call":
        f = a[0] if isinstance(a[0], str) else s(a[0])
        args = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        ver = ""
        if len(a) > 3 and a[3] is not NONE:
            ver = "@" + s(a[3])
        if isinstance(f, str) and f.startswith(".") and a[1]:
            return f"{args[0]}{f}({', '.join(args[1:])}){ver}"
        return f"{f}({', '.join(args)}){ver}"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "lt":
        return f"{s(a[0])} < {s(a[1])}"
    if op == "eq":
        return f"{s(a[0])} == {s(a[1])}"
    if op == "isnone":
        return f"{s(a[0])} is None"
    if op == "truthy":
        return f"bool({s(a[0])})"
    if op == "nonempty":
        return f"nonempty({s(a[0])})"
    if op == "fmt":
        return "f'" + "".join(cval(x) if is_const(x) else "{" + s(x) + "}" for x in a) + "'"
    if op == "fdiv":
        return f"({s(a[0])} // {s(a[1])})"
    if op in ("list", "tuple"):
        return ("[" if op == "list" else "(") + ", ".join(s(x) for x in a) + ("]" if op == "list" else ")")
    return f"{op}(" + ", ".join(s(x) for x in a) + ")"
