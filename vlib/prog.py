"""Source model of the analysed repository: modules, names, classes.

Everything is read from the current text of /repo with `ast`; nothing is imported.
"""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PYROOT = "src/python"
OVERLAY = {}  # development only: path -> text analysed instead of the file


class AnchorError(Exception):
    """A public construct the property is about is not in the tree any more."""


class Class:
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.attrs = {}
        self.annots = {}
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # a later definition wins, except property setters
                if st.name in self.methods and any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in st.decorator_list
                ):
                    continue
                self.methods[st.name] = Func(module, st, f"{qual}.{st.name}", self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.annots[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Class(module, st, f"{qual}.{st.name}")

    @property
    def decorators(self):
        return [deco_name(d) for d in self.node.decorator_list]

    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.module.resolve_expr(b)
            out.append(r)
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = set()
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, str):
                    out.add(b)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def find_annot(self, name):
        for c in self.mro():
            if name in c.annots:
                return c, c.annots[name]
        return None

    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum") for b in self.ext_bases())

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.qual}>"


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
    return ".".join(reversed(parts))


class Func:
    def __init__(self, module, node, qual, cls=None):
        self.module = module
        self.node = node
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")

    @property
    def decorators(self):
        return [deco_name(d) for d in getattr(self.node, "decorator_list", [])]

    def is_generator(self):
        g = getattr(self, "_gen", None)
        if g is None:
            g = self._gen = (not isinstance(self.node, ast.Lambda)) and has_yield(self.node)
        return g

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<func {self.qual}>"


def has_yield(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def names_bound(x):
    if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
        return {x.id}
    if isinstance(x, ast.arg):
        return {x.arg}
    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ExceptHandler)):
        return {x.name}
    if isinstance(x, ast.alias):
        return {(x.asname or x.name).split(".")[0]}
    if isinstance(x, (ast.MatchAs, ast.MatchStar)):
        return {x.name}
    if isinstance(x, ast.MatchMapping):
        return {x.rest}
    return set()


class Module:
    def __init__(self, prog, name, path, is_pkg, text=None):
        self.prog = prog
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        if text is None:
            text = OVERLAY.get(path)
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        self.text = text
        self.tree = ast.parse(text)
        self.imports = {}
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.stars = []
        self._scan(self.tree.body)

    @property
    def rel(self):
        try:
            return os.path.relpath(self.path, self.prog.repo)
        except ValueError:
            return self.path

    def may_bind(self, n, fn):
        """Whether a name can be bound at module level, in an enclosing function, or in the function itself."""
        if not hasattr(self, "_bound"):
            inner = set()
            for f in ast.walk(self.tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(f) not in inner:
                    inner |= {id(x) for x in ast.walk(f)} - {id(f)}
            self._bound = set()
            for x in ast.walk(self.tree):
                if isinstance(x, ast.Global):
                    self._bound |= set(x.names)
                elif id(x) not in inner:
                    self._bound |= names_bound(x)
            self._funcs = [f for f in ast.walk(self.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]
        if n in self._bound or "*" in self._bound:
            return True
        return any(n in names_bound(y) for f in self._funcs if any(x is fn for x in ast.walk(f)) for y in ast.walk(f)) or not any(f is fn for f in self._funcs)

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self._from_base(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                        continue
                    self.imports[a.asname or a.name] = base + "." + a.name if base else a.name
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(self, st, f"{self.name}.{st.name}")
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st, f"{self.name}.{st.name}")
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for n, v in zip(t.elts, st.value.elts):
                            if isinstance(n, ast.Name):
                                self.assigns[n.id] = v
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(st, "orelse", []))

    def _from_base(self, st):
        if st.level == 0:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (st.level - 1)]
        if st.module:
            parts.append(st.module)
        return ".".join(parts)

    def lookup(self, name):
        """Func | Class | ('const', expr, module) | dotted external str | Module | None"""
        if name in self.funcs:
            return self.funcs[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.assigns:
            return ("const", self.assigns[name], self)
        if name in self.imports:
            return self.prog.resolve_dotted(self.imports[name])
        if not name.startswith("_"):
            for base in reversed(self.stars):
                m = self.prog.module(base) if base.split(".")[0] == "deepgnn" else None
                r = m.lookup(name) if m is not None and m is not self else None
                if r is not None:
                    return r
        return None

    def resolve_expr(self, e):
        """Resolve Name/Attribute chain to a program entity, else dotted string."""
        if isinstance(e, ast.Name):
            r = self.lookup(e.id)
            return r if r is not None else e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            return self.prog.member(b, e.attr)
        return None


class Prog:
    def __init__(self, repo=None, pyroot=PYROOT):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, pyroot)
        self.modules = {}
        self.extra = {}

    def add_source(self, name, text, path="<spec>"):
        m = Module(self, name, path, False, text)
        self.modules[name] = m
        return m

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(self.root, *name.split("."))
        m = None
        if os.path.isfile(p + ".py"):
            m = Module(self, name, p + ".py", False)
        elif os.path.isfile(os.path.join(p, "__init__.py")):
            m = Module(self, name, os.path.join(p, "__init__.py"), True)
        elif os.path.isdir(p) and name.startswith("deepgnn"):
            m = Module(self, name, os.path.join(p, "__init__.py"), True, "")
        self.modules[name] = m
        return m

    def resolve_dotted(self, dotted, _d=0):
        if _d > 12:
            return dotted
        m = self.module(dotted) if dotted.split(".")[0] == "deepgnn" or dotted in self.modules else None
        if m is not None:
            return m
        if "." in dotted:
            base, last = dotted.rsplit(".", 1)
            b = self.resolve_dotted(base, _d + 1)
            if not isinstance(b, str):
                r = self.member(b, last)
                if r is not None:
                    return r
        return dotted

    def member(self, b, name):
        if isinstance(b, Module):
            r = b.lookup(name)
            if r is not None:
                return r
            sub = self.module(b.name + "." + name) if b.is_pkg else None
            if sub is not None:
                return sub
            return b.name + "." + name
        if isinstance(b, Class):
            if name in b.inner:
                return b.inner[name]
            f = b.find(name)
            if f is not None:
                return f
            return ("classattr", b, name)
        if isinstance(b, str):
            return self.resolve_dotted(b + "." + name) if b.split(".")[0] == "deepgnn" else b + "." + name
        return None

    def need_class(self, module, name):
        m = self.module(module)
        if m is None:
            raise AnchorError(f"module {module} is not in the tree")
        c = m.lookup(name)
        if not isinstance(c, Class):
            raise AnchorError(f"class {module}.{name} is not in the tree")
        return c

    def need_func(self, module, name):
        m = self.module(module)
        if m is None:
            raise AnchorError(f"module {module} is not in the tree")
        if "." in name:
            cn, fn = name.split(".")
            c = self.need_class(module, cn)
            f = c.find(fn)
        else:
            f = m.lookup(name)
        if not isinstance(f, Func):
            raise AnchorError(f"function {module}.{name} is not in the tree")
        return f

    def all_modules(self, prefix="deepgnn", tests=False):
        base = os.path.join(self.root, *prefix.split("."))
        out = []
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                if not tests and (f.startswith("test_") or f.endswith("_test.py") or "/tests" in d or f == "conftest.py"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                try:
                    m = self.module(rel)
                except SyntaxError:
                    m = None
                if m is not None:
                    out.append(m)
        return out

    def subclasses(self, cls, prefix="deepgnn"):
        out = []
        for m in self.all_modules(prefix):
            for c in m.classes.values():
                if c is not cls and cls in c.mro():
                    out.append(c)
        return out
