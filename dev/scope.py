"""Development aid: an edit of one function of a source file, for the planted changes in dev/variants."""
import ast, os

ROOT = "/repo/src/python/deepgnn"


def inside(path, qual, *pairs):
    """(text of the function, text of the function with each old replaced by its new), old found exactly once."""
    s = open(os.path.join(ROOT, path)).read()
    node = ast.parse(s)
    for part in qual.split("."):
        node = [x for x in node.body if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and x.name == part][-1]
    text = "".join(s.splitlines(True)[node.lineno - 1:node.end_lineno])
    new = text
    for a, b in pairs:
        if new.count(a) != 1:
            print("SCOPE", qual, "finds", new.count(a), "of", a[:60])
        new = new.replace(a, b)
    return text, new
