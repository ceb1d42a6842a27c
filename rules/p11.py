"""Calls of the native library agree with its header, and a failure it reports is raised."""
from . import p12, p13
from .common import *
from .native import *


def flows(c):
    m, h, fns = p12.build(c)
    for n in p12.QUERIES:
        for sub in ("", "_plain"):
            if n + sub in fns:
                yield p12.flow(c, m, h, "local_" + n + sub), h
    for n in ("open_local", "open_remote", "close"):
        yield p12.opening(c, m, h, n), h
    yield p12.flow(c, m, h, "local_close_sampler"), h
    m, h = p13.build(c)
    for n in ("serve", "stop", "meta_at"):
        yield p13.serving(c, m, h, n), h


def run(c):
    c.prog.need_class(p12.CL, "MemoryGraph")
    c.clause("typed", "native functions", typed)
    c.floor("typed", 20)
    c.floor("checked", 20)
    c.rule("typed", "every native function called gets as many arguments as its prototype has, each wrapped or declared with the prototype's type")
    c.rule("checked", "every native function called has an error check installed at the time of the call")


def typed(c):
    wrong, open_, sites = {}, {}, {}
    for fl, h in flows(c):
        for n, w in fl.lib.sites.items():
            sites.setdefault(n, w)
        for n, what, w in fl.lib.wrong:
            wrong.setdefault(n, (what, w))
        for n, w in fl.lib.unchecked:
            open_.setdefault(n, w)
        for n, ts in fl.lib.types.items():
            for t in ts:
                if t is not None and "?" not in str(t) and t != [x for x, _ in h.funcs[n]]:
                    wrong.setdefault(n, (mk("mistyped", "declared " + str(t), str([x for x, _ in h.funcs[n]])), fl.lib.sites[n]))
    for n, w in sorted(sites.items()):
        x = wrong.get(n)
        if x is not None and x[0].op == "opaque":
            c.undecided("typed", n, "type not resolved: " + repr(x[0]), x[1])
            continue
        c.expect(x is None, "typed", n, f"argument or declaration does not fit the exported function: {x and x[0]!r}", x[1] if x else w)
        c.expect(n not in open_, "checked", n, "a failure reported by the library is not raised", open_.get(n, w))
