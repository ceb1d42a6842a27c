"""Every decoded record reaches all of its files exactly once and in order."""
from . import bw
from .common import *

FILES = ("map", "index", "data")


def run(c):
    c.rule("files", "contents of each partition file as a function of the decoded records")
    c.rule("sampler", "entries handed to the alias tables, gated only by the two skip options")
    c.rule("reject", "condition under which a record sequence is refused")
    w = c.prog.need_class(bw.W, "BinaryWriter")
    loc = floc(w.find("add"))
    c.clause("files", "BinaryWriter", written, loc)
    c.floor("files", 9)
    c.floor("sampler", 4)
    c.floor("reject", 1)


def written(c, loc):
    a, b = bw.pair(c)
    compare_outputs(c, "files", "BinaryWriter", a, b, loc)
    for n in ("NodeAliasWriter", "EdgeAliasWriter", "NodeAliasWriter types", "EdgeAliasWriter types"):
        c.equal("sampler", n, log_of(a, n), log_of(b, n), loc)
    c.equal("reject", "BinaryWriter.add", rejections(a), rejections(b), loc)
