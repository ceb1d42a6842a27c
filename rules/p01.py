"""Index/offset integrity of the partition files."""
from .common import *

W = SN + ".converter.writers"
DRV = '''
import ctypes
import os
import struct
from deepgnn.graph_engine.snark.converter.writers import NodeWriter, EdgeWriter, convert_features


def nodes(folder, suffix, watermark, recs):
    w = NodeWriter(folder, suffix, watermark)
    for r in recs:
        w.add(r.id, r.type, r.features, r.created, r.removed)
    w.close()


def nodes_spec(folder, suffix, watermark, recs):
    nm = open(os.path.join(folder, f"node_{suffix}_0.map"), "wb")
    ni = open(os.path.join(folder, f"node_{suffix}_0.index"), "wb")
    nfi = open(os.path.join(folder, f"node_features_{suffix}_0.index"), "wb")
    nfd = open(os.path.join(folder, f"node_features_{suffix}_0.data"), "wb")
    pos = 0
    n = 0
    for i, r in enumerate(recs):
        nm.write(struct.pack("=QQi", r.id, i, r.type))
        ni.write(struct.pack("=Q", n))
        for k in convert_features(r.features, r.created, r.removed):
            nfi.write(struct.pack("=Q", pos))
            n += 1
            if k is not None:
                pos += nfd.write(k)
    ni.write(struct.pack("=Q", n))
    nfi.write(struct.pack("=Q", pos))


def edges(folder, suffix, watermark, nodes):
    w = EdgeWriter(folder, suffix, watermark)
    for n in nodes:
        w.add_node()
        for e in n.edges:
            w.add(e.dst, e.type, e.weight, e.features, e.created, e.removed)
    w.close()


def edges_spec(folder, suffix, watermark, nodes):
    nbi = open(os.path.join(folder, f"neighbors_{suffix}_0.index"), "wb")
    ei = open(os.path.join(folder, f"edge_{suffix}_0.index"), "wb")
    efi = open(os.path.join(folder, f"edge_features_{suffix}_0.index"), "wb")
    efd = open(os.path.join(folder, f"edge_features_{suffix}_0.data"), "wb")
    eti = None
    if watermark is not None:
        eti = open(os.path.join(folder, f"edge_{suffix}_0.timestamp"), "wb")
        eti.write(struct.pack("=Q", watermark))
    pos = 0
    feats = 0
    cnt = 0
    for n in nodes:
        nbi.write(struct.pack("=Q", cnt))
        for e in n.edges:
            ei.write(struct.pack("=QQif", e.dst, feats, e.type, e.weight))
            cnt += 1
            for k in convert_features(e.features, e.created, e.removed):
                efi.write(struct.pack("=Q", pos))
                feats += 1
                if k is not None:
                    pos += efd.write(k)
            if watermark is not None:
                eti.write(struct.pack("=qq", e.created, e.removed))
    nbi.write(struct.pack("=Q", cnt))
    ei.write(struct.pack("=QQif", 0, feats, 0, -1))
    efi.write(struct.pack("=Q", pos))
'''


def run(c):
    c.rule("index", "complete contents of each partition file, for every sequence of additions")
    m = source(c, DRV)
    nw = c.prog.need_class(W, "NodeWriter")
    ew = c.prog.need_class(W, "EdgeWriter")
    hooks = {"convert_features": h_convert}
    for drv, spec, cls in (("nodes", "nodes_spec", nw), ("edges", "edges_spec", ew)):
        c.clause("index", cls.name, written, m, drv, spec, cls, hooks)
    c.floor("index", 9)


def written(c, m, drv, spec, cls, hooks):
    a = run_driver(c, m, drv, hooks=hooks)
    b = run_driver(c, m, spec, hooks=hooks)
    compare_outputs(c, "index", cls.name, a, b, floc(cls.find("add")))
