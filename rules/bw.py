"""The binary writer as a whole: one driver, one description of what the files must contain."""
from .common import *

W = SN + ".converter.writers"

DRV = '''
import os
import struct
from deepgnn.graph_engine.snark.converter.writers import BinaryWriter, NodeAliasWriter, EdgeAliasWriter, convert_features


def code(folder, suffix, skip_node, skip_edge, watermark, records):
    w = BinaryWriter(folder, suffix, skip_node, skip_edge, watermark)
    for data in records:
        w.add(data)
    w.close()
    return {
        "node_count": w.node_count,
        "edge_count": w.edge_count,
        "node_type_num": w.node_type_num,
        "edge_type_num": w.edge_type_num,
        "node_feature_count": w.node_feature_count,
        "edge_feature_count": w.edge_feature_count,
        "node_weight": w.node_weight,
        "node_type_count": w.node_type_count,
        "edge_weight": w.edge_weight,
        "edge_type_count": w.edge_type_count,
    }


def spec(folder, suffix, skip_node, skip_edge, watermark, records):
    nm = open(os.path.join(folder, f"node_{suffix}_0.map"), "wb")
    ni = open(os.path.join(folder, f"node_{suffix}_0.index"), "wb")
    nfi = open(os.path.join(folder, f"node_features_{suffix}_0.index"), "wb")
    nfd = open(os.path.join(folder, f"node_features_{suffix}_0.data"), "wb")
    nbi = open(os.path.join(folder, f"neighbors_{suffix}_0.index"), "wb")
    ei = open(os.path.join(folder, f"edge_{suffix}_0.index"), "wb")
    efi = open(os.path.join(folder, f"edge_features_{suffix}_0.index"), "wb")
    efd = open(os.path.join(folder, f"edge_features_{suffix}_0.data"), "wb")
    eti = None
    if watermark is not None:
        eti = open(os.path.join(folder, f"edge_{suffix}_0.timestamp"), "wb")
        eti.write(struct.pack("=Q", watermark))
    if not skip_node:
        na = NodeAliasWriter(folder, suffix)
    if not skip_edge:
        ea = EdgeAliasWriter(folder, suffix)
    listed, nfeats, npos, edges, efeats, epos = 0, 0, 0, 0, 0, 0
    prev, prev_type = None, None
    nodes, ntypes, etypes, nfc, efc = 0, 0, 0, 0, 0
    nw, nc, ew, ec = [], [], [], []
    for data in records:
        begin, end = 0, -1
        for src, dst, typ, weight, created, removed, features in data:
            if dst == -1:
                begin = created or 0
                end = -1 if removed is None else removed
                nm.write(struct.pack("=QQi", src, listed, typ))
                ni.write(struct.pack("=Q", nfeats))
                nbi.write(struct.pack("=Q", edges))
                listed += 1
                feats = convert_features(features)
                for k in feats:
                    nfi.write(struct.pack("=Q", npos))
                    nfeats += 1
                    if k is not None:
                        npos += nfd.write(k)
                if not skip_node:
                    for _ in range(typ + 1 - ntypes):
                        na.add_type()
                    na.add(src, typ, weight)
                nodes += 1
                ntypes = max(ntypes, typ + 1)
                nfc = max(nfc, len(feats))
                nw[typ] += weight
                nc[typ] += 1
                prev_type = None
            else:
                if src != prev:
                    nm.write(struct.pack("=QQi", src, listed, -1))
                    ni.write(struct.pack("=Q", nfeats))
                    nbi.write(struct.pack("=Q", edges))
                    listed += 1
                    prev_type = None
                assert prev_type is None or typ >= prev_type
                assert created is None or created >= begin
                assert removed is None or end == -1 or removed <= end
                ei.write(struct.pack("=QQif", dst, efeats, typ, weight))
                edges += 1
                feats = convert_features(features)
                for k in feats:
                    efi.write(struct.pack("=Q", epos))
                    efeats += 1
                    if k is not None:
                        epos += efd.write(k)
                if watermark is not None:
                    eti.write(struct.pack("=qq", begin if created is None else created, end if removed is None else removed))
                if not skip_edge:
                    for _ in range(typ + 1 - etypes):
                        ea.add_type()
                    ea.add(src, dst, typ, weight)
                etypes = max(etypes, typ + 1)
                efc = max(efc, len(feats))
                ew[typ] += weight
                ec[typ] += 1
                prev_type = typ
            prev = src
    ni.write(struct.pack("=Q", nfeats))
    nfi.write(struct.pack("=Q", npos))
    nbi.write(struct.pack("=Q", edges))
    ei.write(struct.pack("=QQif", 0, efeats, 0, -1))
    efi.write(struct.pack("=Q", epos))
    if not skip_node:
        na.close()
    if not skip_edge:
        ea.close()
    return {
        "node_count": nodes,
        "edge_count": edges,
        "node_type_num": ntypes,
        "edge_type_num": etypes,
        "node_feature_count": nfc,
        "edge_feature_count": efc,
        "node_weight": nw,
        "node_type_count": nc,
        "edge_weight": ew,
        "edge_type_count": ec,
    }
'''


def pair(c):
    m = source(c, DRV)
    hooks = {"convert_features": h_convert}
    for cls in ("NodeAliasWriter", "EdgeAliasWriter"):
        k = c.prog.need_class(W, cls)
        for n, f in k.methods.items():
            hooks[f.qual] = logged(cls, n, f) if n in ("__init__", "add", "close") else logged(cls + " types", n, f) if n == "add_type" else h_none
    a = run_driver(c, m, "code", hooks=hooks)
    b = run_driver(c, m, "spec", hooks=hooks)
    return a, b
