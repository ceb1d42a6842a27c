"""Ready made graphs: nodes and edges of their files, selection of nodes, partitions loaded."""
from .common import *

DATA = GE + ".data"
DU = DATA + ".data_util"
CI = DATA + ".citation"
PP = DATA + ".ppi"
DRV = '''
import os
import random
import numpy as np
from deepgnn.graph_engine.data.data_util import Dataset, download_file, get_edge_list_node, select_training_test_nodes, write_node_files
from deepgnn.graph_engine.data.citation import CitationGraph, parse_index_file, random_split, sample_mask
from collections import defaultdict
import json
from sklearn.preprocessing import StandardScaler
from deepgnn.graph_engine.data.ppi import PPI
from deepgnn.graph_engine.data.reddit import Reddit
from deepgnn.graph_engine.data.cora import CoraFull
from deepgnn.graph_engine.data.citeseer import CiteseerFull


def told(what, *args):
    pass


def given(what):
    pass


# ---- nodes as lines of text
def line_spec(node, kind, first, second, near, other):
    out = f"{node},-1,{kind},1.0,float32,{len(first)},{','.join([str(x) for x in first])},float32,{second}\\n"
    for nb in sorted(near):
        out += f"{node},0,{nb},1.0\\n"
    for nb in sorted(other):
        out += f"{node},1,{nb},1.0\\n"
    return out


def node_line(node: "count", kind_name: str, values: "list", label: "count", near: "list", other: "list"):
    if type(values) is list and type(values[0]) == float and type(label) is int:
        return get_edge_list_node(node, kind_name, values, label, near, other)


def node_line_spec(node: "count", kind_name: str, values: "list", label: "count", near: "list", other: "list"):
    if type(values) is list and type(values[0]) == float and type(label) is int:
        return line_spec(node, 0 if kind_name == "train" else 1, values, f"1,{label}", near, other)


def citation_line(node: "count", kind_name: str, values: "list", label: "count", near: "list"):
    if type(values) is list and type(values[0]) == float and type(label) is int:
        return CitationGraph.to_edge_list_node(CitationGraph, node, kind_name, values, label, near)


def citation_line_spec(node: "count", kind_name: str, values: "list", label: "count", near: "list"):
    if type(values) is list and type(values[0]) == float and type(label) is int:
        return line_spec(node, {"train": 0, "val": 1, "test": 2, "other": 3}[kind_name], values, f"1,{label}", near, [])


# ---- selection
def selected(ids: "list", ratio, mixed: bool):
    return select_training_test_nodes(ids, ratio, mixed)


def selected_spec(ids: "list", ratio, mixed: bool):
    told("seed", 0)
    n = int(len(ids) * ratio)
    kinds = ["train"] * n + ["test"] * (len(ids) - n)
    if mixed:
        random.shuffle(kinds)
    assert len(ids) == len(kinds)
    return {i: k for i, k in zip(sorted(ids), kinds)}


def split_files(kinds):
    write_node_files(kinds, "train place", "test place")


def split_files_spec(kinds):
    with open("train place", "w") as train, open("test place", "w") as test:
        for n, k in kinds.items():
            if k == "train":
                train.write(f"{n}\\n")
            else:
                test.write(f"{n}\\n")


def mask(places, size: "count"):
    return sample_mask(places, size)


def mask_spec(places, size: "count"):
    out = np.zeros(size)
    out[places] = 1
    return np.array(out, dtype=np.bool8)


def split(labels, classes: "count", each: "count", val: "count", test: "count"):
    return random_split(labels, classes, each, val, test)


def split_spec(labels, classes: "count", each: "count", val: "count", test: "count"):
    train = sample_mask(np.concatenate([np.random.permutation((labels == k).nonzero()[0])[:each] for k in range(classes)]), labels.shape[0])
    rest = np.random.permutation((~train).nonzero()[0])
    return train, sample_mask(rest[0:val], labels.shape[0]), sample_mask(rest[val:val + test], labels.shape[0])


def kinds(train, val, test):
    return CitationGraph.get_node_types(CitationGraph, train, val, test)


def kinds_spec(train, val, test):
    return ["train" if train[k] else "val" if val[k] else "test" if test[k] else "other" for k in range(train.shape[0])]


def numbers(name: str):
    return parse_index_file(name)


def numbers_spec(name: str):
    return [int(x.strip()) for x in open(name)]


# ---- a graph made from nodes and edges
class Made(Dataset):
    def _load_raw_graph(self, place, ratio, mixed):
        told("loaded", place, ratio, mixed)
        return given("nodes of the graph"), given("kinds of the graph"), given("near of the graph"), given("other of the graph")


def made_file(place: str, name: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" not in place and place != "local":
        Made(place, name, 5, 6, 7, ratio, mixed, out, parts)


def made_file_spec(place: str, name: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" not in place and place != "local":
        made(place, ratio, mixed, out, parts)


def made_net(place: str, name: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" in place and place != "local":
        Made(place, name, 5, 6, 7, ratio, mixed, out, parts)


def made_net_spec(place: str, name: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" in place and place != "local":
        told("download", place, ".", name + ".zip")
        made(os.path.join(".", name + ".zip"), ratio, mixed, out, parts)


def made(place, ratio, mixed, out, parts):
    told("unpacked", place, out)
    told("loaded", out, ratio, mixed)
    text = "".join([get_edge_list_node(n, given("kinds of the graph")[n], x[0], x[1], given("near of the graph")[n], given("other of the graph")[n]) for n, x in given("nodes of the graph").items()])
    told("converted", os.path.join(out, "graph.csv"), text, parts, out)
    write_node_files(given("kinds of the graph"), os.path.join(out, "train.nodes"), os.path.join(out, "test.nodes"))
    told("opened", out, [(out, k) for k in range(parts)] if parts != 0 else [(out, 0)])


def kinds_of_nodes():
    return [given("kind of a node")[k] for k in range(len(given("nodes of the graph")))]


class Proteins(PPI):
    def _load_raw_graph(self, place):
        told("loaded", place)
        return given("nodes of the graph"), kinds_of_nodes(), given("near of the graph"), given("other of the graph"), given("values of the graph"), given("labels of the graph")


def proteins(out: str, parts: "count"):
    Proteins(out, parts)


def proteins_spec(out: str, parts: "count"):
    made_of_posts("https://snap.stanford.edu/graphsage/ppi.zip", "ppi", out, parts)


def made_of_posts(url, name, out, parts):
    raw = os.path.join(out, "raw")
    told("download", url, raw, name + ".zip")
    told("unpacked", os.path.join(raw, name + ".zip"), raw)
    told("loaded", os.path.join(raw, name))
    text = ""
    for k in range(len(given("nodes of the graph"))):
        n = given("nodes of the graph")[k]
        values = given("values of the graph")[n].reshape(-1).tolist()
        label = given("labels of the graph")[n]
        text += line_spec(n, kinds_of_nodes()[k], label, f"{len(values)},{','.join([str(x) for x in values])}", given("near of the graph")[n], given("other of the graph")[n]) + "\\n"
    with open(os.path.join(out, "train.nodes"), "w") as train, open(os.path.join(out, "val.nodes"), "w") as val, open(os.path.join(out, "test.nodes"), "w") as test:
        for n, k in zip(given("nodes of the graph"), kinds_of_nodes()):
            if k == 0:
                train.write(f"{n}\\n")
            elif k == 1:
                val.write(f"{n}\\n")
            elif k == 2:
                test.write(f"{n}\\n")
    told("converted", os.path.join(out, "graph.csv"), text, parts, out)
    told("opened", out, [(out, k) for k in range(parts)] if parts != 0 else [(out, 0)])


def fetched(url: str, folder: str, name: str):
    download_file(url, folder, name)


def fetched_spec(url: str, folder: str, name: str):
    if not os.path.exists(folder):
        told("folder", folder)
    if not os.path.exists(os.path.join(folder, name)):
        told("download", url, os.path.join(folder, name))




# ---- reading raw data
class Papers(CoraFull):
    def __init__(self):
        self.FEATURE_DIM = given("width")


class Documents(CiteseerFull):
    def __init__(self):
        self.FEATURE_DIM = given("width")


def cora(place: str, ratio, mixed: bool):
    return Papers()._load_raw_graph(place, ratio, mixed)


def cora_spec(place: str, ratio, mixed: bool):
    return raw(os.path.join(place, "cora", "cora.content"), os.path.join(place, "cora", "cora.cites"), ratio, mixed, False)


def citeseer(place: str, ratio, mixed: bool):
    return Documents()._load_raw_graph(place, ratio, mixed)


def citeseer_spec(place: str, ratio, mixed: bool):
    return raw(os.path.join(place, "citeseer-doc-classification", "citeseer.content"), os.path.join(place, "citeseer-doc-classification", "citeseer.cites"), ratio, mixed, True)


def raw(node_file, edge_file, ratio, mixed, partly):
    width = given("width")
    ids = {}
    labels = {}
    nodes = {}
    n = 1
    with open(node_file) as f:
        for line in f:
            cols = line.strip().split()
            assert len(cols) == width + 2
            assert cols[0] not in ids
            ids[cols[0]] = n
            if cols[-1] not in labels:
                labels[cols[-1]] = len(labels)
            nodes[n] = ([float(x) for x in cols[1:1 + width]], labels[cols[-1]])
            n += 1
    kinds = select_training_test_nodes(list(range(1, n)), ratio, mixed)
    near = defaultdict(set)
    other = defaultdict(set)
    with open(edge_file) as f:
        for line in f:
            cols = line.strip().split()
            if not partly or cols[0] in ids and cols[1] in ids:
                a = ids[cols[0]]
                b = ids[cols[1]]
                if kinds[a] == "train" and kinds[b] == "train":
                    near[a].add(b)
                    near[b].add(a)
                else:
                    other[a].add(b)
                    other[b].add(a)
    return nodes, kinds, near, other


def ppi(place: str):
    return PPI._load_raw_graph(PPI, place)


def halves(nodes, ids, links, size, train):
    mask = np.zeros(size, np.bool8)
    mask[train] = True
    near = {n: [] for n in ids}
    other = {n: [] for n in ids}
    for a, b in links:
        if mask[a] and mask[b]:
            near[a].append(b)
            if a != b:
                near[b].append(a)
        else:
            other[a].append(b)
            if a != b:
                other[b].append(a)
    return near, other


def ppi_spec(place: str):
    ids = {int(k): v for k, v in json.load(open(os.path.join(place, "ppi-id_map.json"))).items()}
    g = json.load(open(os.path.join(place, "ppi-G.json")))
    nodes = [ids[n["id"]] for n in g["nodes"]]
    kinds = [2 if n["test"] else 1 if n["val"] else 0 for n in g["nodes"]]
    train = [ids[n["id"]] for n in g["nodes"] if not n["test"] and not n["val"]]
    near, other = halves(nodes, nodes, [(ids[e["source"]], ids[e["target"]]) for e in g["links"]], len(nodes), train)
    labels = {ids[int(k)]: v for k, v in json.load(open(os.path.join(place, "ppi-class_map.json"))).items()}
    values = np.load(os.path.join(place, "ppi-feats.npy"))
    scaler = StandardScaler()
    scaler.fit(values[train])
    return nodes, kinds, near, other, scaler.transform(values), labels


class Posts(Reddit):
    def __init__(self):
        self._edge_downsample_pct = given("share")


def reddit(place: str):
    return Posts()._load_raw_graph(place)


def reddit_spec(place: str):
    ids = {k: v for k, v in json.load(open(os.path.join(place, "reddit-id_map.json"))).items()}
    g = json.load(open(os.path.join(place, "reddit-G.json")))
    nodes = [ids[n["id"]] for n in g["nodes"]]
    kinds = [2 if n["test"] else 1 if n["val"] else 0 for n in g["nodes"]]
    train = [ids[n["id"]] for n in g["nodes"] if not n["test"] and not n["val"]]
    taken = np.random.uniform(size=len(g["links"])) < given("share")
    near, other = halves(nodes, ids.values(), [(e["source"], e["target"]) for e in np.array(g["links"])[taken]], len(ids), train)
    labels = {}
    for k, v in json.load(open(os.path.join(place, "reddit-class_map.json"))).items():
        row = [0] * 50
        row[v] = 1
        labels[ids[k]] = row
    values = np.load(os.path.join(place, "reddit-feats.npy"))
    scaler = StandardScaler()
    scaler.fit(values[train])
    return nodes, kinds, near, other, scaler.transform(values), labels


class MadeCora(CoraFull):
    def _load_raw_graph(self, place, ratio, mixed):
        told("loaded", place, ratio, mixed)
        return given("nodes of the graph"), given("kinds of the graph"), given("near of the graph"), given("other of the graph")


def cora_made(place: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" not in place and place != "local":
        MadeCora(out, ratio, mixed, place, parts)


def cora_made_spec(place: str, ratio, mixed: bool, out: str, parts: "count"):
    if "http" not in place and place != "local":
        made(place, ratio, mixed, out, parts)


class MadeCiteseer(CiteseerFull):
    def _load_raw_graph(self, place, ratio, mixed):
        told("loaded", place, ratio, mixed)
        return given("nodes of the graph"), given("kinds of the graph"), given("near of the graph"), given("other of the graph")


def citeseer_made(place: str, ratio, mixed: bool, out: str):
    if "http" not in place and place != "local":
        MadeCiteseer(out, ratio, mixed, place)


def citeseer_made_spec(place: str, ratio, mixed: bool, out: str):
    if "http" not in place and place != "local":
        made(place, ratio, mixed, out, 1)


class MadePosts(Reddit):
    def _load_raw_graph(self, place):
        told("loaded", place)
        return given("nodes of the graph"), kinds_of_nodes(), given("near of the graph"), given("other of the graph"), given("values of the graph"), given("labels of the graph")


def posts(out: str, share, parts: "count", start: "count"):
    return MadePosts(out, share, parts, start)._edge_downsample_pct


def posts_spec(out: str, share, parts: "count", start: "count"):
    told("seed", start)
    made_of_posts("https://snap.stanford.edu/graphsage/reddit.zip", "reddit", out, parts)
    return share
'''
PLAIN = {
    "node_line": (DU, "get_edge_list_node"), "citation_line": (CI, "CitationGraph.to_edge_list_node"), "selected": (DU, "select_training_test_nodes"),
    "mask": (CI, "sample_mask"), "split": (CI, "random_split"), "kinds": (CI, "CitationGraph.get_node_types"), "numbers": (CI, "parse_index_file"),
}


def anchor(c, mod, name):
    if "." in name:
        cls, f = name.split(".")
        return floc(c.prog.need_class(mod, cls).methods[f])
    return floc(c.prog.need_func(mod, name))


def told(fl, f, b, args, kw, node):
    put_log(fl, "told", cval(fl.fz(args[0])), *(fl.fz(x) for x in args[1:]))
    return NONE


def hooks():
    def seed(fl, f, b, args, kw, node):
        put_log(fl, "told", "seed", fl.fz(args[0]))
        return NONE

    def table(fl, f, b, args, kw, node):
        fl.ntables = getattr(fl, "ntables", 0) + 1
        return mk("sym", f"table {fl.ntables}")

    def add(fl, b, args, kw, node):
        b = fl.fz(b)
        if not contains(b, lambda x: x.op == "sym" and str(x.args[0]).startswith("table ")):
            return None
        put_log(fl, "edges", "add", b, fl.fz(args[0]))
        return NONE

    def scaler(fl, f, b, args, kw, node):
        return mk("sym", "scaler")

    def fit(fl, b, args, kw, node):
        if b.op != "sym" or b.args[0] != "scaler":
            return None
        fl.setv(("h", b, "fitted"), fl.fz(args[0]))
        return b

    def scale(fl, b, args, kw, node):
        if b.op != "sym" or b.args[0] != "scaler":
            return None
        return mk("call", "scaled", (fl.getv(("h", b, "fitted")), fl.fz(args[0])), (), NONE)

    return {"sklearn.preprocessing.StandardScaler": scaler, ".fit": fit, ".transform": scale, "collections.defaultdict": table, ".add": add, "told": told, "given": lambda fl, f, b, args, kw, node: mk("sym", cval(args[0])), "random.seed": seed, "np.random.seed": seed}


def graph_hooks():
    """Graphs are made from files: the file given to the converter is what was written and closed before."""

    def text_at(fl, path):
        for e in fl.events:
            if e.kind == "call" and e.name == "open" and e.res is not None and e.args[0] is path and e.args[1] is const("w"):
                if constrain(fl.S.vals.get(("h", e.res, "$shut"), FALSE), e.guard) is FALSE:
                    return mk("unclosed")
                return texts(joined(fl.S.vals.get(("h", e.res, "$out"), mk("list"))))
        return mk("unwritten")

    made = {}

    def converter(fl, cls, b, args, kw, node):
        o = mk("call", "converter", (const(len(made)),), (), NONE)
        made[o.dig] = [fl.fz(argument(None, args, kw, i, n)) for i, n in ((0, "graph_path"), (1, "output_dir"), (2, "decoder"), (3, "partition_count"))]
        return o

    def convert(fl, b, args, kw, node):
        at = made.get(b.dig)
        if at is None:
            return None
        put_log(fl, "told", "converted", at[0], text_at(fl, at[0]), at[3], at[1])
        return NONE

    def opened(fl, cls, b, args, kw, node):
        put_log(fl, "told", "opened", fl.fz(argument(None, args, kw, 0, "path")), fl.fz(argument(None, args, kw, 1, "partitions")))
        return mk("sym", "graph in memory")

    def extract(fl, b, args, kw, node):
        t = fl.fz(b)
        put_log(fl, "told", "unpacked", t.args[1][0] if t.op == "call" and t.args[1] else t, fl.fz(args[0] if args else kw["path"]))
        return NONE

    def download(fl, f, b, args, kw, node):
        put_log(fl, "told", "download", *(fl.fz(argument(None, args, kw, i, n)) for i, n in enumerate(("url", "data_dir", "name"))))
        return NONE

    quiet = lambda fl, f, b, args, kw, node: NONE
    h = hooks()
    h.update({"new:MultiWorkersConverter": converter, ".convert": convert, "new:MemoryGraph": opened, ".extractall": extract, "download_file": download, "logging.info": quiet, "_log_graph_statistic": quiet})
    return h


def fetch_hooks():
    h = hooks()

    def folder(fl, f, b, args, kw, node):
        make = lambda: put_log(fl, "told", "folder", fl.fz(args[0]))
        if fl.fz(kw.get("exist_ok", FALSE)) is TRUE:
            fl.branch(fl.truth(fl.call_ext("os.path.exists", [args[0]], {}, node)), lambda: None, make)
        else:
            make()
        return NONE

    def get(fl, f, b, args, kw, node):
        put_log(fl, "told", "download", fl.fz(args[0]), fl.fz(args[1]))
        return NONE

    h.update({"os.makedirs": folder, "urllib.request.urlretrieve": get, "logging.info": lambda fl, f, b, args, kw, node: NONE})
    return h


def plain(c, name):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    loc = anchor(c, *PLAIN[name])
    fine = not_(rejections(b))
    c.equal("parts", name, ite(fine, rows(texts(a.ret)), NONE), ite(fine, rows(texts(b.ret)), NONE), loc)
    c.equal("parts", name + ", told", log_of(a, "told"), log_of(b, "told"), loc)


def papers(c, name, where):
    """Raw citation graphs; neighbours are told apart by the place of their table in the result."""
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    loc = anchor(c, *where)

    def edges(fl):
        t = log_of(fl, "edges")
        if fl.ret.op == "tuple" and len(fl.ret.args) == 4:
            names = {fl.ret.args[2].dig: mk("sym", "within training"), fl.ret.args[3].dig: mk("sym", "all others")}
            t = rewrite(t, lambda x: names.get(x.dig, x))

        def unordered(x):
            if x.op == "cat" and any(y.op == "ite" for y in x.args):
                return rewrite(settle(lift(lambda *ps: cat(list(ps)), *x.args)), unordered)
            if x.op == "list" and x.args and all(y.op == "entry" for y in x.args):
                return mk("list", *sorted(x.args, key=lambda y: y.dig))
            return x

        return rewrite(rows(t), unordered)

    fine = not_(rejections(b))
    for i, what in ((0, "nodes"), (1, "kinds")):
        c.equal("papers", f"{name} {what}", ite(fine, seq_idx(a.ret, const(i)), NONE), ite(fine, seq_idx(b.ret, const(i)), NONE), loc)
    c.equal("papers", name + " edges", ite(fine, edges(a), NONE), ite(fine, edges(b), NONE), loc)


def posts(c, name, where):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    loc = anchor(c, *where)
    got, want = a.ret, b.ret
    for i, what in enumerate(("nodes", "kinds", "edges within training", "other edges", "values", "labels")):
        x, y = seq_idx(got, const(i)), seq_idx(want, const(i))
        if x.op == "fold" and y.op == "fold":
            # two walks over the same rows that start alike are the same when one step of them is
            c.equal("papers", f"{name} {what}, walk", mk("tuple", x.args[0], x.args[3]), mk("tuple", y.args[0], y.args[3]), loc)
            x, y = step(x), step(y)
        c.equal("papers", f"{name} {what}", x, y, loc, known=("scaled",))


def rows(t):
    """Rows of a table and first parts of a line, however they are counted or cut."""

    def f(x):
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and x.args[1] is ZERO:
            return seq_len(x.args[0].args[0])
        if x.op == "idx" and is_num_const(x.args[1]) and x.args[0].op == "idx" and x.args[0].args[1].op == "slice":
            first, end, by = x.args[0].args[1].args
            if first in (NONE, ZERO) and by in (NONE, ONE) and is_num_const(end) and 0 <= cval(x.args[1]) < cval(end):
                return seq_idx(x.args[0].args[0], x.args[1])
        return x

    return rewrite(t, f)


def step(t):
    """One step of a walk, from what was collected so far; entries of different keys come in any order."""
    D, h, body, init = t.args
    so = {bv(h).dig: mk("sym", "this edge"), mk("acc", h).dig: mk("sym", "collected")}

    def f(x):
        x = so.get(x.dig, x)
        if x.op == "upd" and x.args[0].op == "upd" and x.args[0].args[1].dig > x.args[1].dig:
            (first, k, v), k2, v2 = x.args[0].args, *x.args[1:]
            if not has(v2, x.args[0]):
                return mk("upd", mk("upd", first, k2, v2), k, v)
        return x

    return rewrite(settle(rewrite(body, f)), f)


def files(c, name, where):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=hooks()) for n in (name, name + "_spec"))
    compare_outputs(c, "files", name, a, b, anchor(c, *where))


def graphs(c, name, where, given):
    m = source(c, DRV)
    a, b = (run_driver(c, m, n, hooks=given()) for n in (name, name + "_spec"))
    loc = anchor(c, *where)
    c.equal("graphs", name + " returns", a.ret, b.ret, loc)
    c.equal("graphs", name, texts(log_of(a, "told")), texts(log_of(b, "told")), loc)
    co, so = ({norm_path(k): texts(joined(v)) for k, v in outputs(fl).items()} for fl in (a, b))
    for p in so:
        c.equal("graphs", name + " " + p, co.get(p, mk("absent")), so[p], loc)


def run(c):
    c.rule("parts", "lines of nodes, kinds of nodes and masks")
    for n in PLAIN:
        c.clause("parts", n, plain, n)
    c.rule("files", "files of nodes")
    c.clause("files", "split_files", files, "split_files", (DU, "write_node_files"))
    c.rule("papers", "nodes and edges read from raw data")
    c.clause("papers", "cora", papers, "cora", (DATA + ".cora", "CoraFull._load_raw_graph"))
    c.clause("papers", "citeseer", papers, "citeseer", (DATA + ".citeseer", "CiteseerFull._load_raw_graph"))
    c.clause("papers", "ppi", posts, "ppi", (PP, "PPI._load_raw_graph"))
    c.clause("papers", "reddit", posts, "reddit", (DATA + ".reddit", "Reddit._load_raw_graph"))
    c.rule("graphs", "graphs made from nodes and edges")
    c.clause("graphs", "made_file", graphs, "made_file", (DU, "Dataset.__init__"), graph_hooks)
    c.clause("graphs", "made_net", graphs, "made_net", (DU, "Dataset.__init__"), graph_hooks)
    c.clause("graphs", "proteins", graphs, "proteins", (PP, "PPI.__init__"), graph_hooks)
    c.clause("graphs", "cora_made", graphs, "cora_made", (DATA + ".cora", "CoraFull.__init__"), graph_hooks)
    c.clause("graphs", "citeseer_made", graphs, "citeseer_made", (DATA + ".citeseer", "CiteseerFull.__init__"), graph_hooks)
    c.clause("graphs", "posts", graphs, "posts", (DATA + ".reddit", "Reddit.__init__"), graph_hooks)
    c.clause("graphs", "fetched", graphs, "fetched", (DU, "download_file"), fetch_hooks)
    c.floor("parts", 14)
    c.floor("papers", 16)
    c.floor("graphs", 15)
