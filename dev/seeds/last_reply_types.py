PROPERTY = "P04"
NEEDS = "two partitions where the one that replies last has fewer edge types"
BREAKS = "the number of edge types saved in the metadata is that of the last partition to finish instead of the largest one"
EDITS = [("graph_engine/snark/dispatcher.py", '''            self.edge_type_num = max(self.edge_type_num, output["edge_type_count"])
            self.node_feature_count = max(
                self.node_feature_count, output["node_feature_count"]
            )
            self.edge_feature_count = max(
                self.edge_feature_count, output["edge_feature_count"]
            )
            self.partitions.append(output["partition"])

            assert flag == FLAG_WORKER_FINISHED_PROCESSING
        self.q_out.close()

        for p in self.partitions:
            real_node_type_num = len(p["node_type_count"])
            if real_node_type_num < self.node_type_num:
                p["node_type_count"].extend(
                    [0] * (self.node_type_num - real_node_type_num)
                )
                p["node_weight"].extend([0] * (self.node_type_num - real_node_type_num))
            real_edge_type_num = len(p["edge_type_count"])
            if real_edge_type_num < self.edge_type_num:
                p["edge_type_count"].extend(
                    [0] * (self.edge_type_num - real_edge_type_num)
                )
                p["edge_weight"].extend([0] * (self.edge_type_num - real_edge_type_num))

            fs, _ = get_fs(self.folder)
            if not self.skip_node_sampler:
                for tp in range(real_node_type_num, self.node_type_num):
                    with fs.open(
                        meta._get_element_alias_path(
                            _Element.NODE, self.folder, tp, p["id"]
                        ),
                        "wb",
                    ):
                        pass
            if not self.skip_edge_sampler:
                for tp in range(real_edge_type_num, self.edge_type_num):
                    with fs.open(
                        meta._get_element_alias_path(
                            _Element.EDGE, self.folder, tp, p["id"]
                        ),
                        "wb",
                    ):
                        pass

    def prop''', None)]
import re
_a = EDITS[0][1]
EDITS = [(EDITS[0][0], _a, _a.replace('self.edge_type_num = max(self.edge_type_num, output["edge_type_count"])', 'self.edge_type_num = output["edge_type_count"] or self.edge_type_num'))]
DEMO = '''
import tempfile, time
from deepgnn.graph_engine.snark.dispatcher import PipeDispatcher
from deepgnn.graph_engine.snark.converter.process import FLAG_ALL_DONE, FLAG_WORKER_FINISHED_PROCESSING

TYPES = [3, 1]

def worker(q_in, q_out, folder, suffix, *rest):
    while q_in.recv() != FLAG_ALL_DONE:
        pass
    time.sleep(suffix * 0.5)
    n = TYPES[suffix]
    q_out.put((FLAG_WORKER_FINISHED_PROCESSING, dict(
        node_count=1, edge_count=n, node_type_count=1, edge_type_count=n, node_feature_count=0, edge_feature_count=0,
        partition=dict(id=suffix, node_weight=[1], node_type_count=[1], edge_weight=[1.0] * n, edge_type_count=[1] * n))))

with tempfile.TemporaryDirectory() as d:
    p = PipeDispatcher(d, 2, None, process=worker, use_threads=True)
    p.join()
    assert p.prop("edge_type_num") == 3, p.prop("edge_type_num")
'''
