PROPERTY = 'P15'
NEEDS = 'workers whose addresses contain colons'
BREAKS = 'workers on different hosts with IPv6 addresses are taken for workers of one host, so that one of them starts no server'
EDITS = [('graph_engine/backends/snark/client.py', '            host = worker.rsplit(":", 1)[0]\n', '            host = worker.split(":", 1)[0]\n')]
DEMO = '''
import json, os, tempfile
from types import SimpleNamespace
from unittest import mock
import deepgnn.graph_engine.backends.snark.client as m


def started(workers, index):
    out = []
    with tempfile.TemporaryDirectory() as d:
        o = SimpleNamespace(skip_ge_start=False, num_ge=2, servers=["a:1", "b:1"], server_idx=None, task_index=index, worker_hosts=list(workers), sync_dir=d, model_dir=d,
                            ge_start_timeout=1, ssl_cert="", storage_type=0, config_path="", stream=False, data_dir=d, grpc_options=[], num_threads=1, num_cq_per_thread=1)
        with mock.patch.object(m, "SynchronizedServer", lambda *a, **k: out.append(a[1])), mock.patch.object(m, "SynchronizedClient"):
            m.SnarkDistributedBackend(o)
    return out


env = {k: v for k, v in os.environ.items() if not k.endswith("LOCAL_RANK") and k != "TF_CONFIG"}
with mock.patch.dict(os.environ, env, clear=True):
    for hosts in (["10.0.0.1", "10.0.0.2"], ["[fd00::1]", "[fd00::2]"]):
        workers = [h + ":" + p for h in hosts for p in ("2222", "2223")]
        got = [started(workers, i) for i in range(4)]
        assert got == [[0], [], [1], []], (workers, got)
'''
