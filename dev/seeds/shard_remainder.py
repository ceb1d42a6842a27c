PROPERTY = 'P15'
NEEDS = 'more partitions than servers, and their number not a multiple of the servers'
BREAKS = 'the partitions left over after an even split are loaded by no server'
EDITS = [('graph_engine/snark/distributed.py', '''                range(index, partition_count, total_shards),
''', '''                range(
                    index,
                    partition_count - partition_count % total_shards,
                    total_shards,
                ),
''')]
DEMO = '''
import json, os, tempfile
from unittest import mock
import deepgnn.graph_engine.snark.distributed as m

for n, servers in ((4, 2), (3, 1), (5, 2), (7, 3)):
    loaded = []

    class Native:
        def __init__(self, path, partitions, *args):
            loaded.extend(p for _, p in partitions)

        def reset(self):
            pass

    with tempfile.TemporaryDirectory() as d:
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"partitions": {str(i): {} for i in range(n)}}, f)
        with mock.patch.object(m, "download_meta", lambda a, b, c: os.path.join(a, "meta.json")), mock.patch.object(m.server, "Server", Native):
            for i in range(servers):
                m.Server("localhost:1", d, i, servers).reset()
    assert sorted(loaded) == list(range(n)), (n, servers, loaded)
'''
