PROPERTY = "P26"
NEEDS = "two or more workers of which the last one finishes after the others"
BREAKS = "workers go on, and the chief saves the final checkpoint, while the last worker is still training"
EDITS = [("tf/common/dist_sync.py", "for i in range(self.num_tasks):", "for i in range(max(self.num_tasks - 1, 1)):")]
DEMO = '''
import os, sys, tempfile, types


class Anything:
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        return self


tf = types.ModuleType("tensorflow")
tf.compat = Anything()
sys.modules["tensorflow"] = tf
import deepgnn

for name in ("deepgnn.tf", "deepgnn.tf.common"):
    m = types.ModuleType(name)
    m.__path__ = [deepgnn.__path__[0] + name[len("deepgnn") :].replace(".", "/")]
    sys.modules[name] = m
from deepgnn.tf.common import dist_sync

for count in (1, 2, 3):
    with tempfile.TemporaryDirectory() as folder:
        workers = [dist_sync.DistributedSync(folder, i, count) for i in range(count)]
        late = list(workers[1:])

        def sleep(seconds):
            # one more worker arrives while the first one waits
            w = late.pop(0)
            open(os.path.join(folder, f"sync.end.{w.task_index}"), "w").close()

        dist_sync.time.sleep = sleep
        workers[0].sync("end")
        assert not late, f"did not wait for {len(late)} of {count} workers"
'''
