"""A development driver: python -m dst.try_load WORKLOAD START COUNT FOCUS (one process)"""
import sys, random, collections, traceback, importlib
from dst import sched
sched.install()
workload = importlib.import_module("dst." + sys.argv[1])
n0, n, focus = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
count = collections.Counter(); stats = collections.Counter(); first = {}; shapes = set()
t0 = sched._real["monotonic"]()
slow = (0, None)
for i in range(n0, n0 + n):
    case = workload.generate(random.Random(f"x{i}"), focus)
    t1 = sched._real["monotonic"]()
    try:
        o = workload.execute(case)
    except Exception as e:
        key = "EXC " + repr(e)[-300:]
        count[key] += 1; first.setdefault(key, i)
        continue
    slow = max(slow, (sched._real["monotonic"]() - t1, i))
    stats.update(o.stats)
    if o.nontrivial:
        shapes.add(o.shape)
    for v in o.violations:
        k = (v.pid, v.kind)
        count[k] += 1
        if k not in first: first[k] = (i, v.message)
print(n / (sched._real["monotonic"]() - t0), "runs/s; slowest", slow, "shapes", len(shapes))
for k, c in count.most_common(): print(c, k, first.get(k))
print(dict(sorted(stats.items())))
