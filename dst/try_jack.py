import sys, random, collections, json, time, traceback
from dst import sched
sched.install()
from dst import jackload
n0, n = int(sys.argv[1]), int(sys.argv[2])
count = collections.Counter(); stats = collections.Counter(); first = {}
t0 = sched._real["monotonic"]()
for i in range(n0, n0 + n):
    focus = sys.argv[3] if len(sys.argv) > 3 else jackload.PROPERTIES[i % 8]
    case = jackload.generate(random.Random(f"x{i}"), focus)
    assert jackload.valid(case), (i, case)
    try:
        o = jackload.execute(case)
    except Exception as e:
        count["EXC " + repr(e)[:150]] += 1; first.setdefault("EXC " + repr(e)[:150], i); continue
    stats.update(o.stats)
    for v in o.violations[:1]:
        k = (v.pid, v.kind)
        count[k] += 1
        if k not in first: first[k] = (i, v.message)
print(n / (sched._real["monotonic"]() - t0), "runs/s")
for k, c in count.most_common(): print(c, k, first.get(k))
print(dict(stats))
