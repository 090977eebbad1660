import sys, random, json
from dst import sched
sched.install()
from dst import jackload
i = int(sys.argv[1]); focus = sys.argv[2] if len(sys.argv) > 2 else jackload.PROPERTIES[i % 8]
case = jackload.generate(random.Random(f"x{i}"), focus)
e = jackload.Execution(case)
o = e.run()
print(json.dumps(case["new"]), case["ops"], case["faults"], case["cfg"])
for l in o.log: print(l)
for v in o.violations: print(v.as_dict())
print(e.stderr.getvalue()[-3000:], *e.unraisable)
print([ (t.name, t.error, t.state) for t in e.sched.threads], e.server.history_notifications)
