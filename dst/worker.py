"""A worker process: executes simulated runs on request (one JSON object per line on stdin / stdout).

The seams are installed before anything else is imported.
"""

import faulthandler
import json
import os
import random
import sys
import time
import traceback

_out = os.fdopen(os.dup(1), "w", buffering=1, encoding="utf-8")     # the code under test must not write to the protocol's channel
os.dup2(2, 1)

from dst import sched       # noqa
if os.environ.get("DST_SEAMS", "1") == "1":
    sched.install()
_clock = sched._real["monotonic"]


def send(**message):
    _out.write(json.dumps(message) + "\n")
    _out.flush()


def make_case(workload, pid, focus, seed, index):
    rng = random.Random(f"{seed}:{pid}:{index}")
    case = workload.generate(rng, focus)
    case["origin"] = [seed, pid, index]
    return case


def summary(outcome):
    return {"violations": [v.as_dict() for v in outcome.violations], "stats": dict(outcome.stats), "digest": outcome.digest(),
            "nontrivial": bool(outcome.nontrivial), "shape": outcome.shape or outcome.digest(), "sim_ns": outcome.sim_ns,
            "interleaving": outcome.switch_hash}


def minimise(workload, case, pid, kind, limit):
    """Shrinks the case greedily while the same violation occurs"""
    start = _clock()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            o = workload.execute(c)
        except sched.HarnessError:
            return None
        for v in o.violations:
            if v.pid == pid and v.kind == kind:
                return o
        return None
    o = fails(case)
    if o is None:
        return None
    if "schedule" in case and case["schedule"] is None:
        c = json.loads(json.dumps(case))
        c["schedule"] = [list(d) for d in o.decisions]
        o2 = fails(c)
        if o2 is not None:
            case = c
            if c["schedule"]:       # is the schedule relevant at all?
                c = json.loads(json.dumps(case))
                c["schedule"] = []
                if fails(c) is not None:
                    case = c
    progress = True
    while progress and _clock() - start < limit:
        progress = False
        for c in workload.shrink(case):
            if _clock() - start >= limit:
                break
            if fails(c) is not None:
                case = json.loads(json.dumps(c))
                progress = True
                break
    o = fails(case)
    if o is None:
        return None
    v = [v for v in o.violations if v.pid == pid and v.kind == kind][0]
    return {"case": case, "violation": v.as_dict(), "digest": o.digest(), "tried": tried, "log": [list(map(str, e)) for e in o.log[-400:]]}


def main():
    faulthandler.enable()
    import importlib
    workloads = {}
    for line in sys.stdin:
        job = json.loads(line)
        try:
            name = job["workload"]
            if name not in workloads:
                workloads[name] = importlib.import_module("dst." + name)
            workload = workloads[name]
            if job["do"] == "chunk":
                for index in job["indices"]:
                    send(begin=index)
                    t = _clock()
                    case = make_case(workload, job["pid"], job["focus"], job["seed"], index)
                    o = workload.execute(case)
                    s = summary(o)
                    s["index"] = index
                    s["wall"] = _clock() - t
                    if s["violations"] or job.get("cases"):
                        s["case"] = case
                    send(run=s)
                send(done=True)
            elif job["do"] == "case":
                o = workload.execute(job["case"])
                s = summary(o)
                s["log"] = [list(map(str, e)) for e in o.log[-400:]]
                send(run=s)
                send(done=True)
            elif job["do"] == "minimise":
                m = minimise(workload, job["case"], job["pid"], job["kind"], job["limit"])
                send(minimised=m)
                send(done=True)
        except BaseException as e:      # pylint: disable=broad-except; everything has to be reported
            send(error=f"{type(e).__name__}: {e}", traceback=traceback.format_exc()[-4000:])
            if not isinstance(e, Exception):
                raise
    os._exit(0)


if __name__ == "__main__":
    main()
