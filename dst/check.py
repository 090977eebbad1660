"""Runs the check for one property: seeded simulated runs in worker processes, minimisation, replay files and evidence.

usage: python -m dst.check PROPERTY quick|thorough
       python -m dst.check PROPERTY --replay FILE

exit status: 0 the property held on everything, that was explored (or only known findings)
             1 a violation, that has been reproduced in a fresh process
             2 the check itself has failed
"""

import collections
import hashlib
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

from dst.registry import CHECKS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STALL = 150.0       # seconds without a message from a worker, after which it is considered to be stuck


class Worker:
    """A handle for a worker process"""

    def __init__(self, extra_env=None):
        env = dict(os.environ)
        env.update(extra_env or {})
        self.process = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.PIPE, cwd=ROOT, env=env, text=True, encoding="utf-8", errors="replace")
        self.messages = queue.Queue()
        self.stderr = collections.deque(maxlen=60)
        threading.Thread(target=self.__read, daemon=True).start()
        threading.Thread(target=self.__read_err, daemon=True).start()

    def __read(self):
        for line in self.process.stdout:
            try:
                self.messages.put(json.loads(line))
            except ValueError:
                self.messages.put({"error": f"unreadable message: {line[:200]!r}"})
        self.messages.put(None)

    def __read_err(self):
        for line in self.process.stderr:
            self.stderr.append(line.rstrip()[:500])

    def send(self, **job):
        self.process.stdin.write(json.dumps(job) + "\n")
        self.process.stdin.flush()

    def get(self, timeout):
        """:returns: a message; None, if the process has ended; "stall", if there is none in time"""
        try:
            return self.messages.get(timeout=timeout)
        except queue.Empty:
            return "stall"

    def close(self):
        try:
            self.process.kill()
        except OSError:
            pass
        self.process.wait()
        for stream in (self.process.stdin, self.process.stdout, self.process.stderr):
            try:
                stream.close()
            except (OSError, ValueError):
                pass


def single(check, job, timeout, env=None):
    """Executes one job in a fresh process.

    :returns: (message, None) or (None, the reason for the failure)
    """
    w = Worker(env)
    try:
        w.send(workload=check["workload"], **job)
        deadline = time.monotonic() + timeout
        result = None
        while True:
            m = w.get(max(0.1, deadline - time.monotonic()))
            if m == "stall":
                return None, "hang"
            if m is None:
                return None, f"crash (exit status {w.process.wait()}): {' | '.join(list(w.stderr)[-12:])}"
            if "error" in m:
                return None, f"error {m['error']}\n{m.get('traceback', '')}"
            if m.get("done"):
                return result, None
            result = m
    finally:
        w.close()


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.check = CHECKS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = time.monotonic()
        self.workers = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 1)))
        self.total = int(os.environ.get("DST_RUNS", self.check["runs"][tier]))
        self.cap = float(os.environ.get("DST_CAP", {"quick": 240.0, "thorough": 3000.0}[tier]))
        self.stats = collections.Counter()
        self.runs = 0
        self.sim_ns = 0
        self.shapes = set()
        self.interleavings = set()
        self.nontrivial = 0
        self.found = {}             # kind -> first (index, case, violation)
        self.found_count = collections.Counter()
        self.others = collections.Counter()
        self.samples = []
        self.problems = []          # failures of the harness
        self.hangs = []
        self.digests = {}
        self.lock = threading.Lock()
        self.known = self.load_known()
        self.known_seen = {}

    def load_known(self):
        try:
            with open(os.path.join(ROOT, "known_findings.json"), encoding="utf-8") as f:
                findings = json.load(f)["findings"]
        except FileNotFoundError:
            return []
        return [k for k in findings if k["property"] == self.pid]

    def is_known(self, violation):
        for k in self.known:
            if k["kind"] == violation["kind"] and re.search(k["match"], violation["message"], re.S):
                return k
        return None

    # ----

    def run(self):
        print(f"seed={self.seed} property={self.pid} tier={self.tier} workload={self.check['workload']} runs={self.total} workers={self.workers}", flush=True)
        size = self.check.get("chunk", 25)
        chunks = queue.Queue()
        indices = list(range(self.total))
        for i in range(0, self.total, size):
            chunks.put(indices[i:i + size])
        threads = [threading.Thread(target=self.feed, args=(chunks,)) for _ in range(min(self.workers, max(1, (self.total + size - 1) // size)))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        wall = time.monotonic() - self.start
        status = 0
        replays = []
        for k in self.known:        # the recorded findings are demonstrated with their own cases
            if k["what"] not in self.known_seen and "case" in k:
                m, _ = single(self.check, {"do": "case", "case": k["case"]}, 120.0, self.check.get("env"))
                if m is not None and any(self.is_known(v) is k for v in m["run"]["violations"]):
                    self.known_seen[k["what"]] = 1
        for what in self.known_seen:
            print(f"KNOWN-FINDING: property={self.pid} {what}", flush=True)
        for index in self.hangs:
            self.confirm_hang(index)
        for kind in sorted(self.found, key=lambda k: -self.found_count[k])[:3]:
            index, case, violation = self.found[kind]
            path = self.report(kind, index, case, violation)
            if path is not None:
                status = 1
                replays.append(path)
                if time.monotonic() - self.start > 500:
                    break
        recheck = self.recheck() if status == 0 else None
        self.write_evidence(wall, status, recheck)
        if status == 1:
            for path in replays:
                print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        if self.problems:
            for p in self.problems[:5]:
                print("HARNESS-ERROR:", p, file=sys.stderr)
            return 2
        if self.runs == 0:
            print("HARNESS-ERROR: nothing has been executed", file=sys.stderr)
            return 2
        if recheck is not None and recheck["mismatches"]:
            print(f"warning: {recheck['mismatches']} of {recheck['runs']} repeated runs had another history in another process", flush=True)
        print(f"ok: {self.runs} runs, {self.nontrivial} non-trivial, {len(self.shapes)} distinct, {wall:.1f} s", flush=True)
        return 0

    def feed(self, chunks):
        worker = None
        try:
            while True:
                if time.monotonic() - self.start > self.cap or len(self.problems) > 20:
                    return
                if sum(self.found_count.values()) > 400 or (self.found and time.monotonic() - self.start > self.cap * 0.5):
                    return
                try:
                    chunk = chunks.get_nowait()
                except queue.Empty:
                    return
                while chunk:
                    if worker is None:
                        worker = Worker(self.check.get("env"))
                    worker.send(do="chunk", workload=self.check["workload"], pid=self.pid, focus=self.check["focus"], seed=self.seed, indices=chunk,
                                cases=len(self.samples) < 3)
                    current = None
                    while True:
                        m = worker.get(STALL)
                        if m == "stall" or m is None:
                            with self.lock:
                                if current is None:
                                    self.problems.append(f"a worker has ended: {list(worker.stderr)[-10:]}")
                                    chunk = []
                                else:
                                    self.hangs.append(current)
                                    chunk = chunk[chunk.index(current) + 1:]
                            worker.close()
                            worker = None
                            break
                        if "error" in m:
                            with self.lock:
                                self.problems.append(f"run {current}: {m['error']} {m.get('traceback', '')}")
                            chunk = chunk[chunk.index(current) + 1:] if current is not None else []
                            worker.close()
                            worker = None
                            break
                        if "begin" in m:
                            current = m["begin"]
                        elif "run" in m:
                            self.account(m["run"])
                        elif m.get("done"):
                            chunk = []
                            break
        except Exception as e:  # pylint: disable=broad-except; must not be lost
            with self.lock:
                self.problems.append(f"feeder: {e!r}")
        finally:
            if worker is not None:
                worker.close()

    def account(self, run):
        with self.lock:
            self.runs += 1
            self.stats.update(run["stats"])
            self.sim_ns += run["sim_ns"]
            self.interleavings.add(run["interleaving"])
            if len(self.digests) < 4000:
                self.digests[run["index"]] = run["digest"]
            if run["nontrivial"]:
                self.nontrivial += 1
                self.shapes.add(run["shape"])
                if len(self.samples) < 3 and "case" in run:
                    self.samples.append(run["case"])
            seen = set()
            for v in run["violations"]:
                if v["property"] != self.pid:
                    self.others[v["property"] + " " + v["kind"]] += 1
                    continue
                known = self.is_known(v)
                if known is not None:
                    self.known_seen[known["what"]] = self.known_seen.get(known["what"], 0) + 1
                    continue
                if v["kind"] in seen:
                    continue
                seen.add(v["kind"])
                self.found_count[v["kind"]] += 1
                if v["kind"] not in self.found or run["index"] < self.found[v["kind"]][0]:
                    self.found[v["kind"]] = (run["index"], run["case"], v)

    def confirm_hang(self, index):
        """A run did not end in real time or has ended the worker: is this repeatable?"""
        job = {"do": "chunk", "pid": self.pid, "focus": self.check["focus"], "seed": self.seed, "indices": [index], "cases": True}
        m, reason = single(self.check, job, 90.0, self.check.get("env"))
        if m is not None:
            self.account(m["run"])
            self.stats["harness: worker lost, run repeated"] += 1
            return
        if reason.startswith("error"):
            self.problems.append(reason)
            return
        kind = "hang" if reason == "hang" else "crash"
        if len(self.hangs) > 3 and kind in self.found:
            return
        self.found_count[kind] += 1
        self.found.setdefault(kind, (index, None, {"property": self.pid, "kind": kind, "message": f"the run {'does not end' if kind == 'hang' else 'ends the process'}: {reason}"}))

    def report(self, kind, index, case, violation):
        """Minimises a violation, writes the replay file and confirms it in a fresh process"""
        directory = os.path.join(ROOT, "replays")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, f"{self.pid}-{re.sub(r'[^A-Za-z0-9]+', '-', kind)}-{self.seed}-{index}.json")
        data = {"property": self.pid, "workload": self.check["workload"], "seed": self.seed, "index": index, "original": case, "violation": violation}
        if case is None:            # hang or crash: not minimised
            data["indices"] = [index]
            with open(path, "w", encoding="utf-8") as f:
                json.dump(data, f, indent=1)
            print(f"{self.pid} {kind}: {violation['message']}", flush=True)
            return path
        limit = 40.0 if self.tier == "quick" else 120.0
        m, reason = single(self.check, {"do": "minimise", "case": case, "pid": self.pid, "kind": kind, "limit": limit}, limit + 120.0, self.check.get("env"))
        minimised = m.get("minimised") if m is not None else None
        final = minimised["case"] if minimised else case
        data["minimised"] = bool(minimised)
        confirmed = None
        for candidate in ([final, case] if minimised else [case]):
            r, reason = single(self.check, {"do": "case", "case": candidate}, 120.0, self.check.get("env"))
            if r is not None:
                same = [v for v in r["run"]["violations"] if v["property"] == self.pid and v["kind"] == kind]
                if same:
                    confirmed = candidate
                    data["case"] = candidate
                    data["violation"] = same[0]
                    data["digest"] = r["run"]["digest"]
                    data["trace"] = r["run"]["log"]
                    break
        if confirmed is None:
            self.problems.append(f"the violation {violation} of run {index} is not reproducible in a fresh process ({reason})")
            return None
        with open(path, "w", encoding="utf-8") as f:
            json.dump(data, f, indent=1)
        print(f"{self.pid} {kind} ({self.found_count[kind]} of {self.runs} runs): {data['violation']['message']}", flush=True)
        return path

    def recheck(self):
        """Repeats some runs in other processes (with another order, another hash seed) and compares the histories"""
        indices = sorted(self.digests)
        n = {"quick": 12, "thorough": 120}[self.tier]
        indices = indices[::max(1, len(indices) // n)][:n]
        mismatches = 0
        done = 0
        for k, part in enumerate((indices[0::2], list(reversed(indices[1::2])))):
            env = dict(self.check.get("env") or {}, PYTHONHASHSEED=str(11 + k))
            w = Worker(env)
            try:
                w.send(do="chunk", workload=self.check["workload"], pid=self.pid, focus=self.check["focus"], seed=self.seed, indices=part)
                while True:
                    m = w.get(STALL)
                    if m in ("stall", None) or "error" in m or m.get("done"):
                        break
                    if "run" in m:
                        done += 1
                        mismatches += m["run"]["digest"] != self.digests[m["run"]["index"]]
            finally:
                w.close()
        return {"runs": done, "mismatches": mismatches}

    def write_evidence(self, wall, status, recheck):
        faults = {k[6:]: v for k, v in sorted(self.stats.items()) if k.startswith("fault:")}
        probes = {k[6:]: v for k, v in sorted(self.stats.items()) if k.startswith("probe:")}
        operations = {k[3:]: v for k, v in sorted(self.stats.items()) if k.startswith("op:")}
        rest = {k: v for k, v in sorted(self.stats.items()) if k.split(":")[0] not in ("fault", "probe", "op")}
        wall = max(wall, 1e-3)
        evidence = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.runs,
                "distinct_nontrivial": len(self.shapes),
                "rule": self.check["rule"],
                "samples": self.samples or [{"note": "no non-trivial run"}],
                "nontrivial_runs": self.nontrivial,
                "seeds": self.runs,
                "runs_per_hour": round(self.runs / wall * 3600),
                "simulated_seconds": round(self.sim_ns / 1e9, 3),
                "faults_fired": faults,
                "operations": operations,
                "probes": probes,
                "counters": rest,
                "distinct_interleavings": len(self.interleavings),
                "interleaving_measure": "hash of the sequence of thread switches (thread, number of the yield point); 1 if the workload has a single thread",
                "real_components": self.check["real"],
                "stubs": self.check["stubs"],
                "determinism_recheck": recheck,
                "violations_of_other_properties_seen": dict(self.others.most_common(10)),
                "known_findings_seen": self.known_seen,
                "runs_planned": self.total,
            },
            "wall_s": round(time.monotonic() - self.start, 2),
            "violations": sum(self.found_count.values()),
            "assumptions": self.check["assumptions"],
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)


def replay(pid, path):
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    check = CHECKS[pid]
    kind = data["violation"]["kind"]
    if "indices" in data:
        job = {"do": "chunk", "pid": pid, "focus": check["focus"], "seed": data["seed"], "indices": data["indices"]}
        m, reason = single(check, job, 90.0, check.get("env"))
        if m is None and (reason == "hang") == (kind == "hang") and not reason.startswith("error"):
            print(reason)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
    else:
        m, reason = single(check, {"do": "case", "case": data["case"]}, 120.0, check.get("env"))
        if m is not None:
            for line in m["run"]["log"]:
                print(*line)
            same = [v for v in m["run"]["violations"] if v["property"] == pid]
            if same:
                print(f"digest {m['run']['digest']} (recorded: {data.get('digest')})")
                print(same[0]["kind"], same[0]["message"])
                print(f"VIOLATION property={pid} replay={path}")
                return 1
    if m is None:
        print("HARNESS-ERROR:", reason, file=sys.stderr)
        return 2
    print("the violation is not reproduced")
    return 0


def main():
    pid = sys.argv[1]
    if pid not in CHECKS:
        print(f"unknown property {pid}", file=sys.stderr)
        return 2
    if sys.argv[2] == "--replay":
        return replay(pid, sys.argv[3])
    return Check(pid, sys.argv[2]).run()


if __name__ == "__main__":
    sys.exit(main())
