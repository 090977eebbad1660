"""The workload for the processing blocks Concatenate and Merge in processing networks (properties B01 to B05).

A case consists of data sets, a network of sources and blocks, and a history of operations for one or more user threads, each with
its own network.  The results of the blocks are judged with a small reference model (B01, B02), by comparing them with an execution
of the same history without faults (B03) or in a single thread with sequential executors (B04).
"""

import collections
import gc
import hashlib
import random
import time
import warnings
import numpy
import connectors
import sumpf
from dst import forked, memory, sched
from dst.base import Outcome, clone, describe, list_removals, pick

memory.install()
zeros = memory._originals[("numpy", "zeros")]
warnings.simplefilter("ignore")
LABELS = ["", "left", "right", "a label", "Ω", "left"]
BLOCKS = {"B01": ("Concatenate",), "B02": ("Merge",), "B03": ("Concatenate", "Merge"), "B04": ("Concatenate", "Merge"), "B05": ("Concatenate", "Merge")}
MODES = ("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")
PARALLELIZATIONS = {"thread": connectors.Parallelization.THREAD, "process": connectors.Parallelization.PROCESS, "sequential": connectors.Parallelization.SEQUENTIAL}


# ------------------------------------------------------------------- data sets

def value_spec(rng, cls):
    spec = {"cls": cls, "seed": rng.randrange(1 << 30), "channels": rng.choice((1, 1, 2, 2, 3, 5)), "labels": [rng.choice(LABELS) for _ in range(rng.randrange(0, 6))],
            "length": rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 4, 7, 7, 8, 8, 20)), "offset": rng.choice((0, 0, 0, 1, -1, 3, -2, -4, 10, -30)), "rate": rng.choice((48000.0, 44100.0)), "resolution": rng.choice((1.0, 2.5)),
            "bins": rng.choice((1, 2, 3, 5)), "type": pick(rng, {"normal": 8, "other": 1})}
    return spec


def build(spec):
    """Creates a data set, whose values are small integers, so that sums of them are exact"""
    r = random.Random(spec["seed"])
    cls, n = spec["cls"], spec["channels"]
    labels = tuple(spec["labels"])

    def numbers(shape, dtype):
        g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
        a = g.integers(-50, 50, size=shape) + 0.5
        if dtype == numpy.complex128:
            a = a + 1j * g.integers(-50, 50, size=shape)
        return numpy.array(a, dtype=dtype)
    if cls == "Signal":
        return sumpf.Signal(channels=numbers((n, spec["length"]), numpy.float64), sampling_rate=spec["rate"], offset=spec["offset"], labels=labels)
    if cls == "Spectrum":
        return sumpf.Spectrum(channels=numbers((n, spec["length"]), numpy.complex128), resolution=spec["resolution"], labels=labels)
    if cls == "Spectrogram":
        return sumpf.Spectrogram(channels=numbers((n, spec["bins"], spec["length"]), numpy.float64 if spec["type"] == "other" else numpy.complex128), resolution=spec["resolution"], sampling_rate=spec["rate"],
                                 offset=spec["offset"], labels=labels)
    return sumpf.Filter(transfer_functions=[sumpf.Filter.Polynomial(coefficients=[r.randrange(1, 9), r.randrange(1, 9)]) for _ in range(n)], labels=labels)


def describe_result(o):
    """:returns: a description of a data set, that contains everything in a comparable form"""
    if isinstance(o, sumpf.Filter):
        return ("Filter", o.labels(), tuple(repr(t) for t in o.transfer_functions()))
    c = o.channels()
    kind = next((k for k in (sumpf.Signal, sumpf.Spectrum, sumpf.Spectrogram) if isinstance(o, k)), type(o))
    return (kind.__name__, o.labels(), c.shape, hashlib.sha256((numpy.ascontiguousarray(c, dtype=numpy.complex128) + 0.0).tobytes()).hexdigest()[:16],
            o.sampling_rate() if hasattr(o, "sampling_rate") else None, o.resolution() if hasattr(o, "resolution") else None, o.offset() if hasattr(o, "offset") else None)


def concatenate(data):
    """the reference model for Concatenate"""
    if not data:
        return None
    if len(data) == 1:
        return data[0]
    cursor = 0
    places = []
    for d in data:
        start = cursor + d.offset()
        cursor = start + d.length()
        places.append(start)
    offset = min(places)
    length = max(p + d.length() for p, d in zip(places, data)) - offset
    n = max(len(d) for d in data)
    labels = tuple(f"Concatenation {i + 1}" for i in range(n))
    if isinstance(data[0], sumpf.Signal):
        channels = zeros((n, length))
        for p, d in zip(places, data):
            for c, samples in enumerate(d.channels()):
                for i, v in enumerate(samples):
                    channels[c, p - offset + i] += v
        return sumpf.Signal(channels=channels, sampling_rate=data[0].sampling_rate(), offset=offset, labels=labels)
    channels = zeros((n, max(d.number_of_frequencies() for d in data), length), dtype=numpy.complex128)
    for p, d in zip(places, data):
        a, b, e = d.shape()
        channels[0:a, 0:b, p - offset:p - offset + e] += d.channels()
    return sumpf.Spectrogram(channels=channels, resolution=data[0].resolution(), sampling_rate=data[0].sampling_rate(), offset=offset, labels=labels)


def merge(data, mode):
    """the reference model for Merge"""
    if not data:
        return None
    if len(data) == 1:
        return data[0]
    order = [(d, c) for d in range(len(data)) for c in range(len(data[d]))]
    if mode == "FIRST_CHANNELS_FIRST":
        order.sort(key=lambda t: (t[1], t[0]))
    labels = tuple(data[d].labels()[c] for d, c in order)
    first = data[0]
    if isinstance(first, sumpf.Filter):
        return sumpf.Filter(transfer_functions=[data[d].transfer_functions()[c] for d, c in order], labels=labels)
    if isinstance(first, sumpf.Spectrum):
        channels = zeros((len(order), max(d.length() for d in data)), dtype=numpy.complex128)
        for i, (d, c) in enumerate(order):
            channels[i, 0:data[d].length()] = data[d].channels()[c]
        return sumpf.Spectrum(channels=channels, resolution=first.resolution(), labels=labels)
    offset = min(d.offset() for d in data)
    length = max(d.offset() + d.length() for d in data) - offset
    if isinstance(first, sumpf.Signal):
        channels = zeros((len(order), length))
        for i, (d, c) in enumerate(order):
            s = data[d].offset() - offset
            channels[i, s:s + data[d].length()] = data[d].channels()[c]
        return sumpf.Signal(channels=channels, sampling_rate=first.sampling_rate(), offset=offset, labels=labels)
    channels = zeros((len(order), max(d.number_of_frequencies() for d in data), length), dtype=numpy.complex128)
    for i, (d, c) in enumerate(order):
        s = data[d].offset() - offset
        channels[i, 0:data[d].number_of_frequencies(), s:s + data[d].length()] = data[d].channels()[c]
    return sumpf.Spectrogram(channels=channels, resolution=first.resolution(), sampling_rate=first.sampling_rate(), offset=offset, labels=labels)


# --------------------------------------------------------------------- sources

class Source:
    """A block, that provides a data set; it can be slow"""

    def __init__(self, value, delay):
        self.value = value
        self.delay = delay

    def compute(self):
        if self.delay:
            time.sleep(self.delay)
        return self.value


class ThreadSource(Source):
    @connectors.Output()
    def output(self):
        return self.compute()

    @connectors.Input("output")
    def set(self, value):
        self.value = value


class ProcessSource(Source):
    @connectors.Output(parallelization=connectors.Parallelization.PROCESS)
    def output(self):
        return self.compute()

    @connectors.Input("output")
    def set(self, value):
        self.value = value


class SequentialSource(Source):
    @connectors.Output(parallelization=connectors.Parallelization.SEQUENTIAL)
    def output(self):
        return self.compute()

    @connectors.Input("output")
    def set(self, value):
        self.value = value


SOURCES = {"thread": ThreadSource, "process": ProcessSource, "sequential": SequentialSource}


# ------------------------------------------------------------------ generation

def generate_user(rng, focus, cls, values):
    """the network and the operations of one user"""
    nodes = []
    for _ in range(rng.choice((0, 1, 2, 3, 4))):
        nodes.append({"kind": "source", "value": rng.randrange(values), "parallel": rng.choice(("thread", "thread", "process", "sequential") if focus == "B04" else ("thread", "sequential")),
                      "delay": rng.choice((0, 0, 0.001, 0.01, 0.1))})
    kinds = BLOCKS[focus]
    for _ in range(rng.choice((1, 1, 2, 3))):
        nodes.append({"kind": rng.choice([k for k in kinds if k == "Merge" or cls in ("Signal", "Spectrogram")]), "mode": rng.choice(MODES),
                      "init": [rng.randrange(values) for _ in range(rng.choice((0, 0, 1, 2, 3, 5)))]})
    sources = [i for i, n in enumerate(nodes) if n["kind"] == "source"]
    blocks = [i for i, n in enumerate(nodes) if n["kind"] != "source"]
    nested = [] if focus == "B03" else blocks       # after a failure in one of several connected blocks, the connectors package does not recover
    steps = []
    for i in blocks:        # an initial network
        for j in [s for s in sources if rng.random() < 0.5] + [b for b in nested if b < i and rng.random() < 0.5]:
            steps.append({"op": "connect", "from": j, "to": i})
    weights = {"add": 3, "connect": 1.5, "disconnect": 0.7, "remove": 1.3, "replace": 1.3, "item": 0.4, "itemconnect": 0.3, "set": 2, "mode": 1 if "Merge" in kinds else 0, "output": 5, "caching": 0.2}
    if focus == "B03":
        weights.update({"alloc": 5, "odd": 1.5, "badmode": 0.7})
    if focus == "B04":
        weights.update({"executor": 2})
    for _ in range(rng.randrange(3, 18)):
        op = pick(rng, weights)
        b = rng.choice(blocks)
        s = {"op": op, "to": b}
        if op in ("add", "replace", "item"):
            s["value"] = rng.randrange(values)
        if op in ("replace", "remove", "item", "itemconnect"):
            s["pick"] = rng.randrange(1 << 16)
        if op in ("connect", "itemconnect", "disconnect"):
            s["from"] = rng.choice(sources + [x for x in nested if x < b] or [None])
        if op == "set":
            if not sources:
                continue
            s["from"] = rng.choice(sources)
            s["value"] = rng.randrange(values)
        if op == "mode":
            s["mode"] = rng.choice(MODES)
        if op == "alloc":
            s["numbers"] = [rng.choice((0, 0, 1, 1, 2, 3, 5))] + ([rng.randrange(6)] if rng.random() < 0.2 else [])
        if op == "executor":
            s["threads"] = rng.choice((None, 1, 2, 3, 0))
            s["processes"] = rng.choice((0, 0, 1, 2))
        if op == "caching":
            s["caching"] = rng.random() < 0.3
        steps.append(s)
    steps += [{"op": "output", "to": b} for b in blocks]
    return {"nodes": nodes, "steps": steps}


def generate(rng, focus):
    classes = {"Signal": 4, "Spectrogram": 3}
    if focus != "B01":
        classes.update({"Spectrum": 2, "Filter": 2})
    cls = pick(rng, classes)
    values = [value_spec(rng, cls) for _ in range(rng.choice((2, 3, 4, 6)))]
    users = rng.choice((1, 1, 2, 3)) if focus in ("B04", "B05") else 1
    return {"focus": focus, "values": values, "odd": value_spec(rng, rng.choice([c for c in ("Signal", "Spectrum", "Spectrogram", "Filter") if c != cls])),
            "users": [generate_user(rng, focus, cls, len(values)) for _ in range(users)], "poison": rng.choice((None, float("inf"), 1e30, -7.0)),
            "schedule": None, "sched_seed": rng.randrange(1 << 30), "preempt": rng.choice((0.02, 0.1, 0.3)) if focus in ("B04", "B05") else 0.0,
            "advance": rng.choice((0.0, 0.1))}


# ------------------------------------------------------------------- execution

class User:
    """Executes the operations of one user"""

    def __init__(self, execution, number, spec):
        self.execution = execution
        self.number = number
        self.spec = spec
        self.values = execution.values
        self.nodes = []
        self.entries = {}       # block -> OrderedDict: our key -> ["value", index] or ["node", index]
        self.ids = {}           # (block, our key) -> the data id
        self.modes = {}
        self.source_values = {}
        self.results = []       # (step, node, description or exception)
        self.kept = []          # (data set, description)
        self.keys = 0
        self.executor = connectors.executor(threads=0, processes=0) if execution.sequential else connectors.executor(threads=2, processes=0)
        self.tolerated = 0

    def create(self):
        for i, n in enumerate(self.spec["nodes"]):
            if n["kind"] == "source":
                node = SOURCES[n["parallel"]](self.values[n["value"]], n["delay"])
                self.source_values[i] = n["value"]
                node.output.set_executor(self.executor)
                node.set.set_executor(self.executor)
            else:
                data = [self.values[v] for v in n["init"]]
                mode = getattr(sumpf.Merge.modes, n["mode"])
                node = sumpf.Concatenate(data) if n["kind"] == "Concatenate" else sumpf.Merge(data, mode)
                self.modes[i] = n["mode"]
                self.entries[i] = collections.OrderedDict()
                for v in n["init"]:     # the ids of these data sets are not known to the user
                    self.entries[i][self.key()] = ["value", v]
                node.output.set_executor(self.executor)
                node.add.set_executor(self.executor)
                if n["kind"] == "Merge":
                    node.set_mode.set_executor(self.executor)
            self.nodes.append(node)

    def key(self):
        self.keys += 1
        return self.keys

    def expected(self, i):
        """the result of a node according to the reference model"""
        n = self.spec["nodes"][i]
        if n["kind"] == "source":
            return self.values[self.source_values[i]]
        data = []
        for kind, v in self.entries[i].values():
            d = self.values[v] if kind == "value" else self.expected(v)
            if d is None:
                return None
            data.append(d)
        return concatenate(data) if n["kind"] == "Concatenate" else merge(data, self.modes[i])

    def run(self):
        self.create()
        for k, step in enumerate(self.spec["steps"]):
            try:
                getattr(self, "do_" + step["op"])(k, step)
            except AssertionError:
                raise
            except Exception as e:  # pylint: disable=broad-except; is judged
                self.results.append((k, "operation", "raised " + describe(e)))
                if self.execution.focus in ("B01", "B02"):
                    self.execution.violate(self.execution.focus, "operation", f"{step['op']} fails: {describe(e)}")
                elif self.execution.focus == "B05":
                    return

    # operations

    def connected(self, i, j):
        return any(e == ["node", i] for e in self.entries[j].values())

    def do_connect(self, k, step):
        i, j = step["from"], step["to"]
        if i is None or self.connected(i, j):
            return
        self.nodes[i].output.connect(self.nodes[j].add)
        self.entries[j][self.key()] = ["node", i]

    def do_disconnect(self, k, step):
        i, j = step["from"], step["to"]
        if i is None or not self.connected(i, j):
            return
        if not self.settle(j):
            return
        self.nodes[i].output.disconnect(self.nodes[j].add)
        for key, e in list(self.entries[j].items()):
            if e == ["node", i]:
                del self.entries[j][key]

    def empty(self, i):
        """Whether the computation of a node fails, because it or a node, on which it depends, has no data"""
        return self.expected(i) is None

    def blocked(self, j):
        """Whether adding data to a block fails, because the computation of a connected node fails"""
        return any(e[0] == "node" and self.empty(e[1]) for e in self.entries[j].values())

    def settle(self, j):
        """Computes a block, because connectors forgets the pending changes of other connections, when one of them is disconnected or set"""
        if self.empty(j):
            return False
        self.nodes[j].output()
        return True

    def do_add(self, k, step):
        j = step["to"]
        if self.blocked(j):
            return
        data_id = self.nodes[j].add(self.values[step["value"]])
        key = self.key()
        if any(self.ids.get((j, other)) == data_id for other in self.entries[j]):
            self.execution.violate("B01" if self.spec["nodes"][j]["kind"] == "Concatenate" else "B02", "id", f"the id {data_id} of an added data set is not unique")
        self.entries[j][key] = ["value", step["value"]]
        self.ids[(j, key)] = data_id

    def known(self, j, step):
        keys = [key for key, e in self.entries[j].items() if (j, key) in self.ids and e[0] == "value"]
        return keys[step["pick"] % len(keys)] if keys else None

    def do_remove(self, k, step):
        j = step["to"]
        key = self.known(j, step)
        if key is not None:
            self.nodes[j].remove(self.ids.pop((j, key)))
            del self.entries[j][key]

    def do_replace(self, k, step):
        j = step["to"]
        key = self.known(j, step)
        if key is not None:
            self.ids[(j, key)] = self.nodes[j].replace(self.ids[(j, key)], self.values[step["value"]])
            self.entries[j][key] = ["value", step["value"]]

    def do_item(self, k, step):
        j = step["to"]
        key = self.known(j, step)
        if key is not None and self.settle(j):
            self.nodes[j].add[self.ids[(j, key)]](self.values[step["value"]])
            self.entries[j][key] = ["value", step["value"]]

    def do_itemconnect(self, k, step):
        i, j = step["from"], step["to"]
        key = self.known(j, step)
        if key is not None and i is not None and not self.connected(i, j) and not self.empty(i):
            self.nodes[i].output.connect(self.nodes[j].add[self.ids.pop((j, key))])
            self.entries[j][key] = ["node", i]

    def do_set(self, k, step):
        self.nodes[step["from"]].set(self.values[step["value"]])
        self.source_values[step["from"]] = step["value"]

    def do_mode(self, k, step):
        j = step["to"]
        if self.spec["nodes"][j]["kind"] == "Merge":
            self.nodes[j].set_mode(getattr(sumpf.Merge.modes, step["mode"]))
            self.modes[j] = step["mode"]

    def do_caching(self, k, step):
        self.nodes[step["to"]].output.set_caching(step["caching"])

    def do_executor(self, k, step):
        if not self.execution.sequential:
            self.execution.count(f"executor: {step['threads']} threads, {step['processes']} processes")
            self.nodes[step["to"]].output.set_executor(connectors.executor(threads=step["threads"], processes=step["processes"]))

    def do_output(self, k, step):
        j = step["to"]
        if self.blocked(j):
            return
        try:
            result = self.nodes[j].output()
        except Exception as e:  # pylint: disable=broad-except; is judged
            self.results.append((k, j, "raised " + type(e).__name__))
            if self.execution.focus in ("B01", "B02"):
                if not self.empty(j):
                    self.execution.violate(self.execution.focus, "error", f"{self.what(j)}.output() raises {describe(e)}")
                elif not isinstance(e, RuntimeError):
                    self.execution.violate(self.execution.focus, "empty", f"{self.what(j)}.output() raises {describe(e)} instead of a RuntimeError")
            return
        d = describe_result(result)
        self.kept.append((result, d, f"the result of {self.what(j)} in step {k}"))
        self.results.append((k, j, d))
        if self.execution.focus in ("B01", "B02"):
            self.judge(j, result, d)

    def what(self, j):
        data = [self.execution.case["values"][v]["cls"] if kind == "value" else f"node {v}" for kind, v in self.entries[j].values()]
        return f"{self.spec['nodes'][j]['kind']}{'' if self.spec['nodes'][j]['kind'] == 'Concatenate' else ' (' + self.modes[j] + ')'} of {data}"

    def judge(self, j, result, d):
        pid = self.execution.focus
        expected = self.expected(j)
        if expected is None:
            self.execution.violate(pid, "empty", f"{self.what(j)}.output() does not raise an error")
            return
        e = describe_result(expected)
        if d == e:
            self.execution.count("probe:results equal to those of the reference model")
            return
        for what, a, b in zip(("type", "labels", "shape", "values", "sampling rate", "resolution", "offset"), d, e):
            if a != b:
                detail = ""
                if what == "values":
                    p, q = result.channels(), expected.channels()
                    i = tuple(int(x[0]) for x in numpy.nonzero(p != q))
                    detail = f" (at {i}: {p[i]} instead of {q[i]})"
                self.execution.violate(pid, what, f"{self.what(j)}: the {what} {'are' if what in ('labels', 'values') else 'is'} {a} instead of {b}{detail}")
                return

    # faults

    def attempt(self, k, j, prepare, clean_up):
        """Retrieves an output, while there is a fault"""
        if self.execution.fault_free:
            return
        prepare()
        try:
            result = self.nodes[j].output()
        except Exception as e:  # pylint: disable=broad-except; this is allowed
            self.execution.count("probe:failed computations")
            self.results.append((k, "fault", describe(e)))
        else:
            self.execution.count("probe:computations, that were not affected by the fault")
            self.results.append((k, "fault", describe_result(result)))
        finally:
            clean_up()

    def do_alloc(self, k, step):
        def clean_up():
            n = memory.disarm(everywhere=True)
            if n:
                self.execution.count("fault:allocation failure", n)
        self.attempt(k, step["to"], lambda: memory.arm(step["numbers"], everywhere=True), clean_up)

    def do_odd(self, k, step):
        block = self.nodes[step["to"]]
        if self.blocked(step["to"]):
            return
        ids = []

        def clean_up():
            block.remove(ids[0])
            self.execution.count("fault:data set of another type")
        self.attempt(k, step["to"], lambda: ids.append(block.add(self.execution.odd)), clean_up)

    def do_badmode(self, k, step):
        j = step["to"]
        if self.spec["nodes"][j]["kind"] == "Merge":
            def clean_up():
                self.nodes[j].set_mode(getattr(sumpf.Merge.modes, self.modes[j]))
                self.execution.count("fault:invalid mode")
            self.attempt(k, j, lambda: self.nodes[j].set_mode("invalid"), clean_up)


class Run:
    """Executes a case within its own process"""

    def __init__(self, case, sequential=False, fault_free=False):
        self.case = case
        self.focus = case["focus"]
        self.sequential = sequential
        self.fault_free = fault_free
        self.stats = collections.Counter()
        self.violations = []
        self.values = [build(v) for v in case["values"]]
        self.odd = build(case["odd"])
        self.prints = [describe_result(v) for v in self.values]

    def count(self, key, n=1):
        self.stats[key] += n

    def violate(self, pid, kind, message):
        self.violations.append((pid, kind, message))

    def run(self):
        gc.collect()
        gc.disable()
        memory.poison = self.case["poison"]
        users = [User(self, i, u) for i, u in enumerate(self.case["users"])]
        s = sched.Scheduler(seed=self.case["sched_seed"], schedule=[] if self.sequential else self.case["schedule"], preempt=self.case["preempt"], advance=self.case["advance"], max_steps=600000,
                            trace_prefixes=(sumpf.__path__[0],) if self.case["preempt"] and not self.sequential else ())
        errors = {}

        def body(users):
            for u in users:
                try:
                    u.run()
                except Exception as e:  # pylint: disable=broad-except; is reported as a problem of the harness
                    import traceback
                    errors[u.number] = traceback.format_exc()
        if self.sequential:
            s.spawn(lambda: body(users), "users")
        else:
            for u in users:
                s.spawn(lambda u=u: body([u]), f"user{u.number}")
        failure = s.run()
        if failure is not None:
            self.violate("B04" if self.focus == "B04" else self.focus, "no end", f"the computation does not end: {describe(failure)}")
        if errors:
            raise sched.HarnessError(str(errors))
        memory.poison = None
        if self.focus == "B05":
            for v, p, spec in zip(self.values, self.prints, self.case["values"]):
                if describe_result(v) != p:
                    self.violate("B05", "input", f"a {spec['cls']} has been modified by a block")
            for u in users:
                for result, d, what in u.kept:
                    self.count("probe:earlier results checked")
                    if describe_result(result) != d:
                        self.violate("B05", "result", f"{what} has been modified afterwards")
        self.count("operations", sum(len(u.spec["steps"]) for u in users))
        self.count("switches", s.switches)
        if memory.poisoned:
            self.count("fault:poisoned allocation", memory.poisoned)
        for u in users:
            for r in u.results:
                if r[1] not in ("operation", "fault"):
                    self.count("probe:outputs")
        return {"violations": self.violations, "stats": dict(self.stats), "results": [u.results for u in users], "decisions": s.decisions,
                "switch_hash": s.switch_hash, "sim_ns": s.now - s.start_ns, "log": [(i, *map(str, r)) for i, u in enumerate(users) for r in u.results]}


def compare(out, case, results, reference, pid):
    for i, (a, b) in enumerate(zip(results, reference)):
        da = {r[0]: r for r in a if r[1] != "fault"}
        db = {r[0]: r for r in b if r[1] != "fault"}
        for k in sorted(set(da) | set(db)):
            if da.get(k) != db.get(k):
                op = case["users"][i]["steps"][k]
                x, y = da.get(k, (0, 0, "nothing"))[2], db.get(k, (0, 0, "nothing"))[2]
                what = "after a failed computation" if pid == "B03" else "with this schedule and these executors"
                other = "without the failure" if pid == "B03" else "when executed sequentially"
                out.violate(pid, "different", f"user {i}, step {k} ({op['op']} of node {op.get('to')}): {what}: {x}, {other}: {y}")
                return
    out.stats["probe:compared executions"] += 1


def child(case, **kwargs):
    status, result = forked.run(lambda: Run(case, **kwargs).run(), 100.0, cpu=40)
    if status == "error":
        raise sched.HarnessError(result)
    return status, result


def execute(case):
    out = Outcome()
    status, result = child(case)
    if status != "ok":
        out.violate(case["focus"], "process lost", f"the process {'does not end' if status == 'hang' else 'has ended with the status ' + str(result)}")
        return out
    for v in result["violations"]:
        out.violate(*v)
    out.stats.update(result["stats"])
    out.log = result["log"]
    out.decisions = result["decisions"]
    out.switch_hash = result["switch_hash"]
    out.sim_ns = result["sim_ns"]
    if case["focus"] in ("B03", "B04") and not out.violations:
        status, reference = child(case, sequential=case["focus"] == "B04", fault_free=case["focus"] == "B03")
        if status != "ok" or reference["violations"]:
            out.stats["reference not available"] += 1
        else:
            compare(out, case, result["results"], reference["results"], case["focus"])
    out.nontrivial = bool(out.stats["probe:outputs"] > 1 and (case["focus"] != "B03" or out.stats["probe:failed computations"]))
    shape = [[n["kind"] for n in u["nodes"]] + [s["op"] for s in u["steps"]] for u in case["users"]]
    out.shape = hashlib.sha256(repr((shape, case["values"][0]["cls"])).encode()).hexdigest()[:20]
    return out


def shrink(case):
    if len(case["users"]) > 1:
        for users in list_removals(case["users"]):
            if users:
                c = clone(case)
                c["users"] = users
                yield c
    for i, u in enumerate(case["users"]):
        for steps in list_removals(u["steps"]):
            c = clone(case)
            c["users"][i]["steps"] = steps
            yield c
        for j, n in enumerate(u["nodes"]):
            if n["kind"] != "source":
                for init in list_removals(n["init"]):
                    c = clone(case)
                    c["users"][i]["nodes"][j]["init"] = init
                    yield c
            elif n["delay"]:
                c = clone(case)
                c["users"][i]["nodes"][j]["delay"] = 0
                yield c
    if case["schedule"]:
        for s in list_removals(case["schedule"]):
            c = clone(case)
            c["schedule"] = s
            yield c
    if case["poison"] is not None:
        c = clone(case)
        c["poison"] = None
        yield c
    for i, v in enumerate(case["values"]):
        for key, choices in (("channels", (1, 2)), ("length", (1, 2, 3)), ("bins", (1,)), ("offset", (0,)), ("labels", ([],)), ("type", ("normal",))):
            for x in choices:
                if v[key] != x and not (isinstance(x, int) and key != "offset" and v[key] <= x):
                    c = clone(case)
                    c["values"][i][key] = x
                    yield c
