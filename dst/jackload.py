"""The workload for the JACK block: one user thread, the JACK server's process and notification threads and faults."""

import gc
import io
import random
import sys
import traceback
import numpy
from . import sched as S
from .base import Outcome, clone, describe, list_removals, pick
from . import fakejack, forked
import jack
import sumpf
import connectors

LABEL_POOL = ["left", "right", "a", "b c", "sweep", "äö", "output_2", "output_1", ""]
NAME = "SuMPF"
PROPERTIES = ("J01", "J02", "J03", "J04", "J05", "J06", "J07", "J08")

# ----------------------------------------------------------------- generation


def gen_signal(rng, index, block, keep=None):
    channels = pick(rng, {0: 0.5, 1: 4, 2: 4, 3: 2}) if keep is None else keep["channels"]
    length = pick(rng, {"short": 2, "multiple": 3, "any": 5, "one": 0.5, "long": 1.5})
    length = {"short": rng.randint(1, block), "multiple": block * rng.randint(1, 4), "one": 1,
              "any": rng.randint(block // 2 + 1, block * 5), "long": rng.randint(block * 4, block * 9)}[length]
    if keep is not None:
        labels = list(keep["labels"])
    elif rng.random() < 0.3:
        labels = [rng.choice(LABEL_POOL)] * channels
    else:
        labels = [rng.choice(LABEL_POOL) for _ in range(channels)]
    return {"index": index, "channels": channels, "length": length, "labels": labels,
            "offset": rng.choice([0, 0, 3, -7]), "rate": rng.choice([44100.0, 48000.0, 7.0])}


def generate(rng, focus):
    """Creates a case.

    :param focus: the property, towards which the mix of operations is biased
    """
    block = rng.choice([8, 16, 16, 32, 64])
    cfg = {"blocksize": block, "samplerate": rng.choice([8000, 44100, 48000]),
           "preempt": rng.choice([0.01, 0.05, 0.1, 0.3, 0.5] if focus in ("J01", "J03") else [0.0, 0.01, 0.05, 0.1, 0.3]), "advance": rng.choice([0.0, 0.1, 0.3, 0.6]),
           "captures": rng.randint(1, 3), "playbacks": rng.randint(1, 2)}
    faulty = rng.random() < (0.85 if focus == "J07" else 0.6)
    kinds = []
    if faulty:
        kinds = [k for k in ("xrun", "stall", "blocksize", "samplerate", "shutdown") if rng.random() < (0.25 if k == "shutdown" else 0.5)]
        if focus == "J07" and not set(kinds) & {"xrun", "samplerate"}:
            kinds.append(rng.choice(["xrun", "xrun", "samplerate"]))
        if focus in ("J01", "J02", "J04", "J05", "J06", "J08") and rng.random() < 0.7:
            kinds = [k for k in kinds if k != "shutdown"]
    signals = 0
    spec = gen_signal(rng, signals, block)
    auto = rng.random() < 0.6
    inputs = [f"in_{chr(97 + i)}" for i in range(pick(rng, {0: 0.5, 1: 2, 2: 3, 3: 3, 4: 1} if focus in ("J05", "J06") else {0: 0.5, 1: 3, 2: 4, 3: 1}))]
    if focus in ("J06", "J08") and rng.random() < 0.04:     # a block without ports
        inputs = []
        spec = dict(spec, channels=0, labels=[])
    new = {"auto": auto, "signal": spec, "inputs": list(inputs), "observe": pick(rng, {False: 5, True: 2, "all": 3})}
    ops = []
    # the state of the model
    active = not auto
    running = False
    frozen = False      # connections are pending by name, so the labels must not change
    fresh = [len(inputs)]
    n_ops = rng.randint(3, 16)
    rewire = 3.0 if focus in ("J05", "J06") else 1.0
    paused = False
    while len(ops) < n_ops:
        if running:
            w = {"output": 5, "input": 2, "sleep": 2, "auto": 0.6 if not auto else 0.0, "query": 1, "pause": 0.0 if auto else 1.0}
            if focus in ("J03", "J08"):
                w["input"] = 4
            if not auto:
                w["connect"] = 0.5 * rewire
                w["ext_connect"] = 0.5 * rewire
                w["ext_disconnect"] = 0.3 * rewire
        else:
            w = {"start": 7, "input": 2 * rewire, "connect": 3 * rewire, "add": 0.8 * rewire, "remove": 0.6 * rewire, "activate": 0.6 * rewire,
                 "deactivate": 0.6 * rewire, "auto": 0.5, "sleep": 0.5, "query": 0.5, "output": 0.5, "unknown": 0.2 * rewire}
            if not spec["channels"]:
                w["start"] = 0      # it would not be visible, when the take takes place
            if active:
                w["ext_connect"] = 0.7 * rewire
                w["ext_disconnect"] = 0.5 * rewire
        op = pick(rng, w)
        if focus == "J05" and not running and not active and ops and ops[-1][0] == "connect" and rng.random() < 0.25:
            op = "remove"       # a port is removed, while connections are pending
        if op == "start":
            ops.append(["start"])
            running = True
            active = True
            frozen = False
        elif op == "output":
            ops.append(["output"])
            if running:
                running = False
                active = not auto
        elif op == "input":
            signals += 1
            spec = gen_signal(rng, signals, block, keep=spec if frozen or rng.random() < 0.3 else None)
            if rng.random() < 0.15:
                spec = clone(spec)
                spec["index"] = max(0, signals - 1)
            ops.append(["input", spec])
            if running:
                running = False
                active = not auto
        elif op == "sleep":
            ops.append(["sleep", rng.choice([0.3, 1.0, 2.5, 6.0])])
        elif op == "query":
            ops.append([rng.choice(["xruns", "sampling_rate", "input_ports"])])
        elif op == "pause":
            ops.append(["deactivate"])
            if rng.random() < 0.5:
                ops.append(["sleep", rng.choice([0.3, 2.5])])
            ops.append(["activate"])
        elif op == "auto":
            if running:
                ops.append(["auto", True])
                auto = True
                running = False
                active = False
            else:
                auto = rng.random() < 0.5
                ops.append(["auto", auto])
                if auto:
                    active = False
        elif op == "activate":
            ops.append(["activate"])
            active = True
            frozen = False
        elif op == "deactivate":
            ops.append(["deactivate"])
            active = False
        elif op == "add":
            if len(inputs) < 4:
                name = f"in_{chr(97 + fresh[0])}"
                fresh[0] += 1
                inputs.append(name)
                ops.append(["add", name])
        elif op == "remove":
            if inputs:
                i = rng.randrange(len(inputs))
                ops.append(["remove", inputs[i], rng.choice(["index", "short", "full", "object"])])
                del inputs[i]
        elif op in ("connect", "ext_connect", "ext_disconnect"):
            kind = pick(rng, {"loop": 4 if inputs and spec["channels"] else 0, "capture": 3 if inputs else 0, "playback": 2 if spec["channels"] else 0, "none": 0.0 if inputs or spec["channels"] else 1.0})
            if kind == "none":      # there are no ports
                continue
            out_as = rng.choice(["index", "short", "full", "object"])
            in_as = rng.choice(["index", "short", "full", "object"])
            if not active:      # port objects are only known to an active client, if at all
                out_as = "index" if out_as == "object" else out_as
                in_as = "short" if in_as == "object" else in_as
            o = ["own", rng.randrange(spec["channels"]), out_as] if kind != "capture" else ["ext", f"system:capture_{rng.randint(1, cfg['captures'])}"]
            i = ["own", rng.choice(inputs), in_as] if kind != "playback" else ["ext", f"system:playback_{rng.randint(1, cfg['playbacks'])}"]
            ops.append([op, o, i])
            if not active and kind != "capture" and out_as != "index":
                frozen = True
        elif op == "unknown":
            ops.append(["unknown", rng.choice(["out", "in", "connect", "connect", "in", "type"]), rng.randrange(24)])
    if running:
        ops.append(["output"])
        running = False
    if rng.random() < (0.6 if focus == "J08" else 0.25):
        ops.append(["del"])
    faults = []
    if kinds:
        for _ in range(rng.randint(1, 5)):
            kind = rng.choice(kinds)
            starts = [k for k, o in enumerate(ops) if o[0] == "start"] or [0]
            k = rng.choice(starts) if rng.random() < 0.8 else rng.randrange(len(ops))
            after = rng.choice([0, 0, 1, 1, 2, 3, 5, 8])
            if kind == "xrun":
                arg = [rng.choice([0.0, 100.0, 250.0, 1234.5, 20000.0]), rng.choice([0, 0, 8, 64])]
            elif kind == "stall":
                arg = rng.choice([10 ** 5, 10 ** 7, 10 ** 9])
            elif kind == "blocksize":
                arg = rng.choice([8, 16, 32, 64, 128])
            elif kind == "samplerate":
                arg = rng.choice([16000, 22050, 96000])
            else:
                if any(f[2] == "shutdown" for f in faults):
                    continue
                arg = 0
            faults.append([k, after, kind, arg])
        faults.sort(key=lambda f: (f[0], f[1]))
    return {"workload": "jack", "cfg": cfg, "new": new, "ops": ops, "faults": faults,
            "sched_seed": rng.getrandbits(48), "schedule": None}


def valid(case):
    """Checks, whether a shrunk case is still a program, for which the properties are promised"""
    inputs = list(case["new"]["inputs"])
    channels = case["new"]["signal"]["channels"]
    labels = case["new"]["signal"]["labels"]
    auto = case["new"]["auto"]
    active = not auto
    running = paused = False
    frozen = None
    if len(labels) != channels:
        return False
    for op in case["ops"]:
        k = op[0]
        if paused and k not in ("activate", "sleep"):
            return False
        if k == "start":
            if running or not channels:
                return False
            running = active = True
            frozen = None
        elif k in ("output", "input"):
            if k == "input":
                if frozen is not None and op[1]["labels"] != frozen:
                    return False
                channels = op[1]["channels"]
                labels = op[1]["labels"]
                if len(labels) != channels:
                    return False
            if running:
                running = False
                active = not auto
        elif k == "auto":
            if running and (auto or not op[1]):
                return False
            auto = op[1]
            if auto:
                running = active = False
        elif k == "activate":
            paused = False
            active = True
            frozen = None
        elif k == "deactivate":
            if running:
                if auto:
                    return False
                paused = True
            active = False
        elif k == "add":
            if running or op[1] in inputs:
                return False
            inputs.append(op[1])
        elif k == "remove":
            if running or op[1] not in inputs:
                return False
            inputs.remove(op[1])
        elif k in ("connect", "ext_connect", "ext_disconnect"):
            if running and auto:
                return False
            if k != "connect" and not active:
                return False
            if op[1][0] == "own":
                if op[1][1] >= channels or (not active and op[1][2] == "object"):
                    return False
                if not active and op[1][2] != "index":
                    frozen = labels
            if op[2][0] == "own" and (op[2][1] not in inputs or (not active and op[2][2] == "object")):
                return False
        elif k == "unknown" and running:
            return False
    return not running and not paused


def shrink(case):
    """Yields smaller cases"""
    for ops_index in list_removals(list(range(len(case["ops"])))):
        c = clone(case)
        c["ops"] = [case["ops"][i] for i in ops_index]
        position = {old: new for new, old in enumerate(ops_index)}
        c["faults"] = [[position[f[0]]] + f[1:] for f in case["faults"] if f[0] in position]
        if valid(c):
            yield c
    for faults in list_removals(case["faults"]):
        c = clone(case)
        c["faults"] = clone(faults)
        yield c
    if case["schedule"]:
        for schedule in list_removals(case["schedule"]):
            c = clone(case)
            c["schedule"] = schedule
            yield c
    for key, value in (("preempt", 0.0), ("advance", 0.0), ("captures", 1), ("playbacks", 1), ("blocksize", 8)):
        if case["cfg"][key] != value and (key not in ("captures", "playbacks") or not any(f"{key[:-1]}_2" in str(o) or f"{key[:-1]}_3" in str(o) for o in case["ops"])):
            c = clone(case)
            c["cfg"][key] = value
            yield c
    specs = [("new", None)] + [("op", i) for i, o in enumerate(case["ops"]) if o[0] == "input"]
    for where, i in specs:
        spec = case["new"]["signal"] if where == "new" else case["ops"][i][1]
        for key, value in (("length", 1), ("length", spec["length"] // 2), ("length", spec["length"] - 1), ("channels", spec["channels"] - 1),
                           ("offset", 0), ("labels", [""] * spec["channels"])):
            if value == spec[key] or (key in ("length", "channels") and value < 1):
                continue
            c = clone(case)
            s = c["new"]["signal"] if where == "new" else c["ops"][i][1]
            s[key] = value
            if key == "channels":
                s["labels"] = s["labels"][:value]
            if valid(c):
                yield c
    if case["new"]["inputs"]:
        for i in range(len(case["new"]["inputs"])):
            c = clone(case)
            del c["new"]["inputs"][i]
            if valid(c):
                yield c
    if case["new"].get("observe"):
        c = clone(case)
        c["new"]["observe"] = False
        yield c

# ------------------------------------------------------------------ execution


def signal_values(spec):
    """The samples of a playback signal: all are unique, not zero and exactly representable as float32"""
    c = numpy.arange(spec["channels"])[:, numpy.newaxis]
    n = numpy.arange(spec["length"])[numpy.newaxis, :]
    return (1 + (spec["index"] % 12) * 4 + c) + (n % 1024 + 1) / 2048.0


def make_signal(spec):
    return sumpf.Signal(channels=signal_values(spec), sampling_rate=spec["rate"], offset=spec["offset"], labels=tuple(spec["labels"]))


class Observer:
    """A block at the end of a processing chain, that is evaluated lazily (non-lazy inputs require an older version of Python)"""

    def __init__(self):
        self.__value = None

    @connectors.Input("get")
    def put(self, value):
        self.__value = value
        return self

    @connectors.Output()
    def get(self):
        return self.__value


class Take:
    def __init__(self, spec, seq):
        self.spec = spec
        self.start_begin = seq
        self.start_end = None
        self.finished = None        # the sequence number of the return of the operation, that has waited for it
        self.aborted = False        # by a shutdown of the server
        self.inputs = None
        self.result = None
        self.first = None           # index of the frame in the concatenated stream


class Execution:
    def __init__(self, case):
        self.case = case
        self.out = Outcome()
        cfg = case["cfg"]
        self.sched = S.Scheduler(seed=case["sched_seed"], schedule=case["schedule"], preempt=cfg["preempt"], advance=cfg["advance"],
                                 max_steps=400000, trace_prefixes=(sumpf.__path__[0],))
        self.server = fakejack.Server(self.sched, cfg["samplerate"], cfg["blocksize"], cfg["captures"], cfg["playbacks"])
        self.server.watch = self.watch
        self.faults = [list(f) for f in case["faults"]]
        self.armed = []             # [cycles left, kind, argument]
        self.op = "new"
        self.takes = []
        self.blocked_cycles = 0
        self.block_limit = 0
        self.observers = None
        self.xruns_seen = []
        self.broken = False         # an operation has failed after a shutdown of the server
        self.snapshots = []         # (signal, copy of the channels, name)
        self.inputs_given = []
        self.jack = None
        self.active = None
        self.auto = case["new"]["auto"]
        self.ports = list(case["new"]["inputs"])
        self.signal_spec = case["new"]["signal"]
        self.connections = set()
        self.optional = set()
        self.down = False
        self.finished_program = False
        self.progress_log = []
        self.op_results = []
        self.max_block = max([cfg["blocksize"]] + [f[3] for f in case["faults"] if f[2] == "blocksize"])
        self.min_block = min([cfg["blocksize"]] + [f[3] for f in case["faults"] if f[2] == "blocksize"])
        self.blocks = {cfg["blocksize"]} | {f[3] for f in case["faults"] if f[2] == "blocksize"}
        self.rates = [cfg["samplerate"]] + [f[3] for f in case["faults"] if f[2] == "samplerate"]

    # ---- the server side

    def watch(self):
        """is called by the driver after each cycle"""
        if self.server.pending_faults:
            return
        still = []
        for a in self.armed:
            a[0] -= 1
            if a[0] < 0:
                self.server.pending_faults.append((a[1], a[2]))
            else:
                still.append(a)
        self.armed = still
        user = self.user_thread
        if user.state == "blocked" and user.predicate is not None and user.why != "lib":
            self.blocked_cycles += 1
            if self.blocked_cycles > self.block_limit:
                self.out.violate("J03", f"blocked:{self.op}", f"the operation {self.op} does not return after {self.blocked_cycles} cycles of the server")
                self.sched.fail(S.Deadlock("liveness"))
        else:
            self.blocked_cycles = 0
        if len(self.server.cycles) > 3000:
            self.sched.fail(S.StepLimit("too many cycles"))

    def arm(self, index):
        for f in [f for f in self.faults if f[0] == index]:
            self.faults.remove(f)
            self.armed.append([f[1], f[2], f[3]])

    # ---- the user

    def user(self):
        s = self.sched
        new = self.case["new"]
        signal = make_signal(new["signal"])
        self.inputs_given.append((signal, signal.channels().copy()))
        self.jack = sumpf.Jack(NAME, input_signal=signal, input_ports=tuple(new["inputs"]), auto_deactivate=new["auto"])
        self.client = list(self.server.clients.values())[0]
        self.py_client = self.server.client_objects[0]
        self.active = not new["auto"]
        if new.get("observe"):
            self.observers = (Observer(), Observer(), Observer())
            self.jack.xruns.connect(self.observers[0].put)
            self.jack.sampling_rate.connect(self.observers[1].put)
            if new["observe"] == "all":
                self.jack.output.connect(self.observers[2].put)
                self.jack.input_ports.connect(Observer().put)
        self.check_state("new")
        for i, op in enumerate(self.case["ops"]):
            self.arm(i)
            if self.broken and op[0] not in ("output", "del", "sleep", "xruns", "sampling_rate"):
                continue
            self.op = op[0]
            s.event("op", i, *map(str, op))
            s.yield_point("op")
            begin = self.server.seq()
            remaining = max([t.spec["length"] for t in self.takes] + [self.signal_spec["length"]])
            self.block_limit = remaining // self.min_block + 40
            self.blocked_cycles = 0
            try:
                result = getattr(self, "do_" + op[0])(*op[1:])
                error = None
            except S.SimAbort:
                raise
            except Exception as e:  # pylint: disable=broad-except; it is judged below
                result = None
                error = e
            end = self.server.seq()
            self.down = self.down or not self.server.alive
            s.event("op-end", i, describe(error) if error is not None else "ok")
            self.op_results.append((i, op, begin, end, error and describe(error)))
            self.out.stats["op:" + op[0]] += 1
            if error is not None:
                if not self.down:
                    pid = {"connect": "J05", "add": "J06", "remove": "J06", "unknown": "J06", "input_ports": "J06", "xruns": "J07", "sampling_rate": "J07",
                           "del": "J08"}.get(op[0], "J03")
                    if op[0] in ("activate", "deactivate", "start", "input") and isinstance(error, (jack.JackError, IndexError, ValueError)):
                        pid = "J05"     # re-establishing the connections has failed
                        self.out.violate("J03", f"error:{op[0]}", f"{op} has raised {describe(error)}")
                    self.out.violate(pid, f"error:{op[0]}", f"{op} has raised {describe(error)}")
                    s.fail(S.Deadlock("error"))
                elif not isinstance(error, jack.JackError):
                    if new.get("observe") == "all":     # the connectors package does not support exceptions in connected methods
                        break
                    self.out.violate("J03", f"error-after-shutdown:{op[0]}", f"after a shutdown of the server, {op} has raised {describe(error)} instead of a JackError")
                    s.fail(S.Deadlock("error"))
                else:
                    self.out.stats["jack-error-after-shutdown"] += 1
                    if op[0] == "start":
                        self.takes.pop()
                error = None
                self.broken = True
            if not self.down and op[0] not in ("del",):
                self.check_state(op[0])
        self.op = "end"
        # let the notifications be processed
        s.block(lambda: not self.server.notifications, s.now + int(60e9), "settle")
        s.sleep(3.0 * self.max_block / min(self.rates))
        if self.jack is not None:
            s.block(lambda: not self.server.notifying and not self.server.notifications, s.now + int(60e9), "settle")
            self.server.gate = True
            self.xruns_final = self.jack.xruns()
            self.rate_final = self.jack.sampling_rate()
            if self.observers is not None:
                self.observed_final = self.observers[0].get(), self.observers[1].get()
        self.finished_program = True

    def running(self):
        return bool(self.takes) and self.takes[-1].finished is None and not self.takes[-1].aborted

    def take_done(self, begin):
        t = self.takes[-1] if self.takes else None
        if t is not None and t.finished is None:
            t.finished = self.server.seq()
            if not self.server.alive:
                t.aborted = True
            self.active = self.active and not self.auto
            return t
        return None

    def do_start(self):
        t = Take(self.signal_spec, self.server.seq())
        t.inputs = list(self.ports)
        self.takes.append(t)
        result = self.jack.start()
        t.start_end = self.server.seq()
        self.active = True
        if result is not self.jack and not self.down:
            self.out.violate("J03", "start-return", "start has not returned its instance")

    def do_output(self):
        begin = self.server.seq()
        if self.case["new"].get("observe") == "all" and self.sched.steps % 2:
            signal = self.observers[2].get()
        else:
            signal = self.jack.output()
        t = self.take_done(begin)
        if t is not None and not self.broken:
            t.result = (signal, t.inputs, t.spec, self.down or not self.server.alive)
            self.snapshots.append((signal, signal.channels().copy(), f"take {len(self.takes)}"))
            self.out.stats["takes"] += 1
            self.rate_at_output(signal)

    def rate_at_output(self, signal):
        if signal.sampling_rate() not in [float(r) for r in self.rates]:
            self.out.violate("J02", "rate", f"the recording's sampling rate is {signal.sampling_rate()} instead of {self.rates}")
        if len(self.rates) == 1 and signal.sampling_rate() != float(self.rates[0]):
            self.out.violate("J02", "rate", f"the recording's sampling rate is {signal.sampling_rate()}")

    def do_input(self, spec):
        begin = self.server.seq()
        signal = make_signal(spec)
        self.inputs_given.append((signal, signal.channels().copy()))
        was = self.signal_spec
        self.jack.input(signal)
        self.take_done(begin)
        self.signal_spec = spec
        if spec["channels"] < was["channels"] or True:
            lost = {c for c in self.connections if c[0][0] == "o" and c[0][1] >= spec["channels"]}
            self.connections -= lost
            self.optional |= lost

    def do_auto(self, value):
        begin = self.server.seq()
        self.jack.auto_deactivate(value)
        self.auto = value
        if value:
            self.take_done(begin)
            self.active = False

    def do_sleep(self, blocks):
        self.sched.sleep(blocks * self.server.blocksize / self.server.samplerate)

    def do_activate(self):
        self.jack.activate()
        self.active = True

    def do_deactivate(self):
        self.jack.deactivate()
        self.active = False

    def do_add(self, name):
        result = self.jack.add_input_port(name)
        if result != name:
            self.out.violate("J06", "add-return", f"add_input_port has returned {result!r} instead of {name!r}")
        self.ports.append(name)

    def do_remove(self, name, how):
        i = self.ports.index(name)
        specifier = self.spec_in(name, how)
        self.jack.remove_input_port(specifier)
        del self.ports[i]
        self.connections = {c for c in self.connections if c[1] != ("i", name)}
        self.optional = {c for c in self.optional if c[1] != ("i", name)}

    def spec_in(self, name, how):
        if how == "index":
            return self.ports.index(name)
        if how == "short":
            return name
        if how == "full":
            return f"{NAME}:{name}"
        return [p for p in self.py_client().inports if p.shortname == name][0]

    def spec_out(self, index, how):
        if how == "index":
            return index
        names = [p.shortname for p in self.py_client().outports]
        if how == "short":
            return names[index]
        if how == "full":
            return f"{NAME}:{names[index]}"
        return self.py_client().outports[index]

    def resolve(self, o, i):
        a = self.spec_out(o[1], o[2]) if o[0] == "own" else o[1]
        b = self.spec_in(i[1], i[2]) if i[0] == "own" else i[1]
        key = (("o", o[1]) if o[0] == "own" else ("x", o[1]), ("i", i[1]) if i[0] == "own" else ("x", i[1]))
        return a, b, key

    def do_connect(self, o, i):
        a, b, key = self.resolve(o, i)
        self.jack.connect(a, b)
        self.connections.add(key)
        self.optional.discard(key)

    def full(self, key):
        o, i = key
        outs = [p.shortname for p in self.py_client().outports]
        return (f"{NAME}:{outs[o[1]]}" if o[0] == "o" else o[1], f"{NAME}:{i[1]}" if i[0] == "i" else i[1])

    def do_ext_connect(self, o, i):
        key = self.resolve(o, i)[2]
        if self.server.external_connect(*self.full(key)):
            self.connections.add(key)
            self.optional.discard(key)
            self.server.count("external connect")

    def do_ext_disconnect(self, o, i):
        if not self.connections:
            return
        key = sorted(self.connections)[(o[1] if isinstance(o[1], int) else 0) % len(self.connections)]
        if self.server.external_disconnect(*self.full(key)):
            self.connections.discard(key)
            self.optional.discard(key)
            self.server.count("external disconnect")

    def similar_name(self, n, names):
        """:returns: a name, that is similar to that of a port, but not the name of any port"""
        name = names[n % len(names)] if names else ""
        variants = ("no such port", name[1:], name[:-1], name + "_", name.upper(), ":" + name, f"{NAME}:", NAME, f"{NAME}:{name[1:]}", f"{NAME}:{name}_", f"other:{name}", "")
        variant = variants[n // 2 % len(variants)]
        known = {p for port in [x.name for x in self.server.ports.values()] for p in (port, port.split(":", 1)[-1])}
        return "no such port" if variant in known else variant

    def do_unknown(self, what, n=0):
        try:
            if what == "out":
                self.jack.connect(self.similar_name(n, [p.shortname for p in self.py_client().outports]), 0 if self.ports else "system:playback_1")
            elif what == "connect":
                self.jack.connect(0 if len(self.py_client().outports) else "system:capture_1", self.similar_name(n, self.ports))
            elif what == "in":
                self.jack.remove_input_port(self.similar_name(n, self.ports))
            else:
                self.jack.remove_input_port(1.5)
        except ValueError:
            pass
        except jack.JackError:
            if self.server.alive:
                raise
        else:
            self.out.violate("J06", "unknown-port", "an unknown port specifier has not lead to a ValueError")

    def query(self, function):
        """The connectors package does not allow to retrieve a value through a connected output, while another thread is updating it.
        So if there are observers, these two things are not done at the same time."""
        if self.observers is None:
            return function()
        self.sched.block(lambda: not self.server.notifying, self.sched.now + int(60e9), "settle")
        self.server.gate = True
        try:
            return function()
        finally:
            self.server.gate = False

    def do_xruns(self):
        total = sum(1 for h in self.server.history_notifications if h[0] == "xrun")
        source = self.jack.xruns if self.observers is None or self.sched.steps % 2 else self.observers[0].get
        n, x = self.query(source)
        self.xruns_seen.append((n, x))
        if n < total or (n == 0) != (x is None):
            self.out.violate("J07", "xrun-count", f"xruns returned {(n, x)} although {total} have been notified")

    def do_sampling_rate(self):
        source = self.jack.sampling_rate if self.observers is None or self.sched.steps % 2 else self.observers[1].get
        r = self.query(source)
        if r not in [float(x) for x in self.rates]:
            self.out.violate("J07", "sampling-rate", f"the sampling rate is {r}")

    def do_input_ports(self):
        names = self.jack.input_ports()
        if list(names) != self.ports:
            self.out.violate("J06", "input-ports", f"input_ports has returned {names} instead of {self.ports}")

    def do_del(self):
        self.xruns_final = self.query(self.jack.xruns)
        self.rate_final = self.query(self.jack.sampling_rate)
        if self.running():
            self.takes[-1].aborted = True
        self.jack = None
        gc.collect()
        limit = len(self.server.cycles) + 300   # a cycle, that is being processed, or the thread, that closes the client, may delay it
        self.sched.block(lambda: self.client.closed or not self.server.alive or len(self.server.cycles) > limit, None, "del")
        if not self.client.closed:
            self.out.violate("J08", "not-closed", "the client is still known to the server after the instance has been deleted")

    # ---- checks of the state after an operation

    def check_state(self, op):
        if not self.server.alive or self.server.pending_faults:
            return
        running = self.running()
        server = self.server
        client = self.client
        if not running or not self.auto:
            expected = self.active
            if not running or True:
                if client.active != expected and not (running and self.auto):
                    self.out.violate("J08", f"active:{op}", f"after {op} the client is {'active' if client.active else 'inactive'}")
        # port names
        outs = [p.shortname for p in self.py_client().outports]
        registered = [p.shortname for p in server.own_ports(NAME, fakejack.IS_OUTPUT)]
        ins = [p.shortname for p in self.py_client().inports]
        registered_in = [p.shortname for p in server.own_ports(NAME, fakejack.IS_INPUT)]
        labels = self.signal_spec["labels"]
        if sorted(outs) != sorted(registered) or len(registered) != self.signal_spec["channels"]:
            self.out.violate("J06", f"outputs:{op}", f"the output ports are {registered} for the labels {labels}")
        elif len(set(outs)) != len(outs):
            self.out.violate("J06", f"unique:{op}", f"the output ports {outs} are not unique")
        else:
            for label, name in zip(labels, outs):
                if label and labels.count(label) == 1 and not label.startswith("output_") and label != name:
                    self.out.violate("J06", f"label:{op}", f"the output ports are {outs} for the labels {labels}")
            for i, label in enumerate(labels):
                if label and labels.index(label) == i and not label.startswith("output_") and outs[i] != label:
                    self.out.violate("J06", f"label:{op}", f"the output ports are {outs} for the labels {labels}")
        if ins != self.ports or sorted(registered_in) != sorted(self.ports):
            self.out.violate("J06", f"inputs:{op}", f"the input ports are {ins} ({registered_in}) instead of {self.ports}")
        # connections
        if client.active and not (running and self.auto) and not self.out.violations:
            actual = server.connection_names(NAME)
            expected = {self.full(c) for c in self.connections}
            optional = {self.full(c) for c in self.optional if c[0][0] != "o" or c[0][1] < len(outs)}
            missing = expected - actual
            surplus = actual - expected - optional
            if missing:
                self.out.violate("J05", f"missing:{op}", f"after {op} the connections {sorted(missing)} are missing; existing: {sorted(actual)}")
            if surplus:
                self.out.violate("J05", f"surplus:{op}", f"after {op} the connections {sorted(surplus)} are surplus; expected: {sorted(expected)}")
            if expected:
                self.out.stats["probe:connections checked"] += 1

    # ---- checks of the history

    def check_history(self):
        out = self.out
        server = self.server
        cycles = [c for c in server.cycles if c.client == NAME]
        # playback: for each take find the samples in the concatenation of all cycles
        position = 0        # index of the cycle
        take = 0
        offset = None       # the number of samples of the current take, that have been played
        places = []         # for each take a list of (cycle index, first sample in the block, first sample in the take, count)
        for n, c in enumerate(cycles):
            frames = c.frames
            p = 0
            while p < frames:
                if offset is None:
                    nz = [numpy.flatnonzero(a[p:]) for _, a in c.outs]
                    first = min([int(z[0]) for z in nz if len(z)], default=None)
                    if first is None:
                        break
                    if take >= len(self.takes) or self.takes[take].start_begin > c.end_seq:
                        what = "J01", "noise", f"cycle {n} (after take {take}) plays samples, although nothing has been started: {[(k, a[p + first]) for k, a in c.outs][0:2]}"
                        out.violate(*what)
                        return None
                    p += first
                    offset = 0
                    places.append([])
                t = self.takes[take]
                values = signal_values(t.spec).astype(numpy.float32)
                k = min(frames - p, t.spec["length"] - offset)
                if len(c.outs) != t.spec["channels"]:
                    if self.down or t.aborted:
                        return places
                    out.violate("J01", "channels", f"{len(c.outs)} ports while playing a signal with {t.spec['channels']} channels")
                    return None
                for ch, (name, a) in enumerate(c.outs):
                    if not numpy.array_equal(a[p:p + k], values[ch, offset:offset + k]):
                        if not numpy.any(a[p:p + k]) and t.aborted:
                            return places
                        bad = int(numpy.flatnonzero(a[p:p + k] != values[ch, offset:offset + k])[0])
                        out.violate("J01", "samples", f"take {take + 1}, port {name}: sample {offset + bad} of {t.spec['length']} should be {values[ch, offset + bad]}, but is {a[p + bad]}")
                        return None
                places[-1].append((n, p, offset, k))
                p += k
                offset += k
                if offset == t.spec["length"]:
                    offset = None
                    take += 1
        self.unfinished = offset
        self.played = take
        return places

    def check_takes(self, places):
        out = self.out
        cycles = [c for c in self.server.cycles if c.client == NAME]
        for k, t in enumerate(self.takes):
            complete = k < self.played
            if not complete and not t.aborted and t.finished is not None and not self.down:
                out.violate("J03" if t.finished else "J01", "incomplete", f"take {k + 1} has been reported as finished, but only {sum(x[3] for x in places[k]) if k < len(places) else 0} of {t.spec['length']} samples have been played")
                continue
            if complete and k < len(places):
                last = cycles[places[k][-1][0]]
                if t.finished is not None and last.begin_seq > t.finished and not self.down:
                    out.violate("J03", "early", f"the recording of take {k + 1} has been returned before it was complete")
                first = cycles[places[k][0][0]]
                late = [c for c in cycles if t.start_end is not None and c.begin_seq > t.start_end and c.number < first.number]
                if len(late) > 2:
                    out.violate("J03", "late", f"take {k + 1} has begun {len(late)} cycles after its start")
                out.stats["takes played"] += 1
            if t.result is None:
                continue
            signal, ports, spec, down = t.result
            if signal.shape() != (len(ports), spec["length"]):
                if len(ports) == 0 and signal.length() in (0, spec["length"]):
                    continue
                out.violate("J02", "shape", f"the recording has the shape {signal.shape()} instead of {(len(ports), spec['length'])}")
                continue
            if not down and tuple(signal.labels()) != tuple(ports):
                out.violate("J02", "labels", f"the recording's labels are {signal.labels()} instead of {ports}")
            if signal.offset() != spec["offset"]:
                out.violate("J02", "offset", f"the recording's offset is {signal.offset()} instead of {spec['offset']}")
            expected = numpy.zeros((len(ports), spec["length"]))
            known = 0
            for n, p, o, count in (places[k] if k < len(places) else []):
                c = cycles[n]
                ins = dict(c.ins)
                for j, name in enumerate(ports):
                    if name in ins:
                        expected[j, o:o + count] = ins[name][p:p + count]
                known = o + count
            channels = signal.channels()
            if not numpy.array_equal(channels[:, :known], expected[:, :known]):
                j, n = [int(x[0]) for x in numpy.nonzero(channels[:, :known] != expected[:, :known])]
                out.violate("J02", "samples", f"take {k + 1}: the recorded sample {n} of channel {ports[j]} is {channels[j, n]} instead of {expected[j, n]}")
            elif numpy.any(channels[:, known:]):
                out.violate("J02", "garbage", f"take {k + 1}: the samples after the shutdown of the server are not zero")
            if numpy.any(expected):
                out.stats["probe:recorded audio"] += 1
            if spec["length"] % self.case["cfg"]["blocksize"] and spec["length"] > self.case["cfg"]["blocksize"]:
                out.stats["probe:partial last block"] += 1

    def check_xruns(self, places):
        out = self.out
        xruns = [h for h in self.server.history_notifications if h[0] == "xrun"]
        rates = [h for h in self.server.history_notifications if h[0] == "samplerate"]
        for kind, arg, begin, end, ret in self.server.history_notifications:
            if kind in ("xrun", "samplerate") and ret != 0 and not self.client.closed:
                out.violate("J07", f"callback-error:{kind}", f"the {kind} callback has failed: {self.stderr.getvalue()[-300:]}")
                return
        if self.jack is not None:
            n, x = self.xruns_final
            rate = self.rate_final
        elif hasattr(self, "xruns_final"):
            n, x = self.xruns_final
            rate = self.rate_final
            xruns = xruns[:n] if n <= len(xruns) else xruns
            rates = rates if rates and float(rates[-1][1]) == rate else []
            if not rates:
                rate = None
        else:
            return
        if n != len(xruns):
            out.violate("J07", "xrun-count", f"{n} xruns are counted instead of {len(xruns)}")
            return
        expected_rate = float(rates[-1][1]) if rates else float(self.case["cfg"]["samplerate"])
        if rate is not None and rate != expected_rate:
            out.violate("J07", "sampling-rate", f"the sampling rate is {rate} instead of {expected_rate}")
        values = [v for v in self.xruns_seen if v[0]] + ([(n, x)] if n else [])
        if self.jack is not None and self.observers is not None:
            seen, seen_rate = self.observed_final
            if seen is None or seen[0] != n or seen[1] is not x:
                out.violate("J07", "xrun-observer", f"a connected block gets {seen} instead of {(n, x)}")
                return
            if seen_rate != expected_rate:
                out.violate("J07", "rate-observer", f"a connected block gets the sampling rate {seen_rate}, but it has changed to {expected_rate}")
            out.stats["probe:observers judged"] += 1
        for number, xrun in values:
            _, usecs, begin, end, _ = xruns[number - 1]
            if not abs(xrun.delay - usecs * 1e-6) <= 1e-9 * max(1.0, usecs * 1e-6):
                out.violate("J07", "xrun-delay", f"an xrun with a delay of {usecs} microseconds is reported with a delay of {xrun.delay} seconds")
            if xrun.stop - xrun.start not in self.blocks:
                out.violate("J07", "xrun-length", f"the xrun is reported from {xrun.start} to {xrun.stop}, but the block sizes are {self.blocks}")
            out.stats["probe:xrun judged"] += 1
            # the position in the take
            cycles = [c for c in self.server.cycles if c.client == NAME]
            for k, t in enumerate(self.takes):
                if k < len(places) and places[k] and t.start_end is not None and begin > t.start_end and (t.finished is None or end < t.finished):
                    before = sum(x[3] for x in places[k] if cycles[x[0]].end_seq < begin)
                    after = sum(x[3] for x in places[k] if cycles[x[0]].begin_seq < end)
                    if after < t.spec["length"] or before < t.spec["length"]:
                        out.stats["probe:xrun in a take"] += 1
                        if not before <= xrun.start <= after:
                            out.violate("J07", "xrun-start", f"the xrun is reported at sample {xrun.start}, but the transport was between {before} and {after}")

    # ----

    def run(self):
        forked.freeze()
        fakejack.install(self.server)
        self.stderr = io.StringIO()
        stderr = sys.stderr
        hook = sys.unraisablehook
        unraisable = self.unraisable = []
        gc_was = gc.isenabled()
        gc.disable()
        try:
            sys.stderr = self.stderr
            sys.unraisablehook = lambda a: unraisable.append("".join(traceback.format_exception(a.exc_value)) if a.exc_value is not None else "?")
            self.server.start()
            self.user_thread = self.sched.spawn(self.user, name="user")
            failure = self.sched.run()
            sys.stderr = stderr
            self.judge(failure)
        finally:
            sys.stderr = stderr
            self.jack = None
            self.observers = None
            self.user_thread = None
            gc.collect()
            sys.unraisablehook = hook
            if gc_was:
                gc.enable()
            fakejack.uninstall()
        out = self.out
        out.log = self.sched.log
        out.decisions = self.sched.decisions
        out.sim_ns = self.sched.now - self.sched.start_ns
        out.switch_hash = self.sched.switch_hash
        out.stats["preemptions"] += self.sched.preemptions
        out.stats["time stalls"] += self.sched.time_stalls
        out.stats["cycles"] += len(self.server.cycles)
        for k, v in self.server.fired.items():
            out.stats["fault:" + k] += v
        out.nontrivial = out.stats["takes played"] > 0 or out.stats["op:connect"] > 0
        return out

    def judge(self, failure):
        out = self.out
        if isinstance(failure, S.HarnessError):
            raise failure
        for t in self.sched.threads:
            if t.error is not None:
                if t.name == "user" and not self.down and self.op in ("new", "end"):
                    if self.op == "new":
                        out.violate("J06", "error:new", f"the instantiation has failed with {describe(t.error)}")
                    else:
                        out.violate("J07", "error:end", f"a retrieval of the state has failed with {describe(t.error)}")
                    return
                raise S.HarnessError(f"{t.name}: {describe(t.error)}") from t.error
        if str(failure) in ("error", "liveness"):       # has already been judged
            failure = None
        if isinstance(failure, S.Deadlock):
            out.violate("J03", f"deadlock:{self.op}", f"{self.op} never returns ({failure}){' after a shutdown of the server' if not self.server.alive else ''}")
        if isinstance(failure, S.StepLimit):
            out.violate("J03", f"endless:{self.op}", f"{self.op} never returns ({failure})")
        if not out.violations:
            self.judge_history()
            self.judge_results()
            return
        for judge in (self.judge_history, self.judge_results):      # other properties are judged as far as possible
            try:
                judge()
            except Exception as e:  # pylint: disable=broad-except; the state may be arbitrary
                out.stats["harness: history not judged"] += 1

    def judge_history(self):
        out = self.out
        if "Exception" in self.stderr.getvalue() or "Error" in self.stderr.getvalue():
            out.stats["callback errors"] += 1
            bad = [c for c in self.server.cycles if c.ret not in (0, 1)]
            if bad:
                out.violate("J01", "callback-error", f"the process callback has failed: {self.stderr.getvalue()[-400:]}")
                return
        places = self.check_history()
        if places is None:
            return
        self.check_takes(places)
        if self.finished_program:
            self.check_xruns(places)

    def judge_results(self):
        out = self.out
        for signal, copy, name in self.snapshots:
            out.stats["probe:recordings re-checked"] += 1
            if not numpy.array_equal(signal.channels(), copy):
                out.violate("J04", "changed", f"the recording of {name} has been changed after it had been returned")
        for signal, copy in self.inputs_given:
            if not numpy.array_equal(signal.channels(), copy):
                out.violate("J04", "input-changed", "a playback signal has been modified")


def execute(case):
    return Execution(case).run()
