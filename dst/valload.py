"""The workload for the operations with sumpf's data sets (properties V01 to V05, R01 and F01).

A case is a session: a pool of data sets, which is shared by all users, and for each user (thread) a history of operations on data
sets from the pool and on his own earlier results.  The simulator decides the thread schedule, the content of uninitialised memory,
which allocations fail, where an operation is interrupted, which optional libraries are missing and the entropy of the operating
system.  The results are judged by comparing them with those of another simulated execution of the same history, in which nothing
of that has happened, and by the invariant, that no data set and no array ever changes.
"""

import collections
import copy
import ctypes
import decimal
import gc
import hashlib
import importlib
import locale
import mmap
import multiprocessing
import os
import pickle
import random
import signal
import sys
import warnings
import connectors
import numpy
import sumpf
from dst import remote, forked, memory, operations, sched
from dst.base import Outcome, clone, describe, list_removals, pick

memory.install()
warnings.simplefilter("ignore")
try:
    import numexpr      # noqa; so that the forked processes do not have to import the libraries
    numexpr.set_num_threads(1)
    import scipy.signal     # noqa
    import scipy.stats      # noqa
except ImportError:
    pass
try:
    _libc = ctypes.CDLL(None)
    _mallopt = _libc.mallopt
except (OSError, AttributeError):
    _mallopt = None
M_PERTURB = -6
PREFIX = sumpf.__path__[0]
POISONS = (float("nan"), float("inf"), 1e30, -7.0, 1.0, 0.0)
_progress = mmap.mmap(-1, 1000)      # shared with the forked processes
TRANSFERS = ("pickle 2", "pickle 4", "pickle 5", "copy", "deepcopy", "process", "interpreter", "interpreter", "interpreter and back", "interpreter and back")
LIBRARIES = ("numexpr", "scipy", "soundfile", "jack")
FOCUS_OPERATIONS = {
    "R01": lambda name, op: "noise" in op["tags"] or name in ("rudin_shapiro", "array_operand", "fourier_transform", "window"),
    "F01": lambda name, op: "filter" in op["tags"] or "Filter" in str(op["kinds"]),
}


# ------------------------------------------------------------------ generation

SHARED_PARAMETERS = ("length", "overlap", "seed", "offset", "channels", "resolution", "pad")


def variation(rng, steps, names):
    """:returns: a step, which resembles one of the given steps: with other operands, one different parameter or as another operation with similar parameters"""
    s = {k: clone(v) for k, v in rng.choice(steps).items() if k in ("op", "p", "pick")}
    op = operations.REGISTRY[s["op"]]
    how = rng.randrange(5)
    if how == 0:        # another operation with the same kind of parameters
        siblings = [n for n, o in operations.REGISTRY.items() if o["parameters"] is op["parameters"] and o["kinds"] == op["kinds"] or n == s["op"]]
        s["op"] = rng.choice(siblings)
    elif how == 1:      # another operation, which shares some parameters
        other = operations.random_step(rng, names)
        for key in SHARED_PARAMETERS:
            if key in s["p"] and key in other["p"] and type(s["p"][key]) is type(other["p"][key]) and not (key == "length" and (s["p"][key] or 0) > 200):
                other["p"][key] = s["p"][key]
        return other
    elif how in (2, 3):
        fresh = op["parameters"](rng)
        if fresh:
            key = rng.choice(tuple(fresh))
            s["p"][key] = fresh[key]
    if rng.random() < 0.3:
        s["pick"] = [rng.randrange(1 << 16) for _ in s["pick"]]
    return s


def neighbour(rng, step):
    """:returns: the same operation with one or two different parameters"""
    s = {k: clone(v) for k, v in step.items() if k in ("op", "p", "pick")}
    for _ in range(rng.choice((0, 1, 1, 1, 1, 2, 2))):
        for _ in range(4):
            fresh = operations.REGISTRY[s["op"]]["parameters"](rng)
            if not fresh:
                break
            key = rng.choice(tuple(fresh))
            if repr(fresh[key]) != repr(s["p"].get(key)):
                s["p"][key] = fresh[key]
                break
    if rng.random() < 0.2:
        s["pick"] = [rng.randrange(1 << 16) for _ in s["pick"]]
    return s


def generate(rng, focus):
    names = tuple(n for n, op in operations.REGISTRY.items() if (focus not in FOCUS_OPERATIONS or FOCUS_OPERATIONS[focus](n, op)) and ("odd" not in op["tags"] or focus == "L01") and ("copy" not in op["tags"] or focus == "V07"))
    all_names = names
    if focus == "V05" and rng.random() < 0.5:
        names = tuple(n for n in names if operations.REGISTRY[n]["libraries"] or "numexpr" in operations.REGISTRY[n]["tags"])
    elif rng.random() < (0.9 if focus == "V06" else 0.75):     # concentrate on a few operations, so that they follow each other with different parameters
        names = tuple(rng.sample(names, min(len(names), rng.choice((1, 2, 3, 6, 12)))))
    same = focus == "V02" and rng.random() < 0.45       # all users do the same with other data sets, that have the same type and shape
    if same:
        names = tuple(rng.sample(tuple(n for n in all_names if operations.REGISTRY[n]["kinds"]) if rng.random() < 0.8 else all_names, rng.choice((1, 1, 2))))
    if focus == "R01" and rng.random() < 0.5:
        names = ("noise",) if rng.random() < 0.5 else ("noise", "mls", "window", "array_operand")
    sticky = rng.choice((0.3, 0.6, 0.85) if focus == "V06" else (0.0, 0.3, 0.7))
    kinds = ["Filter"] * 3 + [None] if focus == "F01" else [None]
    needed = [k for n in names for k in operations.REGISTRY[n]["kinds"]]
    if len(names) <= 3 and needed and focus != "F01":
        needed = [k for ks in needed for k in ((ks,) if isinstance(ks, str) else ks)]
        kinds = needed + [None]
        if focus == "V05":
            kinds = [k for k in kinds if k not in operations.SCIPY_WINDOWS + ("MaximumLengthSequence",)]
    pool = [operations.value_spec(rng, rng.choice(kinds)) for _ in range(rng.choice((2, 4, 6)))]
    if same and "Signal" in kinds and rng.random() < 0.5:
        pool[0] = operations.value_spec(rng, "Signal")
    if focus == "L01":
        for v in pool:
            if rng.random() < 0.2:
                v[rng.choice(("length", "channels"))] = 0
    if rng.random() < 0.3:      # data sets, which fit to each other
        for v in pool[1:]:
            for key in ("length", "channels", "offset", "rate", "resolution", "bins"):
                if rng.random() < 0.8:
                    v[key] = pool[0][key]
    classes = rng.sample(tuple(operations.NOISES), rng.choice((1, 2, 3))) if focus == "R01" and rng.random() < 0.6 else ()
    near = focus == "V06" and rng.random() < 0.35      # a history of one operation with almost the same parameters
    if near:
        parameterised = [n for n in names if operations.REGISTRY[n]["kinds"] == ()] if rng.random() < 0.6 else names
        names = (rng.choice(parameterised or all_names),)
        if not operations.REGISTRY[names[0]]["kinds"]:
            pool = pool[0:1]
    users = []
    for _ in range(rng.choice((2, 2, 3)) if focus == "V02" else (rng.choice((1, 1, 2)) if focus in ("R01", "F01") else 1)):
        steps = []
        for _ in range({"V06": rng.randrange(25, 45) if near else rng.randrange(10, 30), "L01": rng.randrange(10, 40), "V02": rng.randrange(14, 30) if same else rng.randrange(4, 20)}.get(focus, rng.randrange(4, 20))):
            if near and steps:
                s = neighbour(rng, steps[0] if rng.random() < 0.5 else rng.choice(steps))
            elif rng.random() < sticky and (steps or users):
                s = variation(rng, steps or users[0], all_names)
            else:
                s = operations.random_step(rng, names)
            if rng.random() < {"V03": 0.7, "F01": 0.15, "L01": 0.15}.get(focus, 0.0):
                if rng.random() < 0.5:
                    s["fault"] = {"alloc": [rng.choice((0, 0, 1, 1, 2, 3, 5, 8))]}
                else:
                    s["fault"] = {"where": round(rng.random(), 4), "exception": rng.choice(("MemoryError", "KeyboardInterrupt"))}
            if focus == "R01":
                if rng.random() < 0.25:
                    s["own_random"] = rng.choice(("seed", "draw", "draw", "python"))
                if classes and s["op"] == "noise":
                    s["p"]["class"] = rng.choice(classes)
                if rng.random() < 0.2 and "seed" in s["p"] and s["op"] == "noise":
                    s["p"]["seed"] = None
            if rng.random() < 0.1:
                s["gc"] = True
            if focus == "V06" and rng.random() < 0.3:
                s["drop"] = rng.randrange(1 << 16)
            if focus == "V07" and rng.random() < 0.6:
                s["transfer"] = rng.choice(TRANSFERS)
            steps.append(s)
        if focus in ("V01", "V03") and rng.random() < 0.4:      # repeat some of the operations with the same operands
            steps += [clone(s) for s in rng.sample(steps, min(3, len(steps)))]
        users.append(steps)
    if focus in ("V02", "R01") and len(users) > 1 and rng.random() < 0.3:       # all users do the same
        users = [clone(users[0]) for _ in users]
    if same:
        pool = [dict(clone(v), seed=rng.randrange(1 << 30)) for v in pool[0:2] for _ in range(3)]
        users = [[dict(clone(s), pick=[rng.randrange(1 << 16) for _ in s["pick"]]) for s in users[0]] for _ in users]
    if focus == "V06":
        for u in users:
            for _ in range(rng.choice((0, 2, 5))):      # the same operation with other operands or other parameters
                s = clone(rng.choice(u))
                if rng.random() < 0.5:
                    s["pick"] = [rng.randrange(1 << 16) for _ in s["pick"]]
                else:
                    s["p"] = operations.REGISTRY[s["op"]]["parameters"](rng)
                u.insert(rng.randrange(len(u) + 1), s)
    case = {"focus": focus, "pool": pool, "users": users, "poison": None, "perturb": 0, "schedule": None, "sched_seed": rng.randrange(1 << 30), "preempt": 0.0, "warnings": "ignore", "missing": [],
            "entropy": rng.randrange(1 << 60)}
    if focus in ("V02", "R01", "F01"):
        case["preempt"] = rng.choice((0.05, 0.1, 0.2, 0.4) if same else (0.01, 0.05, 0.2, 0.5)) if len(users) > 1 else 0.0
    if same and rng.random() < 0.7:     # threads meet at the same lines
        case["preempt"] = rng.choice((0.001, 0.02))
        case["meet"] = rng.choice((7, 15, 30))
    if focus == "V02" and rng.random() < 0.3:
        case["warnings"] = rng.choice(("error", "default"))
    if focus == "V04":
        if rng.random() < 0.25:
            case["warnings"] = "error"
        case["poison"], case["other poison"] = rng.sample(POISONS, 2)
        for v in case["pool"]:
            v["other memory"] = rng.choice(operations.ARRANGEMENTS)
        case["perturb"], case["other perturb"] = rng.sample((0, 0x80, 0x40, 0xc0, 0x01), 2)
    elif focus in ("V01", "V03", "F01"):
        case["poison"] = rng.choice((None, float("inf"), -7.0))
    if focus == "V06":
        case["targets"] = [[rng.randrange(1 << 16)] for _ in range(rng.choice((1, 2, 3)))]
    if focus == "V05":
        case["missing"] = [l for l in LIBRARIES if rng.random() < 0.5] or ["scipy"]
        case["appears"] = rng.choice((None, rng.randrange(3, 10)))
    return case


# ------------------------------------------------------------------- execution

class Interruption:
    """Raises an exception at a line of sumpf's code"""

    def __init__(self, line, exception):
        self.line = line
        self.exception = exception
        self.count = 0
        self.fired = None

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            n = self.count
            self.count += 1
            if n == self.line:
                self.fired = f"{frame.f_code.co_filename[len(PREFIX):]}:{frame.f_code.co_name}"
                sys.settrace(None)
                raise self.exception("injected interruption")
        return self.local


class Endless(BaseException):
    """Raised, when an operation has exceeded the maximum number of steps"""


class Steps:
    """Counts the lines of sumpf's code, that an operation executes"""
    LIMIT = 300000

    def __init__(self):
        self.count = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count > self.LIMIT:
                raise Endless()
        return self.local

    def run(self, function):
        previous = sys.gettrace()
        sys.settrace(self)
        try:
            return function()
        finally:
            sys.settrace(previous)


class ImportBlocker:
    """Makes libraries unavailable"""

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ImportError(f"No module named {name!r} (simulated)")
        return None


def settings():
    """:returns: the process' global settings, that an operation could change"""
    return {"warning filters": list(warnings.filters), "warnings.showwarning": warnings.showwarning, "error handling of numpy": (numpy.geterr(), numpy.geterrcall()), "print options of numpy": numpy.get_printoptions(),
            "environment": dict(os.environ), "working directory": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "decimal context": str(decimal.getcontext()), "recursion limit": sys.getrecursionlimit(),
            "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], "garbage collector": (gc.isenabled(), gc.get_threshold()), "exception hook": sys.excepthook,
            "threads of numexpr": getattr(sys.modules.get("numexpr"), "nthreads", None), "start method": multiprocessing.get_start_method(allow_none=True), "standard streams": (sys.stdout, sys.stderr), "umask": _umask()}


def _umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


BASE_KINDS = ("Signal", "Spectrum", "Spectrogram")


class Run:
    def __init__(self, case, plain=False, other=False, choices=None, only=None, lines=(), order=None):
        """
        :param order: for each user the numbers of the steps in the order, in which they are executed, or None for executing them one after another
        :param lines: the number of lines of sumpf's code, that have been executed by each of the steps in the reference execution
        :param only: the numbers of the steps, that are executed, or None for all steps
        :param choices: the operands of each step in the reference execution, if an execution, in which some of the steps fail, shall use the same ones
        :param plain: True for the reference execution: sequential, without faults and with all libraries
        :param other: True for the execution with the other content of uninitialised memory
        """
        self.case = case
        self.focus = case["focus"]
        self.plain = plain
        self.other = other
        self.choices = choices
        self.only = only
        self.order = order
        self.lines = dict(lines)
        self.scales = {}
        self.chosen = [[] for _ in case["users"]]
        self.stats = collections.Counter()
        self.violations = []
        self.watched = []
        self.read_only = []       # (object, fingerprint, description)
        self.results = []

    def violate(self, pid, kind, message):
        self.violations.append((pid, kind, message))

    def check(self, when, start=0):
        for i, (o, f, what) in enumerate(self.watched):
            if operations.fingerprint(o) != f:
                self.violate(self.focus, "modified", f"{what} has been modified by {when}")
                self.watched[i] = (o, operations.fingerprint(o), what)
        for o, what in self.read_only:
            if o.channels().flags.writeable:
                self.violate(self.focus, "modified", f"the read-only array of {what} has been made writeable by {when}")
                o.channels().flags.writeable = False

    def watch(self, o, what):
        if self.focus not in ("L01", "V06"):
            self.watched.append((o, operations.fingerprint(o), what))
            if self.focus in ("V01", "V03") and hasattr(o, "channels") and not o.channels().flags.writeable:
                self.read_only.append((o, what))
        return o

    def prepare_libraries(self):
        for name in [m for m in sys.modules if m.split(".")[0] in self.case["missing"]]:
            self.hidden[name] = sys.modules.pop(name)
        for name in [m for m in sys.modules if m == "sumpf" or m.startswith("sumpf.")]:
            del sys.modules[name]
        self.blocker = ImportBlocker(self.case["missing"])
        sys.meta_path.insert(0, self.blocker)
        try:
            operations.sumpf = importlib.import_module("sumpf")
        except Exception as e:  # pylint: disable=broad-except
            self.violate("V05", "import", f"sumpf cannot be imported without {', '.join(self.case['missing'])}: {describe(e)}")
            return False
        self.stats["fault:missing library"] += len(self.case["missing"])
        return True

    def libraries_appear(self):
        self.blocker.names = set()
        sys.modules.update(self.hidden)
        self.stats["fault:library appears"] += 1

    def prepare_memory(self):
        memory.poison = self.case["other poison"] if self.other else (None if self.plain else self.case["poison"])
        perturb = self.case["other perturb"] if self.other else (0 if self.plain else self.case["perturb"])
        if self.focus == "V04":
            if _mallopt is not None:
                _mallopt(M_PERTURB, perturb)
            self.fill_blocks()

    @staticmethod
    def fill_blocks():
        """numpy keeps small blocks, which have been freed; fills them"""
        for n in range(1, 130):
            blocks = [memory._originals[("numpy", "empty")](n) for _ in range(9)]
            for b in blocks:
                b.fill(memory.poison)
            del blocks, b

    def prepare_entropy(self):
        self.entropy = random.Random(self.case["entropy"])
        module = sys.modules.get("numpy.random.bit_generator")
        if module is not None and hasattr(module, "randbits"):
            module.randbits = self.entropy.getrandbits

    def run(self):
        gc.collect()
        gc.disable()
        self.hidden = {}
        c = self.case
        if c["missing"] and not self.plain:
            if not self.prepare_libraries():
                return self.report(None)
        self.prepare_entropy()
        numpy.random.seed(12345)
        random.seed(12345)
        try:
            self.pool = [operations.build_value(dict(v, memory=v["other memory"]) if self.other else v) for v in c["pool"]]
        except operations.NotBuilt:
            self.results = []
            self.stats["data sets not created"] += 1
            return self.report(None)
        for o, v in zip(self.pool, c["pool"]):
            self.watch(o, f"a {v['kind']} ({v['memory']} memory)")
            if hasattr(o, "channels"):
                self.watch(o.channels(), f"the channels of a {v['kind']}")
        self.prepare_memory()
        if c["warnings"] != "ignore":
            warnings.simplefilter(c["warnings"], RuntimeWarning)
        self.settings = settings()
        errors = []
        self.results = [[] for _ in c["users"]]
        self.scales = {(u, ("pool", i)): magnitude(o) for i, o in enumerate(self.pool) for u in range(len(c["users"]))}
        self.drawn = [[] for _ in c["users"]]
        concurrent = len(c["users"]) > 1 and not self.plain

        def body(users):
            import traceback    # pylint: disable=import-outside-toplevel
            for u in users:
                try:
                    self.user(u)
                except Exception:   # pylint: disable=broad-except
                    errors.append(traceback.format_exc())
        s = None
        if concurrent:
            s = sched.Scheduler(seed=c["sched_seed"], schedule=c["schedule"], preempt=c["preempt"], meet=c.get("meet", 0), advance=0.0, max_steps=3000000, trace_prefixes=(PREFIX,))
            for u in range(len(c["users"])):
                s.spawn(lambda u=u: body([u]), f"user{u}")
            failure = s.run()
            if failure is not None:
                self.violate(self.focus, "no end", f"an operation does not end: {describe(failure)}")
        else:
            body(range(len(c["users"])))
        memory.poison = None
        if errors:
            raise sched.HarnessError(errors[0])
        self.check_settings("after the operations")
        self.check("concurrent operations" if concurrent else "the operations")
        return self.report(s)

    def report(self, s):
        if memory.poisoned:
            self.stats["fault:poisoned allocation"] += memory.poisoned
        return {"violations": self.violations, "stats": dict(self.stats), "results": self.results, "scales": {i: m for i, m in self.scales.items() if isinstance(i[1], int)}, "chosen": self.chosen, "lines": self.lines, "drawn": getattr(self, "drawn", []), "decisions": s.decisions if s else [],
                "switch_hash": s.switch_hash if s else 0, "sim_ns": s.now - s.start_ns if s else 0, "switches": s.switches if s else 0}

    def check_settings(self, when):
        """checks, that the thread does not see modifications of the process' global settings"""
        if self.focus == "V02":
            now = settings()
            for key, value in self.settings.items():
                if now[key] != value:
                    self.violate("V02", "global settings", f"the {key} have been changed {when}")
                    self.settings[key] = now[key]
            self.stats["probe:checked settings"] += 1

    @staticmethod
    def candidates(kinds, own):
        kinds = (kinds,) if isinstance(kinds, str) else kinds
        classes = tuple(getattr(operations.sumpf, k) for k in kinds if hasattr(operations.sumpf, k))
        return [slot for slot, o in own.items() if isinstance(o, classes)]

    def user(self, u):
        own = {("pool", i): o for i, o in enumerate(self.pool)}
        if self.focus == "V06":
            self.pool = None    # so that the data sets are deleted, when the user deletes them
        steps = self.case["users"][u]
        self.seed_state = None
        for k, step in (enumerate(steps) if self.order is None else ((k, steps[k]) for k in self.order[u])):
            if self.case["missing"] and not self.plain and self.case.get("appears") == k:
                self.libraries_appear()
            if self.only is not None and k not in self.only:
                continue
            op = operations.REGISTRY[step["op"]]
            slots = []
            for kinds, p in zip(op["kinds"], step["pick"]):
                candidates = self.candidates(kinds, own)
                slots.append(candidates[p % len(candidates)] if candidates else None)
            if self.choices is not None:
                slots = self.choices[u][k]
            self.chosen[u].append(slots)
            if step["p"].get("operator") == "%" and not all(s is not None and s[0] == "pool" and self.case["pool"][s[1]]["kind"] in BASE_KINDS for s in slots):
                step = dict(step, p=dict(step["p"], operator="-"))    # the remainder of values with rounding errors is not reproducible
            operands = [own.get(slot) for slot in slots]
            if "drop" in step and self.only is None and self.order is None and len(own) > 1:
                del own[list(own)[step["drop"] % len(own)]]
                gc.collect()
                self.stats["deleted data sets"] += 1
            if any(o is None for o in operands):
                self.results[u].append((k, "skipped"))
                continue
            if "own_random" in step:
                self.own_random(u, step["own_random"])
            state = None
            if self.focus == "R01" and len(self.case["users"]) == 1:
                state = self.random_state()
            if "fault" in step and not self.plain:
                self.progress(u, k, step)
                self.attempt(u, k, step, op, operands)
            if step.get("gc"):
                gc.collect()
            if self.focus == "V04":
                self.fill_blocks()
            self.check_settings(f"before step {k} of user {u} ({step['op']}), or by an operation of another thread")
            self.progress(u, k, step)
            transfer = step.get("transfer") if not self.plain else None
            if transfer and transfer not in ("process", "interpreter"):
                operands = [self.transfer(o, transfer) for o in operands]
            if self.plain and "where" in step.get("fault", ()):
                counter = Steps()
                result, outcome = self.perform(step, op, operands, step["op"], counter.run)
                self.lines[(u, k)] = counter.count
            else:
                result, outcome = self.perform(step, op, operands, step["op"])
            self.results[u].append((k, outcome))
            del operands
            scale = max((self.scales.get((u, slot), 1.0) for slot in slots), default=1.0)
            own_scales = {}
            for i, r in enumerate(result if isinstance(result, (tuple, list)) else (result,)):
                own_scales[i] = max(scale, magnitude(r))
                self.scales[(u, (k, i))] = own_scales[i]
            self.scales[(u, k)] = max(own_scales.values(), default=scale)
            if state is not None and self.random_state() != state:
                self.violate("R01", "global state", f"{step['op']} {step['p'].get('class', '')} changes the state of the global random number generators")
            if not (len(self.case["users"]) > 1 and not self.plain) and self.focus in ("V01", "V03"):
                self.check(f"{step['op']} {step['p'] or ''}")
            for i, r in enumerate(result if isinstance(result, (tuple, list)) else (result,)):
                if operations.kind_of(r) and self.useful(r, own_scales[i]) and not (step["op"] == "noise" and step["p"]["seed"] is None):
                    own[(k, i)] = r
                    self.watch(r, f"the result of {step['op']}")

    def useful(self, o, scale):
        """:param scale: the largest magnitude of the values, from which the data set has been computed"""
        if isinstance(o, operations.sumpf.Filter):
            if self.focus == "L01":
                return isinstance(o.transfer_functions(), (tuple, list)) and all(hasattr(t, "is_zero") for t in o.transfer_functions())
            return len(o) <= 6 and len(repr(o)) < 3000
        c = o.channels()
        if c.size == 0 or c.size > 3000 or len(c) > 6:
            return False
        with numpy.errstate(all="ignore"):
            m = abs(c)
            return bool(numpy.isfinite(m).all() and m.max() < 1e9 and m.max() > max(1e-9, 1e-5 * scale))

    def perform(self, step, op, operands, name, fault=None):
        """:returns: the result and its portable form"""
        arrays = []

        def watch(a):
            arrays.append((a, operations.fingerprint(a)))
            return a
        context = operations.Context(watch)
        self.stats["operations"] += 1
        try:
            if fault is None and self.focus == "L01":
                steps = Steps()
                result = steps.run(lambda: op["function"](context, *operands, step["p"]))
                self.stats["steps"] += steps.count
            elif fault is None and step.get("transfer") == "interpreter" and not self.plain:
                result = self.in_interpreter(step["op"], operands, step["p"])
            elif fault is None and step.get("transfer") == "process" and not self.plain:
                result = self.in_process(lambda: op["function"](context, *operands, step["p"]))
            elif fault is None:
                result = op["function"](context, *operands, step["p"])
            else:
                result = fault(lambda: op["function"](context, *operands, step["p"]))
            outcome = operations.portable(result) if self.focus != "L01" else "result"
        except AssertionError as e:
            result, outcome = None, f"raised {describe(e)}"
            self.violate(self.focus, "assertion", str(e))
        except (Endless, RecursionError) as e:
            result, outcome = None, "endless"
            if isinstance(e, RecursionError) and (fault is not None or self.focus != "L01"):
                return result, outcome
            self.violate(self.focus, "endless", f"{name} {step['p']} with {', '.join(self.show(o) for o in operands)} does not come to an end")
        except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-except
            result, outcome = None, f"raised {type(e).__name__}"
        if self.focus in ("V01", "V02", "V03", "V04", "V05", "V07", "F01"):
            for a, f in arrays:
                if operations.fingerprint(a) != f:
                    self.violate(self.focus, "argument", f"{name} {step['p']} modifies an array or a sequence, that has been passed as an argument")
        return result, outcome

    def transfer(self, o, how):
        """copies a data set in the way, in which it is passed to another process"""
        self.stats[f"transfer: {how}"] += 1
        if how == "copy":
            c = copy.copy(o)
        elif how == "deepcopy":
            c = copy.deepcopy(o)
        elif how == "interpreter and back":
            c = self.in_interpreter(None, [o], None)[0]
        else:
            c = pickle.loads(pickle.dumps(o, protocol=int(how[-1])))
        if type(c) is not type(o) or operations.fingerprint(c) != operations.fingerprint(o):
            self.violate(self.focus, "transfer", f"a {type(o).__name__} is different after a {how}: {operations.fingerprint(c)} instead of {operations.fingerprint(o)}")
        elif bool(o == o) and (not bool(c == o) or not bool(o == c) or bool(c != o)):
            self.violate(self.focus, "transfer", f"a {type(o).__name__} is not equal to its {how}")
        elif not isinstance(o, operations.sumpf.Filter) and bool(o == o) and hash(c) != hash(o):
            self.violate(self.focus, "transfer", f"a {type(o).__name__} and its {how} are equal, but their hashes are different")
        return c

    def in_process(self, function):
        """performs an operation in another process, from which the result is sent back"""
        self.stats["transfer: result from another process"] += 1

        def body():
            try:
                return True, function()
            except Exception as e:  # pylint: disable=broad-except; is raised in the other process, too
                return False, type(e).__name__
        status, message = forked.run(body, 60.0)
        if status != "ok":
            self.violate(self.focus, "transfer", f"the result of an operation cannot be sent to another process: {message}")
            return None
        if not message[0]:
            raise type(message[1], (Exception,), {})()
        return message[1]

    def in_interpreter(self, name, operands, p):
        """performs an operation in another interpreter, to which the operands are sent and from which the result is sent back

        :param name: the name of the operation or None, if the operands shall just be sent back
        """
        self.stats["transfer: to another interpreter" + ("" if name else " and back")] += 1
        status, message = remote.request("operation", pickle.dumps((name, operands, p)))
        if status != "ok":
            self.violate(self.focus, "transfer", f"data sets cannot be sent to another interpreter: {message}")
            return operands if name is None else None
        if not message[0]:
            raise type(message[1], (Exception,), {})()
        return pickle.loads(message[1])

    @staticmethod
    def show(o):
        kind = operations.kind_of(o)
        return f"a {kind} with {len(o)} channels" if kind == "Filter" else f"a {kind} with the shape {o.shape()}"

    def progress(self, u, k, step):
        """stores, what is done, so that it is known, if the process is lost"""
        data = f"user {u}, step {k}: {step['op']} {step['p']}".encode("utf-8", "replace")[0:900]
        _progress[0:1000] = data.ljust(1000, b"\0")

    def attempt(self, u, k, step, op, operands):
        """performs an operation, during which a fault occurs"""
        f = step["fault"]
        failed = []
        if "alloc" in f:
            def fault(function):
                memory.arm(f["alloc"])
                try:
                    return function()
                finally:
                    failed.append(memory.disarm())
        else:
            interruption = Interruption(int(f["where"] * self.lines.get((u, k), 80)), {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[f["exception"]])

            def fault(function):
                previous = sys.gettrace()
                sys.settrace(interruption)
                try:
                    return function()
                finally:
                    sys.settrace(previous)
        _, outcome = self.perform(step, op, operands, step["op"], fault)
        fired = sum(failed) if "alloc" in f else interruption.fired is not None
        if fired:
            self.stats["fault:allocation failure" if "alloc" in f else f"fault:{f['exception']} at a line"] += 1
        self.results[u].append((k, "fault", outcome, bool(fired)))
        if self.focus == "V03":
            self.check(f"a failed {step['op']} {step['p'] or ''}")

    def own_random(self, u, how):
        """the user uses the global random number generators"""
        if how == "seed":
            numpy.random.seed(99)
        elif how == "draw":
            value = float(numpy.random.uniform())
            if len(self.case["users"]) == 1:
                self.drawn[u].append(value)
        else:
            value = random.random()
            if len(self.case["users"]) == 1:
                self.drawn[u].append(value)

    def random_state(self):
        s = numpy.random.get_state()
        return (s[0], s[1].tobytes(), s[2:], random.getstate())


def magnitude(o):
    """:returns: the largest magnitude of the values of a data set"""
    if operations.kind_of(o) in ("Filter", None):
        return 1.0
    with numpy.errstate(all="ignore"):
        m = abs(o.channels())
        return max(1.0, float(m[numpy.isfinite(m)].max(initial=0.0)))


def child(case, remotely=False, **kwargs):
    """Executes the operations in a forked process or in another interpreter, that has been started independently"""
    remote.start()  # before forking, so that all processes use the same
    status, result = remote.request("run", (case, kwargs)) if remotely else local_child(case, **kwargs)
    if status not in ("ok", "error"):
        remote.stop()
    if status == "error":
        raise sched.HarnessError(result)
    return status, result


def local_child(case, **kwargs):
    return forked.run(lambda: Run(case, **kwargs).run(), 120.0, cpu=10 if case["focus"] == "L01" else 20, memory=2 << 30)


def compare(out, case, result, reference, what):
    pid = case["focus"]
    unseeded = []
    for u, (a, b) in enumerate(zip(result["results"], reference["results"])):
        expected = {r[0]: r[1] for r in b}
        for r in a:
            step = case["users"][u][r[0]]
            name = f"user {u}, step {r[0]}: {step['op']} {step['p'] or ''}"
            e = expected.get(r[0])
            noise = 1e-12 * reference["scales"].get((u, r[0]), 1.0)
            if r[1] == "fault":
                outcome, fired = r[2], r[3]
                if isinstance(outcome, str):
                    if fired:
                        expected_ = "raised MemoryError" if "alloc" in step["fault"] else f"raised {step['fault']['exception']}"
                        if outcome not in (expected_, e):
                            out.violate(pid, "other exception", f"{name}: with {step['fault']}: {outcome} instead of {expected_}")
                            return
                        out.stats["probe:failed operations"] += 1
                        continue
                    # the fault has not fired, so it has to fail without it, too
                d = operations.difference(outcome, e, noise)
                if d:
                    out.violate(pid, "fault swallowed" if fired else "different", f"{name}: with {step['fault']}: {d}")
                    return
                continue
            if r[1] == "skipped" or e is None or e == "skipped":
                if r[1] != e and not case["missing"]:
                    raise sched.HarnessError(f"{name}: {operations.short(r[1])} and {e}")
                continue
            if case["missing"] and isinstance(r[1], str):
                needs = operations.REGISTRY[step["op"]]["libraries"] & set(case["missing"])
                reports = {"raised ImportError", "raised ModuleNotFoundError"}
                if "conditional" in operations.REGISTRY[step["op"]]["tags"]:
                    reports.add("raised AttributeError")    # these classes are not even defined without the library
                if needs and r[1] in reports:
                    out.stats["probe:operations, that report a missing library"] += 1
                    continue
            d = operations.difference(r[1], e, noise)
            if d:
                out.violate(pid, "different", f"{name}: {what}: {d}")
                return
            out.stats["probe:compared results"] += 1


def closure(targets, chosen):
    """:returns: the numbers of all steps, that are necessary for computing the results of the given steps"""
    only = set()
    todo = list(targets)
    while todo:
        k = todo.pop()
        if k not in only:
            only.add(k)
            todo += [slot[0] for slot in chosen[k] if slot is not None and slot[0] != "pool"]
    return only


def other_order(seed, chosen):
    """:returns: the numbers of all steps in another order, in which each step comes after those, whose results are its operands"""
    rng = random.Random(seed)
    reverse = rng.random() < 0.7
    waiting = list(range(len(chosen)))
    order = []
    while waiting:
        ready = [k for k in waiting if all(slot is None or slot[0] == "pool" or slot[0] in order for slot in chosen[k])]
        k = ready[-1] if reverse else rng.choice(ready)
        waiting.remove(k)
        order.append(k)
    return order


def unseeded(out, case, result):
    """Noise signals without a seed have to be different from each other"""
    seen = {}
    for u, rs in enumerate(result["results"]):
        for r in rs:
            step = case["users"][u][r[0]]
            if step["op"] == "noise" and step["p"]["seed"] is None and not isinstance(r[1], str) and step["p"]["length"] >= 16 and len(numpy.unique(r[1][3])) >= 4:
                key = (step["p"]["class"], step["p"]["parameters"], step["p"]["length"])
                data = r[1][3].tobytes()
                if data in seen.setdefault(key, set()):
                    out.violate("R01", "unseeded", f"two instances of {step['p']['class']} without a seed are equal")
                seen[key].add(data)
                out.stats["probe:unseeded noise"] += 1


def without_unseeded(case, result):
    """removes the noise signals without a seed from the results"""
    for u, r in enumerate(result["results"]):
        result["results"][u] = [x for x in r if not (case["users"][u][x[0]]["op"] == "noise" and case["users"][u][x[0]]["p"]["seed"] is None)]


def execute(case):
    out = Outcome()
    focus = case["focus"]
    choices = None
    if focus == "V05":
        reference_status, reference = child(case, plain=True)
        choices = reference["chosen"] if reference_status == "ok" else None
    lines = ()
    if focus in ("V03", "F01"):
        reference_status, reference = child(case, plain=True)
        lines = reference["lines"] if reference_status == "ok" else ()
    status, result = child(case, choices=choices, lines=lines)
    if status != "ok":
        what = bytes(_progress[0:1000]).rstrip(b"\0").decode("utf-8", "replace")
        if focus not in ("L01", "V03", "V05", "F01"):
            reference_status = child(case, plain=True)[0]
        elif focus == "L01":
            reference_status = "ok"
        if reference_status == "ok":
            out.violate(focus, "process lost", f"{what}: the process {'does not end' if status == 'hang' else 'has ended with the status ' + str(result)}")
        return out
    for v in result["violations"]:
        out.violate(*v)
    out.stats.update(result["stats"])
    out.stats["switches"] += result["switches"]
    out.decisions = result["decisions"]
    out.switch_hash = result["switch_hash"]
    out.sim_ns = result["sim_ns"]
    out.log = [(u, r[0], *(x if isinstance(x, (str, bool)) else (x[0], str(x[1])) for x in r[1:])) for u, rs in enumerate(result["results"]) for r in rs]
    if not result["results"] or not any(result["results"]):
        return out
    if not out.violations and focus == "V06":
        status, reference = child(case, remotely=True, plain=True, choices=result["chosen"], order=[other_order(case["entropy"], result["chosen"][0])])
        if status != "ok":
            out.stats["reference not available"] += 1
        else:
            compare(out, case, result, reference, "in this order of the operations")
    if not out.violations and focus == "V06":
        for targets in case["targets"]:
            targets = [t % len(case["users"][0]) for t in targets]
            only = closure(targets, result["chosen"][0])
            status, reference = child(case, plain=True, choices=result["chosen"], only=only)
            if status != "ok":
                out.stats["reference not available"] += 1
            else:
                compare(out, case, {"results": [[r for r in result["results"][0] if r[0] in only]]}, reference, "after other operations")
    elif not out.violations and focus not in ("V01", "L01"):
        if focus == "V05":
            status = reference_status
            what = f"without {', '.join(case['missing'])}"
        elif focus == "V04":
            status, reference = child(case, other=True)
            what = "the result depends on the content of uninitialised memory or on the memory layout of the samples"
        else:
            if focus in ("V03", "F01"):
                status = reference_status
            else:
                status, reference = child(case, plain=True)
            what = {"V02": "in concurrent threads", "V03": "after a failed attempt", "V07": "with data sets from other processes", "R01": "in this history", "F01": "in this history"}[focus]
        if status != "ok":
            out.stats["reference not available"] += 1
        else:
            case_ = case
            if focus == "R01":
                unseeded(out, case, result)
                case_ = clone(case)
                if result["drawn"] != reference["drawn"]:
                    out.violate("R01", "global state", "the numbers from the user's own generators are different")
                without_unseeded(case, result)
                without_unseeded(case, reference)
            if not out.violations:
                compare(out, case_, result, reference, what)
            if focus in ("R01", "F01", "V02") and not out.violations:
                status, reference = child(case, remotely=True, plain=True, choices=result["chosen"], order=[other_order(case["entropy"] + u, c) for u, c in enumerate(result["chosen"])])
                if status != "ok":
                    out.stats["reference not available"] += 1
                else:
                    if focus == "R01":
                        without_unseeded(case, reference)
                    compare(out, case_, result, reference, "in this order of the operations")
    if focus == "F01" and not out.violations:
        independent(out, case, result)
    out.nontrivial = out.stats["operations"] > 2
    shape = [[s["op"] for s in u] for u in case["users"]]
    out.shape = hashlib.sha256(repr((shape, case["missing"])).encode()).hexdigest()[:20]
    return out


def evaluate_alone(spec, channel, fs):
    f = operations.build_value(spec)
    f = operations.sumpf.Filter(transfer_functions=(f.transfer_functions()[channel],))
    return [complex(f(numpy.array([x]))[0][0]) for x in fs]


def independent(out, case, result):
    """Evaluates each channel of each filter of the pool on its own, one frequency at a time, in a process without a history"""
    fs = [0.0, 1.0, 20.0, 300.0, 2000.0, -20.0]

    def together():
        filters = [operations.build_value(v) for v in case["pool"] if v["kind"] == "Filter"]
        r = [[numpy.array(c) for c in f(numpy.array(fs))] for f in filters]
        return r

    def alone():
        r = []
        for v in case["pool"]:
            if v["kind"] == "Filter":
                r.append([evaluate_alone(v, c, fs) for c in range(len(operations.build_value(v)))])
        return r
    a, b = forked.run(together), forked.run(alone)
    if a[0] != "ok" or b[0] != "ok":
        if a[0] != b[0]:
            out.violate("F01", "different", f"evaluating filters: {str(a)[-300:]} and {str(b)[-300:]}")
        return
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        for c, (p, q) in enumerate(zip(x, y)):
            out.stats["probe:channels evaluated on their own"] += 1
            if not operations.close(numpy.asarray(p, dtype=numpy.complex128), numpy.asarray(q, dtype=numpy.complex128)):
                out.violate("F01", "channel", f"filter {i}, channel {c}: evaluated together with other channels and frequencies: {list(p)}, on its own: {q}")
                return


def shrink(case):
    if len(case["users"]) > 1:
        for users in list_removals(case["users"]):
            if users:
                c = clone(case)
                c["users"] = users
                yield c
    for u, steps in enumerate(case["users"]):
        for s in list_removals(steps):
            c = clone(case)
            c["users"][u] = s
            yield c
    for i in range(len(case["pool"])):
        if len(case["pool"]) > 1:
            c = clone(case)
            del c["pool"][i]
            yield c
    if case["schedule"]:
        for s in list_removals(case["schedule"]):
            c = clone(case)
            c["schedule"] = s
            yield c
    for u, steps in enumerate(case["users"]):
        for k, s in enumerate(steps):
            for key in ("fault", "gc", "own_random"):
                if key in s:
                    c = clone(case)
                    del c["users"][u][k][key]
                    yield c
    for i, v in enumerate(case["pool"]):
        for key, choices in (("channels", (1, 2)), ("length", (1, 2, 3, 5, 8)), ("bins", (1,)), ("offset", (0,)), ("labels", ([],)), ("memory", ("plain",)), ("other memory", ("plain",)), ("depth", (0, 1))):
            for x in choices:
                if v.get(key, x) != x and not (key in ("channels", "length", "bins", "depth") and v[key] <= x):
                    c = clone(case)
                    c["pool"][i][key] = x
                    yield c
    for l in case["missing"]:
        if len(case["missing"]) > 1:
            c = clone(case)
            c["missing"].remove(l)
            yield c
