"""Common parts of the workloads."""

import collections
import hashlib
import json


class Violation:
    """A property does not hold.

    :param pid: the property's id
    :param kind: a short class of the violation, that does not depend on sizes, times or the like; shrinking has to preserve it
    :param message: the details
    """

    def __init__(self, pid, kind, message):
        self.pid = pid
        self.kind = kind
        self.message = message

    def as_dict(self):
        return {"property": self.pid, "kind": self.kind, "message": self.message}


class Outcome:
    """The result of the execution of one case."""

    def __init__(self):
        self.violations = []
        self.stats = collections.Counter()      # probes, faults that fired, operations
        self.log = []
        self.decisions = []
        self.sim_ns = 0
        self.switch_hash = 0
        self.nontrivial = False
        self.shape = ""                         # identifies the explored behaviour for counting distinct ones

    def violate(self, pid, kind, message):
        self.violations.append(Violation(pid, kind, message))

    def digest(self):
        h = hashlib.sha256()
        for entry in self.log:
            h.update(repr(entry).encode())
        h.update(repr([(v.pid, v.kind, v.message) for v in self.violations]).encode())
        h.update(repr(sorted(self.stats.items())).encode())
        return h.hexdigest()[:24]


def clone(case):
    return json.loads(json.dumps(case))


def pick(rng, weighted):
    """Picks a key of a dictionary with weights"""
    total = sum(weighted.values())
    r = rng.random() * total
    for k, w in weighted.items():
        r -= w
        if r < 0:
            return k
    return k


def list_removals(items):
    """Yields the lists, that result from removing chunks of the given list"""
    n = len(items)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            if size < n or n == 1:
                yield items[:start] + items[start + size:]
        size //= 2


def describe(e):
    return f"{type(e).__name__}: {e}"[:300]
