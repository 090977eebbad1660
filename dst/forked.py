"""Executes functions in forked processes: each simulated run is a process of its own, that can be crashed at any point."""

import gc
import os
import pickle
import resource
import select
import signal
import sys
import traceback

from dst import sched

CRASHED = 77        # the exit status of a process, that has been crashed by the simulated disk


def memory_limit(extra):
    """Limits the address space of the current process"""
    with open("/proc/self/statm", encoding="ascii") as f:
        size = int(f.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (size + extra, resource.getrlimit(resource.RLIMIT_AS)[1]))


def no_memory_limit():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


_frozen = False


def freeze():
    """Excludes the objects, that exist now, from the garbage collections in the forked processes, because examining them takes long"""
    global _frozen
    if not _frozen:
        _frozen = True
        gc.collect()
        gc.freeze()


def run(function, timeout=60.0, cpu=None, memory=None):
    """Executes the function in a forked process.

    :param timeout: the maximum duration in seconds (in case, that the process waits forever)
    :param cpu: the maximum computing time in seconds or None
    :param memory: the amount of memory in bytes, by which the process may grow, or None
    :returns: ("ok", result), ("error", traceback), ("status", exit status) or ("hang", None)
    """
    freeze()
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            if cpu is not None:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            if memory is not None:
                memory_limit(memory)
            try:
                message = ("ok", function())
            except BaseException:   # pylint: disable=broad-except; is passed to the parent
                message = ("error", traceback.format_exc()[-3000:])
            no_memory_limit()
            data = pickle.dumps(message)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    chunks = []
    clock = sched._real["monotonic"]
    deadline = clock() + timeout
    hang = False
    try:
        while True:
            remaining = deadline - clock()
            if remaining <= 0 or not select.select([r], [], [], remaining)[0]:
                hang = True
                break
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            chunks.append(chunk)
    finally:
        os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hang or os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return "hang", None
    if chunks:
        try:
            return pickle.loads(b"".join(chunks))
        except (EOFError, pickle.UnpicklingError):
            pass
    return "status", os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
