"""The checks: for each property the workload, which decides it, and its budget."""

import os

JACK_REAL = ["sumpf.Jack and everything below it in sumpf", "the jack Python package (jack-client: ports, callbacks, status handling)", "the connectors package", "numpy"]
JACK_STUBS = ["libjack and the JACK server (dst/fakejack.py): a simulated server at the level of libjack's C functions, calibrated against a real jackd",
              "threading.Lock/RLock/Condition/Event/Semaphore/Thread, time.time/monotonic/perf_counter/sleep (dst/sched.py)"]
JACK_ASSUMPTIONS = [
    "the simulated server behaves like libjack: port handles, connections, activation, notifications on a separate thread, stale output buffers",
    "preemptions happen at synchronisation primitives, libjack calls and at lines of sumpf's code; not within a line",
    "start() is not called during a take; ports are not added or removed during a take; connections are only changed during a take, if the automatic deactivation is off",
]


def jack(pid, quick=8000):
    return {"workload": "jackload", "focus": pid, "runs": {"quick": quick, "thorough": 400000},
            "rule": "each run is a seeded program of 3 to 16 operations on a sumpf.Jack instance, a seeded set of server faults (xruns, stalls, block size and sampling rate changes, shutdown, external (dis)connects) "
                    "and a seeded schedule of the user's, the process and the notification thread; a run is non-trivial, if at least one take was played completely or a connection was established",
            "real": JACK_REAL, "stubs": JACK_STUBS, "assumptions": JACK_ASSUMPTIONS}


SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "shim.so")
IO_REAL = ["sumpf's data sets with their save and load methods, all readers and writers", "Python's file objects and its csv, json, pickle, wave, aifc and zipfile modules", "numpy's and soundfile's (libsndfile's) I/O",
           "the kernel's file system for everything, that the simulated disk does not change"]
IO_STUBS = ["the results of open/read/write/close/truncate/fsync for files in the run's scratch folder (shim/shim.c, preloaded): errors, short reads and writes, lost and torn writes, crashes of the process",
            "threading primitives and the thread scheduler (dst/sched.py)", "a missing soundfile library (sys.modules)"]
IO_ASSUMPTIONS = [
    "a crash is the end of the process at a system call: the data of completed writes survive, except for the writes, which the run loses or tears",
    "files of the formats, that execute code (PYTHON_PICKLE and TEXT_REPR), are only damaged by truncation",
    "preemptions happen at system calls on files, at synchronisation primitives and at lines of sumpf's code",
]


def io(pid, quick, thorough):
    return {"workload": "ioload", "focus": pid, "runs": {"quick": quick, "thorough": thorough}, "env": {"LD_PRELOAD": SHIM},
            "rule": "each run is a seeded history of 3 to 12 operations (save, load, overwrite, remove, damage, crash) on 1 to 4 seeded data sets with seeded formats, file names and disk faults in an own process; "
                    "a run is non-trivial, if it has compared a loaded data set, observed a reported error, or rejected a damaged file",
            "real": IO_REAL, "stubs": IO_STUBS, "assumptions": IO_ASSUMPTIONS}


CHECKS = {pid: jack(pid) for pid in ("J01", "J02", "J03", "J04", "J05", "J06", "J07", "J08")}
CHECKS.update({"P01": io("P01", 2600, 100000), "P02": io("P02", 3000, 100000), "P03": io("P03", 2400, 80000), "P04": io("P04", 900, 30000), "P05": io("P05", 2600, 100000)})
BLOCK_REAL = ["sumpf.Concatenate and sumpf.Merge with everything below them", "the connectors package (connections, caching, executors, coroutines)", "asyncio and concurrent.futures", "numpy"]
BLOCK_STUBS = ["threading primitives, thread scheduling and time (dst/sched.py)", "worker processes: executed as threads of the simulator", "the allocator: failures and poisoned uninitialised memory (dst/memory.py)"]
BLOCK_ASSUMPTIONS = [
    "the connectors package is trusted; excluded are uses, in which it is known to be flawed: errors in one of several connected blocks, disconnecting while other connections are pending, concurrent use of a single executor",
    "each user has its own network, the data sets are shared between the users",
    "preemptions happen at synchronisation primitives and at lines of sumpf's code",
]


def block(pid, quick, thorough):
    return {"workload": "blockload", "focus": pid, "runs": {"quick": quick, "thorough": thorough},
            "rule": "each run is a seeded network of sources, Concatenate and Merge blocks and a seeded history of 3 to 25 operations for one to three users (add, remove, replace, connect, disconnect, set, change the mode, the executor or the "
                    "caching, retrieve results, faults) in an own process; a run is non-trivial, if more than one result was retrieved (B03: and a computation failed)",
            "real": BLOCK_REAL, "stubs": BLOCK_STUBS, "assumptions": BLOCK_ASSUMPTIONS}


VALUE_REAL = ["sumpf.Signal, Spectrum, Spectrogram and Filter with their derived classes and all of their operators and methods", "numpy, scipy and numexpr (with one thread)"]
VALUE_STUBS = ["the allocator: failures and poisoned uninitialised memory (dst/memory.py, mallopt)", "thread scheduling (dst/sched.py)", "the import system for missing libraries", "the entropy of the operating system for unseeded generators"]
VALUE_ASSUMPTIONS = [
    "the compared executions use the same machine and the same versions of the libraries; results are compared with a relative tolerance of 1e-7",
    "preemptions and interruptions happen at lines of sumpf's code, allocation failures in the functions, with which sumpf allocates arrays",
    "errors with contradicting parameters are allowed, if they do not depend on the faults, the schedule or the history",
]


def value(pid, quick, thorough):
    return {"workload": "valload", "focus": pid, "runs": {"quick": quick, "thorough": thorough},
            "rule": "each run is a seeded pool of data sets and a seeded session of 4 to 15 operations (out of about 80) per user, whose operands are data sets from the pool and earlier results, in own processes: the simulated execution and its "
                    "reference; a run is non-trivial, if more than two operations were performed",
            "real": VALUE_REAL, "stubs": VALUE_STUBS, "assumptions": VALUE_ASSUMPTIONS}


CHECKS.update({"B01": block("B01", 6000, 200000), "B02": block("B02", 6000, 200000), "B03": block("B03", 3000, 100000), "B04": block("B04", 1800, 60000), "B05": block("B05", 2400, 80000)})
CHECKS.update({"V01": value("V01", 6000, 200000), "V02": value("V02", 4500, 60000), "V03": value("V03", 2800, 90000), "V04": value("V04", 5000, 90000), "V05": value("V05", 1800, 60000), "V06": value("V06", 3600, 60000),
               "V07": value("V07", 1800, 60000), "R01": value("R01", 2600, 80000), "F01": value("F01", 2000, 60000), "L01": value("L01", 6000, 200000)})
