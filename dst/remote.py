"""Another interpreter, in which operations and simulated runs are executed: it has been started independently (not forked), so that it has other
addresses, another seed for the hashes of texts and does not share any state with this process.

The requests and replies are pickles, that are sent through pipes. For each request, a process is forked.
"""

import os
import pickle
import struct
import sys

HASH_SEED = "4711"
_pipes = None


def _write(fd, data):
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


def _read(fd, n):
    data = b""
    while len(data) < n:
        chunk = os.read(fd, n - len(data))
        if not chunk:
            raise EOFError()
        data += chunk
    return data


def start():
    """Starts the interpreter, if it is not running already"""
    global _pipes
    if _pipes is None:
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        os.posix_spawn(sys.executable, [sys.executable, "-W", "ignore", "-m", "dst.remote"], dict(os.environ, PYTHONHASHSEED=HASH_SEED), file_actions=[(os.POSIX_SPAWN_DUP2, r0, 0), (os.POSIX_SPAWN_DUP2, w1, 1)])
        os.close(r0)
        os.close(w1)
        _pipes = (r1, w0)


def stop():
    """Ends the connection to the interpreter, so that it ends and a new one is started, when it is needed"""
    global _pipes
    if _pipes is not None:
        for fd in _pipes:
            os.close(fd)
        _pipes = None


def request(kind, payload):
    """:returns: ("ok", result), ("error", text), ("status", exit status) or ("hang", None)"""
    start()
    r, w = _pipes
    _write(w, pickle.dumps((kind, payload)))
    return pickle.loads(_read(r, struct.unpack("<Q", _read(r, 8))[0]))


def main():
    r, w = os.dup(0), os.dup(1)
    os.dup2(2, 1)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    os.close(null)
    os.set_inheritable(r, False)
    os.set_inheritable(w, False)
    from dst import sched
    sched.install()
    from dst import valload, forked, operations

    def perform(payload):
        name, operands, p = pickle.loads(payload)
        try:
            if not name:
                for o in operands:      # a hash, that has been computed here, is not necessarily valid in the other process
                    if not isinstance(o, operations.sumpf.Filter):
                        hash(o)
            return True, pickle.dumps(operations.REGISTRY[name]["function"](operations.Context(), *operands, p) if name else operands)
        except Exception as e:  # pylint: disable=broad-except; is raised in the other process, too
            return False, type(e).__name__
    while True:
        try:
            kind, payload = pickle.loads(_read(r, struct.unpack("<Q", _read(r, 8))[0]))
        except EOFError:
            return
        if kind == "run":
            case, kwargs = payload
            reply = valload.local_child(case, **kwargs)
        else:
            reply = forked.run(lambda: perform(payload), 60.0)      # pylint: disable=cell-var-from-loop
        _write(w, pickle.dumps(reply))


if __name__ == "__main__":
    main()
