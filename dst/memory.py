"""The simulated allocator: poisons uninitialised memory and lets allocations fail.

Only the functions, that the code under test calls explicitly, are replaced (attributes of the numpy module and the shared memory
arrays of multiprocessing).  Memory, that is initialised by the original function, is never changed.
"""

import _thread
from multiprocessing import sharedctypes
import numpy

_originals = {}
_armed = {}         # thread: [number of allocations since arm(), numbers of the allocations, that fail, number of failed allocations]
poison = None       # the value, with which uninitialised memory is filled, or None
poisoned = 0        # poisoned arrays
enabled = True


def arm(numbers=(), everywhere=False):
    """Lets allocations fail

    :param numbers: the numbers of the allocations, that fail
    :param everywhere: True for the allocations in all threads, False for those in the current thread
    """
    _armed[None if everywhere else _thread.get_ident()] = [0, frozenset(numbers), 0]


def disarm(everywhere=False):
    """:returns: the number of allocations, that have failed"""
    state = _armed.pop(None if everywhere else _thread.get_ident(), None)
    return state[2] if state else 0


def _allocate(name):
    state = _armed.get(_thread.get_ident(), _armed.get(None)) if _armed else None
    if state is None or not enabled:
        return
    n = state[0]
    state[0] += 1
    if n in state[1]:
        state[2] += 1
        raise MemoryError(f"injected failure of allocation {n} ({name})")


def _fill(array):
    global poisoned
    if poison is not None and enabled and isinstance(array, numpy.ndarray) and array.dtype.kind in "fc" and array.size:
        array.fill(poison)
        poisoned += 1
    return array


def install():
    if _originals:
        return

    def wrap(module, name, uninitialised):
        original = getattr(module, name)
        _originals[(module.__name__, name)] = original

        def function(*args, **kwargs):
            _allocate(name)
            result = original(*args, **kwargs)
            return _fill(result) if uninitialised else result
        function.__name__ = name
        function.__doc__ = original.__doc__
        setattr(module, name, function)

    for name in ("empty", "empty_like"):
        wrap(numpy, name, True)
    for name in ("zeros", "ones", "zeros_like", "ones_like", "full"):
        wrap(numpy, name, False)
    wrap(sharedctypes, "RawArray", False)
