"""A registry of the operations, that a user can perform with sumpf's data sets, for the workload dst/valload.py.

Each operation consists of the kinds of its operands, a function, that draws its parameters, and a function, that performs it.  The
parameters are JSON serializable; the operands are chosen at run time from the data sets, that are available to the simulated user.
"""

import copy
import ctypes
import decimal
import fractions
import hashlib
import inspect
from multiprocessing import sharedctypes
import operator
import pickle
import random
import re
import numpy
import sumpf    # is replaced, when sumpf is imported again with missing libraries

REGISTRY = {}
LABELS = ["", "left", "right", "a label", "Ω", "left"]
ARRANGEMENTS = ("plain", "shared", "reversed", "transposed", "read-only")      # of samples in the memory
ALL = ("Signal", "Spectrum", "Spectrogram", "Filter")


NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?")


class Context:
    """What an operation needs to know about the simulated user

    :param watch: a function, that is called with each array, that is passed to sumpf
    """

    def __init__(self, watch=lambda array: array):
        self.watch = watch


def operation(name, kinds, parameters=None, weight=1.0, libraries=(), tags=()):
    def decorator(f):
        REGISTRY[name] = {"kinds": kinds, "parameters": parameters or (lambda rng: {}), "function": f, "weight": weight, "libraries": set(libraries), "tags": set(tags)}
        return f
    return decorator


def kind_of(o):
    for k in ALL:
        if isinstance(o, getattr(sumpf, k)):
            return k
    return None


# ------------------------------------------------------------------- values

def numbers(seed, shape, cplx=False, kind="normal"):
    g = numpy.random.Generator(numpy.random.PCG64(seed))
    a = g.uniform(0.1, 2.0, size=shape) * g.choice((-1.0, 1.0), size=shape)
    if cplx:
        a = a + 1j * (g.uniform(0.1, 2.0, size=shape) * g.choice((-1.0, 1.0), size=shape))
    if kind == "positive":
        a = abs(a)
    return a


def length(rng):
    return rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 30, 33, 64, 130))


def value_spec(rng, kind=None):
    kind = kind or rng.choice(("Signal",) * 5 + ("Spectrum",) * 3 + ("Spectrogram",) * 3 + ("Filter",) * 3)
    return {"kind": kind, "seed": rng.randrange(1 << 30), "channels": rng.choice((1, 1, 1, 2, 2, 3, 4)), "length": length(rng), "bins": rng.choice((1, 2, 3, 5, 9)),
            "offset": rng.choice((0, 0, 0, 1, 2, -1, -3, -5, 4, 11, -20)), "rate": rng.choice((48000.0, 48000.0, 44100.0, 8000.0)), "resolution": rng.choice((1.0, 2.5, 100.0)),
            "labels": [rng.choice(LABELS) for _ in range(rng.randrange(4))], "memory": rng.choice(("plain",) + ARRANGEMENTS),
            "depth": rng.randrange(3), "terms": rng.randrange(1 << 30), "real": rng.random() < 0.15}


def arrange(a, memory):
    """Stores an array in different ways in the memory"""
    if memory == "shared":
        b = numpy.frombuffer(sharedctypes.RawArray(ctypes.c_double, a.nbytes // 8), dtype=a.dtype).reshape(a.shape)
        b[:] = a
        return b
    if memory == "reversed":
        return a[..., ::-1].copy()[..., ::-1]
    if memory == "transposed":
        return numpy.ascontiguousarray(a.transpose()).transpose()
    if memory == "read-only":
        a.flags.writeable = False
    return a


def term(r, depth, exotic=True):
    """a random term for a transfer function"""
    F = sumpf.Filter
    if depth == 0 or r.random() < 0.2:
        if r.random() < 0.12:
            return r.choice((lambda: F.Constant(0.0), lambda: F.Constant(1.0), lambda: F.Constant(0.5 - 2.0j), lambda: F.Polynomial(coefficients=[]), lambda: F.Polynomial(coefficients=[0.0, 0.0, 2.0]), lambda: F.Polynomial(coefficients=[0.0]),
                             lambda: F.Polynomial(coefficients=[3.0]), lambda: F.Exp(coefficient=0.0), lambda: F.Exp(coefficient=0.003, transform=True), lambda: F.Sum([]), lambda: F.Product([]),
                             lambda: F.Bands(xs=numpy.array([]), ys=numpy.array([]), interpolation=list(sumpf.Bands.interpolations)[0], extrapolation=list(sumpf.Bands.interpolations)[1])))()
        k = r.randrange(6)
        if k == 0:
            return F.Constant(round(r.uniform(0.2, 3.0), 3))
        if k in (1, 2):
            coefficients = [round(r.uniform(0.2, 3.0), 3) * 10 ** (-3 * (2 - i)) for i in range(r.choice((2, 3)))]
            if r.random() < 0.2:
                coefficients = [0.0] * r.choice((1, 2)) + coefficients
            if r.random() < 0.3:
                coefficients = numpy.array(coefficients)
            return F.Polynomial(coefficients=coefficients, transform=r.random() < 0.3)
        if k == 3:
            return F.Exp(coefficient=round(r.uniform(-0.01, 0.01), 5), transform=False)
        n = r.choice((1, 2, 3, 5))
        xs = numpy.array(sorted(r.sample(range(1, 400), n)), dtype=numpy.float64)
        ys = numpy.array([round(r.uniform(0.2, 3.0), 3) for _ in range(n)])
        flags = list(sumpf.Bands.interpolations)
        return F.Bands(xs=xs, ys=ys, interpolation=r.choice(flags), extrapolation=r.choice(flags))
    k = r.randrange(7)
    sub = lambda: term(r, depth - 1)
    if k == 0:
        return F.Absolute(sub())
    if k == 1:
        return F.Negative(sub())
    if k == 2:
        return F.Sum([sub() for _ in range(r.choice((1, 2, 3)))], r.random() < 0.2)
    if k == 3:
        return F.Difference(sub(), sub(), r.random() < 0.2)
    if k == 4:
        return F.Product([sub() for _ in range(r.choice((1, 2, 3)))], r.random() < 0.2)
    return F.Quotient(sub(), sub(), r.random() < 0.2)


def iir(r):
    """a filter of one of sumpf's classes"""
    cutoff = r.choice((100.0, 1000.0, 3000.0))
    order = r.randrange(1, 6)
    highpass = r.random() < 0.5
    k = r.randrange(8)
    if k == 0:
        return sumpf.ButterworthFilter(cutoff, order, highpass)
    if k == 1:
        return sumpf.BesselFilter(cutoff, order, highpass)
    if k == 2:
        return sumpf.Chebyshev1Filter(cutoff, r.choice((1.0, 3.0, 0.0)), order, highpass)
    if k == 3:
        return sumpf.Chebyshev2Filter(cutoff, r.choice((20.0, 60.0)), order, highpass)
    if k == 4:
        return r.choice((sumpf.AWeighting, sumpf.BWeighting, sumpf.CWeighting, sumpf.DWeighting, sumpf.UWeighting))()
    if k == 5:
        return sumpf.DelayFilter(r.choice((0.001, 0.1, -0.02)))
    if k == 6:
        return sumpf.DerivativeFilter()
    flags = list(sumpf.Bands.interpolations)
    bands = [{float(f): round(r.uniform(0.3, 2.0), 3) for f in r.sample(range(1, 500), r.choice((1, 2, 4)))} for _ in range(r.choice((1, 1, 2)))]
    return sumpf.Bands(bands=bands, interpolations=r.choice(flags), extrapolations=r.choice(flags), labels=("Bands",) * len(bands))


class NotBuilt(Exception):
    """a data set for the pool could not be created"""


def build_value(spec):
    labels = tuple(spec["labels"])
    n, length_ = spec["channels"], spec["length"]
    if spec["kind"] == "Signal":
        return sumpf.Signal(channels=arrange(numbers(spec["seed"], (n, length_)), spec["memory"]), sampling_rate=spec["rate"], offset=spec["offset"], labels=labels)
    if spec["kind"] == "Spectrum":
        return sumpf.Spectrum(channels=arrange(numbers(spec["seed"], (n, length_), True), spec["memory"]), resolution=spec["resolution"], labels=labels)
    if spec["kind"] == "Spectrogram":
        a = numbers(spec["seed"], (n, spec["bins"], min(length_, 33)), not spec["real"])
        return sumpf.Spectrogram(channels=arrange(a, spec["memory"]), resolution=spec["resolution"], sampling_rate=spec["rate"], offset=spec["offset"], labels=labels)
    r = random.Random(spec["terms"])
    if spec["kind"] != "Filter":
        for _ in range(20):
            try:
                return make_derived(spec["kind"], r)
            except ValueError:  # not all combinations of parameters are allowed
                pass
        raise NotBuilt(spec["kind"])
    if r.random() < 0.4:
        f = iir(r)
        if r.random() < 0.4:
            g = iir(r)
            return sumpf.Filter(transfer_functions=tuple(f.transfer_functions()) + tuple(g.transfer_functions()), labels=f.labels() + g.labels())
        return f
    return sumpf.Filter(transfer_functions=tuple(term(r, spec["depth"]) for _ in range(n)), labels=labels)


COPIES = ("copy", "deepcopy", "deepcopy in a list", "pickle 0", "pickle 2", "pickle 3", "pickle 4", "pickle 5", "pickled copy")


def digest(a):
    return hashlib.sha256(numpy.ascontiguousarray(a).tobytes()).hexdigest()[:16]


_parameters = {}    # maps the classes of terms to the names of their constructors' parameters


def term_print(t):
    """The type and the parameters of a term (nothing else, that a term may store, for example in order to speed up its evaluation)"""
    parts = [type(t).__name__]
    names = _parameters.get(type(t))
    if names is None:
        names = _parameters[type(t)] = frozenset(inspect.signature(type(t).__init__).parameters)
    for key, v in sorted(vars(t).items()):
        if key not in names:
            continue
        if isinstance(v, numpy.ndarray):
            parts.append((key, v.dtype.str, v.shape, digest(v)))
        elif isinstance(v, (tuple, list)):
            parts.append((key, type(v).__name__, [term_print(x) if hasattr(x, "transform") else repr(x) for x in v]))
        elif hasattr(v, "transform") and hasattr(v, "is_zero"):
            parts.append((key, term_print(v)))
        else:
            parts.append((key, repr(v)))
    return parts


def fingerprint(o):
    """A value, that changes, when a data set or an array is modified"""
    if isinstance(o, numpy.ndarray):
        return ("array", o.shape, o.dtype.str, digest(o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [fingerprint(x) for x in o])
    if isinstance(o, dict):
        return ("dict", [(k, fingerprint(v)) for k, v in o.items()])
    if hasattr(o, "transform") and hasattr(o, "is_zero"):
        return ("term", repr(term_print(o)))
    if not kind_of(o):
        return ("value", repr(o))
    if isinstance(o, sumpf.Filter):
        return ("Filter", o.labels(), repr([term_print(t) for t in o.transfer_functions()]), repr(o))
    extra = tuple(getattr(o, name)() for name in ("sampling_rate", "offset", "resolution", "length", "plateau", "symmetric", "seed") if hasattr(o, name))
    return (type(o).__name__, o.labels(), o.channels().shape, o.channels().dtype.str, digest(o.channels()), repr(extra))


def portable(o):
    """Converts a result to something, that can be compared with the result from another process"""
    k = kind_of(o)
    if k == "Filter":
        return ("Filter", tuple(o.labels()), None, [portable(numpy.array(c)) for c in o(numpy.array([0.0, 1.0, 20.0, 300.0]))])
    if k:
        extra = [getattr(o, name)() for name in ("sampling_rate", "offset", "resolution") if hasattr(o, name)]
        return (k, tuple(o.labels()), extra, numpy.array(o.channels()))
    if isinstance(o, numpy.ndarray):
        return ("array", str(o.dtype.kind), None, numpy.array(o))
    if isinstance(o, (list, tuple)):
        return ("sequence", len(o), None, [portable(x) for x in o])
    if isinstance(o, (numpy.generic,)):
        return ("array", str(o.dtype.kind), None, numpy.array(o))
    if isinstance(o, numpy.random.SeedSequence):
        return ("value", None, None, repr(o))
    return ("value", None, None, o)


def close(a, b, noise=1e-13):
    """:param noise: the expected magnitude of the effect of rounding errors"""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind not in "fc":
        return bool((a == b).all())
    with numpy.errstate(all="ignore"):
        finite = numpy.abs(b[numpy.isfinite(b)])
        scale = float(finite.max()) if finite.size else 0.0
        return bool(numpy.allclose(a, b, rtol=1e-7, atol=1e-9 * scale + noise, equal_nan=True))


def difference(a, b, noise=1e-13):
    """:returns: None, if two portable results are equal (within the numerical precision) or a description of the difference"""
    if type(a) is not type(b) or isinstance(a, str) or isinstance(b, str):
        return None if a == b else f"{short(a)} instead of {short(b)}"
    if a[0] != b[0]:
        return f"{short(a)} instead of {short(b)}"
    if a[1] != b[1]:
        return f"{a[1]} instead of {b[1]}"
    if a[2] != b[2] and not (a[2] is not None and numpy.allclose(a[2], b[2], rtol=1e-12, atol=0.0)):
        return f"the parameters {a[2]} instead of {b[2]}"
    x, y = a[3], b[3]
    if isinstance(y, list):
        for i, (p, q) in enumerate(zip(x, y)):
            d = difference(p, q, noise)
            if d:
                return f"element {i}: {d}"
        return None
    if isinstance(y, (numpy.ndarray, float, complex)):
        if not close(x, y, noise):
            x, y = numpy.asarray(x), numpy.asarray(y)
            if x.shape != y.shape:
                return f"the shape {x.shape} instead of {y.shape}"
            with numpy.errstate(all="ignore"):
                wrong = numpy.argwhere(~((x == y) | ((x != x) & (y != y)) | (abs(x - y) <= 1e-7 * abs(y) + noise)))
            i = tuple(int(v) for v in wrong[0]) if len(wrong) else ()
            return f"at index {i}: {x[i]!r} instead of {y[i]!r}"
        return None
    return None if x == y else f"{x!r} instead of {y!r}"


def short(a):
    return a if isinstance(a, str) else a[0]


# -------------------------------------------------------------- the operations

def fraction_or_int(rng, n=12):
    return rng.choice((rng.randrange(0, n), rng.randrange(-n, 0), round(rng.random(), 2), round(-rng.random(), 2)))


def slice_spec(rng):
    k = rng.randrange(4)
    if k == 0:
        return {"i": rng.randrange(0, 3)}
    if k == 1:
        return {"f": round(rng.random(), 2)}
    return {"s": [rng.choice((None, rng.randrange(0, 6), round(rng.random() * 0.5, 2), -rng.randrange(1, 6))), rng.choice((None, rng.randrange(1, 12), round(0.5 + rng.random() * 0.5, 2), -1)),
                  rng.choice((None, None, None, 1, 2))]}


def to_slice(s):
    if "i" in s:
        return s["i"]
    if "f" in s:
        return s["f"]
    return slice(*s["s"])


operation("getitem", (("Signal", "Spectrum", "Spectrogram"),), lambda rng: {"key": [slice_spec(rng) for _ in range(rng.choice((1, 2, 3)))]}, 2)(
    lambda c, o, p: o[tuple(to_slice(s) for s in p["key"])] if len(p["key"]) > 1 else o[to_slice(p["key"][0])])
operation("filter_getitem", ("Filter",), lambda rng: {"key": slice_spec(rng)})(lambda c, o, p: o[to_slice(p["key"])])
operation("abs", (ALL,), weight=2)(lambda c, o, p: abs(o))
operation("neg", (ALL,), weight=2)(lambda c, o, p: -o)
operation("invert", (("Signal", "Spectrum", "Filter"),), weight=2)(lambda c, o, p: ~o)
operation("reversed", ("Signal",))(lambda c, o, p: reversed(o))
operation("eq", (ALL, ALL))(lambda c, a, b, p: bool(a == b))
operation("eq_self", (ALL,))(lambda c, o, p: (bool(o == o), bool(o != o)))


@operation("text", (ALL,))
def _text(c, o, p):
    text = repr(o)
    numbers = numpy.array([float(n) for n in NUMBER.findall(text)])     # these are compared with a tolerance
    return (numbers, "".join(NUMBER.sub("#", text).split()), type(o).__name__ in str(o))


@operation("hash", (("Signal", "Spectrum", "Spectrogram"),))
def _hash(c, o, p):
    return hash(o) == hash(o)


QUERIES = {"Signal": ("duration", "time_samples", "mean", "standard_deviation", "variance", "level", "sampling_rate", "offset", "length", "shape", "labels"),
           "Spectrum": ("maximum_frequency", "magnitude", "phase", "real", "imaginary", "frequency_samples", "level", "resolution", "length", "shape"),
           "Spectrogram": ("maximum_frequency", "duration", "magnitude", "phase", "real", "imaginary", "frequency_samples", "time_samples", "number_of_frequencies", "offset", "shape")}
for _kind, _names in QUERIES.items():
    operation(f"query_{_kind}", (_kind,), lambda rng, names=_names: {"method": rng.choice(names)}, 2)(lambda c, o, p: getattr(o, p["method"])())
operation("statistics", ("Signal",), lambda rng: {"method": rng.choice(("mean", "standard_deviation", "variance", "level"))})(lambda c, o, p: getattr(o, p["method"])(single_value=True))
operation("statistics_scipy", ("Signal",), lambda rng: {"method": rng.choice(("skewness", "kurtosis")), "single": rng.random() < 0.5}, libraries=("scipy",))(
    lambda c, o, p: getattr(o, p["method"])(single_value=p["single"]))
operation("spectrum_level", ("Spectrum",))(lambda c, o, p: o.level(single_value=True))
operation("pad", (("Signal", "Spectrum", "Spectrogram"),), lambda rng: {"length": rng.choice((0, length(rng), length(rng))), "value": rng.choice((0.0, 0.0, 1.0, -2.5))}, 2)(
    lambda c, o, p: o.pad(p["length"], p["value"]))
operation("shift", (("Signal", "Spectrogram"),), lambda rng: {"shift": rng.choice((None, 0, 1, 2, 3, -1, -2, -5, 7)), "mode": rng.choice(("OFFSET", "CROP", "PAD", "CYCLE"))}, 3)(
    lambda c, o, p: o.shift(p["shift"], getattr(type(o).shift_modes, p["mode"])))
operation("conjugate", (("Spectrum", "Spectrogram"),))(lambda c, o, p: o.conjugate())


def window_spec(rng, long=True):
    return {"form": rng.choice(("int", "int", "int", "array", "list", "Signal", "2d", "own")), "length": rng.choice((2, 3, 4, 5, 8, 9, 16)), "seed": rng.randrange(1 << 30), "overlap": rng.choice((0.5, 0.5, 0, 0.25, 1, 0.75, -1)),
            "pad": rng.random() < 0.6}


def window(c, o, p):
    if p["form"] == "int":
        return p["length"]
    a = numbers(p["seed"], (p["length"],), kind="positive")
    if p["form"] == "array":
        return c.watch(a)
    if p["form"] == "list":
        return a.tolist()
    if p["form"] == "2d":
        return c.watch(numbers(p["seed"], (len(o), p["length"]), kind="positive"))
    if p["form"] == "own":
        return sumpf.HannWindow(length=p["length"], symmetric=False)
    return sumpf.Signal(channels=c.watch(a[None, :]), sampling_rate=o.sampling_rate())


operation("fourier_transform", ("Signal",), weight=3)(lambda c, o, p: o.fourier_transform())
operation("fourier_transform_window", ("Signal",), window_spec, 4)(lambda c, o, p: o.fourier_transform(window=window(c, o, p), overlap=p["overlap"], pad=p["pad"]))
operation("short_time_fourier_transform", ("Signal",), window_spec, 2, ("scipy",))(lambda c, o, p: o.short_time_fourier_transform(window=window(c, o, p), overlap=p["overlap"], pad=p["pad"]))
operation("inverse_short_time_fourier_transform", ("Spectrogram",), window_spec, 2, ("scipy",))(
    lambda c, o, p: o.inverse_short_time_fourier_transform(window=window(c, o, p), overlap=p["overlap"], pad=p["pad"]))


@operation("stft_round_trip", ("Signal",), window_spec, 1, ("scipy",))
def _stft_round_trip(c, o, p):
    w = window(c, o, dict(p, form="int"))
    return o.short_time_fourier_transform(window=w, overlap=0.5).inverse_short_time_fourier_transform(window=w, overlap=0.5)


operation("inverse_fourier_transform", ("Spectrum",), weight=2)(lambda c, o, p: o.inverse_fourier_transform())
operation("level_vs_time", ("Signal",), lambda rng: {"samples": rng.choice((0.5, 1.0, 1.5, 2.0, 2.7, 3.0, 3.5, 4.0, 5.0, 7.0, 8.5, 9.0, 15.0, 17.0, 33.0, 40.0)), "relative": rng.choice((None, None, 0, -1, 1, 2)),
                                                     "pad": rng.random() < 0.3}, 3)(
    lambda c, o, p: o.level_vs_time(integration_time=(p["samples"] if p["relative"] is None else max(o.length() + p["relative"], 1)) / o.sampling_rate(), pad=p["pad"]))


def other_array(c, o, p):
    """an array or a number as second operand"""
    form = p["form"]
    cplx = isinstance(o, (sumpf.Spectrum, sumpf.Spectrogram)) and p.get("complex", False)
    if form == "number":
        return p["number"]
    if form == "complex":
        return complex(p["number"], 1.5)
    if form == "vector":
        return c.watch(numbers(p["seed"], (o.shape()[-1],), cplx))
    if form == "matrix":
        return c.watch(numbers(p["seed"], o.shape(), cplx))
    if form == "column":
        return c.watch(numbers(p["seed"], (len(o),) + (1,) * (len(o.shape()) - 1), cplx))
    if form == "list":
        return numbers(p["seed"], (o.shape()[-1],)).tolist()
    if form == "wrong":
        return c.watch(numbers(p["seed"], (o.shape()[-1] + 1,)))
    return "a text"


def numpy_form(x):
    return x if isinstance(x, (str, list)) else numpy.asarray(x)[()]


OPERATORS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b, "%": lambda a, b: a % b}


def array_spec(rng):
    return {"operator": rng.choice(tuple(OPERATORS)), "form": rng.choice(("number", "number", "complex", "vector", "matrix", "column", "list", "wrong", "text")), "number": rng.choice((0, 1, 2, 0.5, -1.5, 3)), "seed": rng.randrange(1 << 30),
            "complex": rng.random() < 0.5}


operation("array_operand", (("Signal", "Spectrum", "Spectrogram"),), array_spec, 4)(lambda c, o, p: OPERATORS[p["operator"]](o, other_array(c, o, p)))
operation("number_left", (("Signal", "Spectrum", "Spectrogram"),), array_spec, 2)(lambda c, o, p: OPERATORS[p["operator"]](p["number"], o))
operation("list_left", (("Signal", "Spectrum", "Spectrogram"),), array_spec, 1)(lambda c, o, p: OPERATORS[p["operator"]](other_array(c, o, dict(p, form="list")), o))
operation("array_left", (("Signal", "Spectrum", "Spectrogram"),), array_spec, 3)(lambda c, o, p: OPERATORS[p["operator"]](numpy_form(other_array(c, o, p)), o))
operation("filter_number", ("Filter",), array_spec, 2)(lambda c, o, p: OPERATORS[p["operator"]](o, p["number"]))
operation("filter_number_left", ("Filter",), array_spec, 2)(lambda c, o, p: OPERATORS[p["operator"]](p["number"], o))


def operator_spec(rng):
    return {"operator": rng.choice(("+", "-", "*", "/", "+", "-", "*", "/", "**", "%"))}


for _a, _b, _w in (("Signal", "Signal", 6), ("Spectrum", "Spectrum", 4), ("Spectrogram", "Spectrogram", 4), ("Spectrogram", "Signal", 3), ("Signal", "Spectrogram", 3), ("Spectrogram", "Spectrum", 2),
                   ("Spectrum", "Spectrogram", 2), ("Filter", "Filter", 4), ("Filter", "Signal", 2), ("Signal", "Filter", 1), ("Filter", "Spectrum", 2), ("Spectrum", "Filter", 1), ("Filter", "Spectrogram", 2),
                   ("Spectrogram", "Filter", 1), ("Signal", "Spectrum", 0.5)):
    operation(f"{_a}_{_b}", (_a, _b), operator_spec, _w)(lambda c, a, b, p: OPERATORS[p["operator"]](a, b))
for _a in ("Signal", "Spectrum", "Spectrogram"):      # operands, that fit to each other
    def _derived(c, a, p):
        n = p["channels"]
        ch = a.channels()[0:n] if n else a.channels()[::-1]
        b = ch * 0.5 + 1.25
        if isinstance(a, sumpf.Signal):
            b = sumpf.Signal(channels=c.watch(b), sampling_rate=a.sampling_rate(), offset=a.offset() + p["offset"])
        elif isinstance(a, sumpf.Spectrum):
            b = sumpf.Spectrum(channels=c.watch(b), resolution=a.resolution())
        else:
            b = sumpf.Spectrogram(channels=c.watch(b), resolution=a.resolution(), sampling_rate=a.sampling_rate(), offset=a.offset() + p["offset"])
        return OPERATORS[p["operator"]](b, a) if p["swap"] else OPERATORS[p["operator"]](a, b)
    operation(f"{_a}_fitting", (_a,), lambda rng: dict(operator_spec(rng), channels=rng.choice((0, 0, 1, 2)), offset=rng.choice((0, 0, 1, -2)), swap=rng.random() < 0.5), 4)(_derived)


@operation("Spectrogram_fitting_other", ("Spectrogram",), lambda rng: dict(operator_spec(rng), channels=rng.choice((1, 2, 3)), offset=rng.choice((0, 0, 1, -2)), swap=rng.random() < 0.5, other=rng.choice(("Signal", "Spectrum")),
                                                                             extra=rng.choice((0, 0, 2)), seed=rng.randrange(1 << 30)), 4)
def _spectrogram_other(c, a, p):
    if p["other"] == "Signal":
        b = sumpf.Signal(channels=c.watch(numbers(p["seed"], (p["channels"], a.length() + p["extra"]))), sampling_rate=a.sampling_rate(), offset=a.offset() + p["offset"])
    else:
        b = sumpf.Spectrum(channels=c.watch(numbers(p["seed"], (p["channels"], a.number_of_frequencies()), True)), resolution=a.resolution())
    return OPERATORS[p["operator"]](b, a) if p["swap"] else OPERATORS[p["operator"]](a, b)


def partner_spec(rng):
    return {"channels": rng.choice(("1", "n", "n+1", "1", "n")), "length": rng.choice((0, 0, 1, -1, 3)), "bins": rng.choice((0, 0, 0, 1)), "offset": rng.choice((0, 0, 1, -2, 9)), "swap": rng.random() < 0.5, "rate": rng.choice((1.0, 1.0, 1.0, 2.0)),
            "seed": rng.randrange(1 << 30), "labels": rng.randrange(3)}


def partner(c, a, p, kind=None):
    """:returns: a data set, that can be an operand together with the given one"""
    kind = kind or kind_of(a)
    n = {"1": 1, "n": len(a), "n+1": len(a) + 1}[p["channels"]]
    labels = ((), ("p",), ("p", "q", "r"))[p["labels"]]
    if kind == "Signal":
        return sumpf.Signal(channels=c.watch(numbers(p["seed"], (n, max(1, a.length() + p["length"])))), sampling_rate=a.sampling_rate() * p["rate"], offset=a.offset() + p["offset"], labels=labels)
    bins = max(1, a.shape()[1] + p["bins"])
    if kind == "Spectrum":
        return sumpf.Spectrum(channels=c.watch(numbers(p["seed"], (n, bins), True)), resolution=a.resolution() * p["rate"], labels=labels)
    return sumpf.Spectrogram(channels=c.watch(numbers(p["seed"], (n, bins, max(1, a.length() + p["length"])), True)), resolution=a.resolution(), sampling_rate=a.sampling_rate() * p["rate"], offset=a.offset() + p["offset"], labels=labels)


def _partner_operator(c, a, p):
    b = partner(c, a, p, p.get("other"))
    return OPERATORS[p["operator"]](b, a) if p["swap"] else OPERATORS[p["operator"]](a, b)


for _a in ("Signal", "Spectrum", "Spectrogram"):
    operation(f"{_a}_partner", (_a,), lambda rng: dict(operator_spec(rng), **partner_spec(rng)), 4)(_partner_operator)
operation("Spectrogram_other_partner", ("Spectrogram",), lambda rng: dict(operator_spec(rng), other=rng.choice(("Signal", "Spectrum")), **partner_spec(rng)), 3)(_partner_operator)


@operation("convolution_partner", ("Signal",), lambda rng: dict(convolution_spec(rng), **dict(partner_spec(rng), length=rng.choice((0, 1, -1, 5, -7, 30)))), 8)
def _convolution_partner(c, a, p):
    b = partner(c, a, p)
    if p["swap"]:
        a, b = b, a
    if p["form"] in ("matrix", "vector", "row"):
        b = c.watch(b.channels() * 1.0)
        if p["form"] == "vector":
            b = c.watch(b[0] * 1.0)
    return getattr(a, p["method"])(b, mode=getattr(sumpf.Signal.convolution_modes, p["mode"]))


def convolution_spec(rng):
    return {"method": rng.choice(("convolve", "correlate")), "mode": rng.choice(("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")), "form": rng.choice(("vector", "matrix", "number", "list", "row")),
            "seed": rng.randrange(1 << 30), "length": length(rng), "number": 2.5}


operation("convolution", ("Signal", "Signal"), convolution_spec, 5)(lambda c, a, b, p: getattr(a, p["method"])(b, mode=getattr(sumpf.Signal.convolution_modes, p["mode"])))


@operation("convolution_array", ("Signal",), convolution_spec, 4)
def _convolution_array(c, a, p):
    other = {"vector": lambda: c.watch(numbers(p["seed"], (p["length"],))), "matrix": lambda: c.watch(numbers(p["seed"], (len(a), p["length"]))), "row": lambda: c.watch(numbers(p["seed"], (1, p["length"]))),
             "number": lambda: p["number"], "list": lambda: numbers(p["seed"], (p["length"],)).tolist()}[p["form"]]()
    return getattr(a, p["method"])(other, mode=getattr(sumpf.Signal.convolution_modes, p["mode"]))


# filters

def frequencies(c, p):
    r = random.Random(p["seed"])
    fs = [r.choice((0.0, 0.0, 1.0, 20.0, -20.0, round(r.uniform(0, 500), 2), round(r.uniform(0, 5000), 2))) for _ in range(p["n"])]
    return sorted(fs) if p["sorted"] else fs


def frequency_spec(rng):
    return {"n": rng.choice((1, 2, 3, 5, 17)), "seed": rng.randrange(1 << 30), "sorted": rng.random() < 0.5, "scalar": rng.random() < 0.25}


@operation("filter_call", ("Filter",), frequency_spec, 3, tags=("filter",))
def _filter_call(c, o, p):
    fs = frequencies(c, p)
    return o(fs[0]) if p["scalar"] else o(c.watch(numpy.array(fs)))


operation("filter_spectrum", ("Filter",), lambda rng: {"resolution": rng.choice((1.0, 10.0, 48000.0 / 64)), "length": length(rng)}, 3, tags=("filter",))(
    lambda c, o, p: o.spectrum(resolution=p["resolution"], length=p["length"]))
@operation("filter_consistency", ("Filter",), frequency_spec, 3, tags=("filter",))
def _filter_consistency(c, o, p):
    """evaluates the channels together and on their own and the frequencies together, on their own and in other orders"""
    fs = frequencies(c, p)
    r = random.Random(p["seed"])
    order = list(range(len(fs)))
    r.shuffle(order)
    together = o(c.watch(numpy.array(fs)))
    ways = [("frequency by frequency", fs, [[x[i] for x in (o(f) for f in fs)] for i in range(len(o))], together),
            ("in another order", fs, [[x[order.index(i)] for i in range(len(fs))] for x in o(c.watch(numpy.array([fs[i] for i in order])))], together),
            ("twice", fs, [x[len(fs):] for x in o(c.watch(numpy.array(fs + fs)))], together),
            ("again", fs, o(c.watch(numpy.array(fs))), together),
            ("channel by channel", fs, [o[i](c.watch(numpy.array(fs)))[0] for i in range(len(o))], together)]
    if len(fs) > 1:
        resolution = abs(fs[-1]) / (len(fs) - 1) or 1.0
        grid = numpy.linspace(0.0, (len(fs) - 1) * resolution, len(fs))
        ways.append(("as a spectrum", grid, o.spectrum(resolution=resolution, length=len(fs)).channels(), o(grid)))
    for what, f, values, expected in ways:
        for i, (a, b) in enumerate(zip(values, expected)):
            a, b = numpy.asarray(a, dtype=numpy.complex128), numpy.asarray(b, dtype=numpy.complex128)
            if not close(a, b) and not ill_conditioned(o, i, f, a, b):
                raise AssertionError(f"channel {i} of a filter evaluated at {list(f)} is {list(b)}, but {list(a)}, if it is evaluated {what}")
    return together


def ill_conditioned(o, channel, fs, a, b):
    """:returns: True, if the difference of the results is not larger than the effect of rounding errors"""
    if a.shape != b.shape:
        return False
    with numpy.errstate(all="ignore"):
        values = numpy.array([[numpy.asarray(o(float(f) * (1.0 + k * 3e-16))[channel]) for f in fs] for k in range(-40, 41, 8)])
        spread = abs(values.max(axis=0) - values.min(axis=0)) if values.dtype.kind == "f" else abs(values - values[0]).max(axis=0)
        return bool((~(abs(a - b) > 100.0 * spread + 1e-7 * abs(b)) & (numpy.isfinite(a) == numpy.isfinite(b))).all())


operation("bands_db", (), lambda rng: {"seed": rng.randrange(1 << 30), "f": rng.choice((10.0, 20.0))}, tags=("filter",))(
    lambda c, p: (lambda b: (b.to_db(factor=p["f"]), b.to_db().from_db(), b(20.0)))(sumpf.Bands(bands={float(f): v for f, v in zip((10, 50, 200), numbers(p["seed"], (3,), kind="positive"))})))


@operation("iir", (), lambda rng: {"seed": rng.randrange(1 << 30)}, 2, tags=("filter", "generator"))
def _iir(c, p):
    return iir(random.Random(p["seed"]))


@operation("iir_class", (), lambda rng: {"class": rng.choice(("ButterworthFilter", "BesselFilter", "Chebyshev1Filter", "Chebyshev2Filter", "DelayFilter")), "f": rng.choice((100.0, 100, 100.4, 1000.0, 1000.4)), "order": rng.randrange(1, 7),
                                        "highpass": rng.random() < 0.5, "ripple": rng.choice((1.0, 1.5, 3.0, 60.0)), "at": rng.choice((None, 0.0, 100.0, 3000.0)), "call": rng.random() < 0.5}, 3, tags=("filter", "generator"))
def _iir_class(c, p):
    if p["class"] == "DelayFilter":
        f = sumpf.DelayFilter(p["f"] * 1e-5)
    else:
        f = getattr(sumpf, p["class"])(p["f"], *((p["ripple"],) if "Cheby" in p["class"] else ()), order=p["order"], highpass=p["highpass"])
    if p["call"]:
        return (f, f(c.watch(numpy.array([0.0, 50.0, 100.0, 1000.0, 20000.0, -50.0]))) if p["at"] is None else f(p["at"]))
    return f


@operation("merged_filter", ("Filter", "Filter"), weight=1.5, tags=("filter",))
def _merged_filter(c, a, b, p):
    return sumpf.Merge((a, b)).output()


@operation("term_filter", (), lambda rng: {"seed": rng.randrange(1 << 30), "depth": rng.randrange(4), "n": rng.choice((1, 2, 3))}, 2, tags=("filter", "generator"))
def _term_filter(c, p):
    r = random.Random(p["seed"])
    return sumpf.Filter(transfer_functions=tuple(term(r, p["depth"]) for _ in range(p["n"])))


def as_list(r, values):
    return r.choice((list, tuple))(values)


@operation("filter_from_terms", (), lambda rng: {"seed": rng.randrange(1 << 30), "depth": rng.choice((0, 0, 1, 2)), "n": rng.choice((1, 2, 3)), "labels": rng.randrange(5), "what": rng.choice(("list", "list", "one", "equal", "filters"))}, 3, tags=("filter",))
def _filter_from_terms(c, p):
    """creates a filter from sequences, that belong to the user"""
    r = random.Random(p["seed"])
    terms = c.watch(as_list(r, [term(r, p["depth"]) for _ in range(p["n"])]))
    labels = c.watch((["a"], ["a", "b", "c", "d"], ("a", "b"), [], ["x", None, ""])[p["labels"]])
    if p["what"] == "one":
        f = sumpf.Filter(transfer_functions=terms[0:1], labels=labels)
    else:
        f = sumpf.Filter(transfer_functions=terms, labels=labels)
    if p["what"] == "equal":
        other = sumpf.Filter(transfer_functions=[term(r, p["depth"]) for _ in range(p["n"])], labels=labels)
        same = sumpf.Filter(transfer_functions=terms, labels=labels)
        return (f, bool(f == other), bool(f != other), bool(f == same))
    if p["what"] == "filters":
        g = sumpf.Filter(transfer_functions=terms[::-1], labels=labels)
        return (f + g, f - g, f * g, f / g, -f, abs(f), ~f)
    return (f, f(c.watch(numpy.array([0.0, 1.0, 30.0, 30.0, 500.0]))))


@operation("term_algebra", (), lambda rng: {"seed": rng.randrange(1 << 30), "operator": rng.choice("+-*/"), "depth": rng.choice((0, 1, 1)), "number": rng.choice((None, None, 2.0, 0.5, 0, 1))}, 3, tags=("filter",))
def _term_algebra(c, p):
    """combines the terms of transfer functions"""
    r = random.Random(p["seed"])
    a = c.watch(term(r, p["depth"]))
    b = c.watch(term(r, p["depth"])) if p["number"] is None else p["number"]
    results = []
    for x, y in ((a, b), (b, a)):
        if hasattr(x, "transform"):
            results.append(OPERATORS[p["operator"]](x, y))
        else:
            results.append(OPERATORS[p["operator"]](x, y))
    return sumpf.Filter(transfer_functions=results + [a])


@operation("bands", (), lambda rng: {"seed": rng.randrange(1 << 30), "n": rng.choice((1, 1, 2, 3)), "single": rng.random() < 0.3, "flags": rng.randrange(4), "labels": rng.randrange(5), "f": rng.choice((0.0, 0, 5.0, 10, 10.0, 33.3, 50.0, 200.0, 1e4)),
                                     "complex": rng.random() < 0.3, "zero": rng.random() < 0.2}, 4, tags=("filter",))
def _bands(c, p):
    """creates a bands filter from dictionaries and lists, that belong to the user"""
    r = random.Random(p["seed"])
    flags = list(sumpf.Bands.interpolations)
    bands = [{f: round(r.uniform(0.3, 2.0), 3) + (1j * round(r.uniform(-1, 1), 2) if p["complex"] else 0.0) for f in r.sample((1.0, 5.0, 10.0, 20.0, 50.0, 200.0, 400.0) + (0.0,) * p["zero"], r.choice((0, 1, 2, 4)))} for _ in range(p["n"])]
    several = lambda: as_list(r, [r.choice(flags) for _ in range(r.choice((1, p["n"], p["n"] + 1)))])
    interpolations = c.watch(r.choice(flags) if p["flags"] % 2 else several())
    extrapolations = c.watch(r.choice(flags) if p["flags"] // 2 else several())
    labels = c.watch((("Bands",), ["a"], ["a", "b", "c", "d"], [], "one label")[p["labels"]])
    c.watch(bands)
    b = sumpf.Bands(bands=bands[0] if p["single"] else bands, interpolations=interpolations, extrapolations=extrapolations, labels=labels)
    f = c.watch(numpy.array([0.0, 0.5, 1.0, 7.0, 10.0, 30.0, 400.0, 1000.0, -3.0]))
    return (b, b(f), b(p["f"]), b(f), b.to_db().from_db()(f))


@operation("created", (), lambda rng: {"class": rng.choice(("Signal", "Spectrum", "Spectrogram")), "seed": rng.randrange(1 << 30), "labels": rng.randrange(6), "n": rng.choice((1, 2, 3)), "form": rng.choice(("array", "array", "list", "int", "float32", "fortran"))}, 2)
def _created(c, p):
    """creates data sets from arrays and lists, that belong to the user"""
    a = numbers(p["seed"], (p["n"], 5, 4) if p["class"] == "Spectrogram" else (p["n"], 7), p["class"] != "Signal")
    if p["form"] == "int":
        a = (a.real * 10).astype(numpy.int64)
    elif p["form"] == "float32":
        a = a.astype(numpy.float32 if a.dtype.kind == "f" else numpy.complex64)
    elif p["form"] == "fortran":
        a = numpy.asfortranarray(a)
    a = c.watch(a)
    labels = c.watch((["a"], ["a", "b", "c", "d"], ("a", "b"), [], None, ["x", "y", "z"])[p["labels"]])
    o = getattr(sumpf, p["class"])(channels=a, labels=labels)
    return (o, o * 2.0, -o, abs(o), o[0], o.pad(9))


# generators

WINDOWS = ("RectangularWindow", "BartlettWindow", "HannWindow", "HammingWindow", "BlackmanWindow", "KaiserWindow")
SCIPY_WINDOWS = ("BartlettHannWindow", "BlackmanHarrisWindow", "BohmanWindow", "DolphChebyshevWindow", "ExponentialWindow", "FlatTopWindow", "GaussianWindow", "NuttallWindow", "ParzenWindow", "SlepianWindow")
WINDOW_PARAMETERS = {"KaiserWindow": ("beta", 5.0), "DolphChebyshevWindow": ("attenuation", 60.0), "ExponentialWindow": ("decay", 40.0), "GaussianWindow": ("standard_deviation", 0.4), "SlepianWindow": ("beta", 2.0)}
RATES = (48000.0, 48000.0, 48000.0, 48000, 44100.0, 8000.0)
WINDOW_METHODS = ("bandwidth", "scalloping_loss", "recommended_overlap", "scaling_factor", "amplitude_flatness", "power_flatness", "overlap_correlation")


def window_class_spec(names):
    return lambda rng: {"class": rng.choice(names), "length": rng.choice((1, 2, 3, 4, 5, 8, 9, 16, 33)), "plateau": rng.choice((0, 0, 0, 0.25, 2, 0.5)), "symmetric": rng.random() < 0.5, "method": rng.choice((None,) + WINDOW_METHODS),
                        "overlap": rng.choice((0, 0.5, 0.25, 1, 2, 3, 0.9, [0.0, 0.5], [1, 2])), "function": rng.randrange(12),
                        "rate": rng.choice(RATES), "x": rng.choice((None, None, 1, 1.0, 1.25, 1.5, 2.0))}


def _window(c, p):
    kwargs = {}
    if p["class"] in ("FlatTopWindow", "NuttallWindow"):
        functions = list(inspect.signature(getattr(sumpf, p["class"]).__init__).parameters["function"].default.__class__)
        kwargs = {"function": functions[p["function"] % len(functions)]}
    elif p["class"] in WINDOW_PARAMETERS and p["x"] is not None:
        name, value = WINDOW_PARAMETERS[p["class"]]
        kwargs = {name: value * p["x"]}
    w = getattr(sumpf, p["class"])(plateau=p["plateau"], length=p["length"], symmetric=p["symmetric"], sampling_rate=p["rate"], **kwargs)
    m = p["method"]
    if m is None:
        return w
    before = fingerprint(w)
    result = getattr(w, m)(p["overlap"]) if m in WINDOW_METHODS[3:] else getattr(w, m)()
    if fingerprint(w) != before:
        raise AssertionError(f"{p['class']}.{m}() has modified the window")
    return result


operation("window", (), window_class_spec(WINDOWS), 3, tags=("generator",))(_window)
operation("window_scipy", (), window_class_spec(SCIPY_WINDOWS), 2, ("scipy",), tags=("generator", "conditional"))(_window)


def sweep_spec(rng):
    return {"class": rng.choice(("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep")), "length": rng.choice((16, 33, 64, 200, 200, 8192, 8193, 9000)), "start": rng.choice((20.0, 500.0, 20, 20.4)),
            "stop": rng.choice((2000.0, 20000.0, 2000.4)), "phase": rng.choice((0.0, 0.5, 0.7)), "rate": rng.choice(RATES), "interval": rng.choice(([0, 1.0], [0.1, 0.9], [2, -3])), "harmonic": rng.choice((1, 2, 2, 3, 5)), "cut": rng.choice((None, None, 4, 40, 300)),
            "t": rng.choice((0.0, 0.001, [0.0, 0.001]))}


def make_sweep(p):
    return getattr(sumpf, p["class"])(start_frequency=p["start"], stop_frequency=p["stop"], phase=p["phase"], interval=tuple(p["interval"]), length=p["length"], sampling_rate=p["rate"])


@operation("sweep", (), sweep_spec, 2, tags=("generator", "numexpr"))
def _sweep(c, p):
    s = make_sweep(p)
    return (s, s.minimum_frequency(), s.maximum_frequency(), s.instantaneous_frequency(p["t"]))


@operation("harmonic_impulse_response", ("Signal",), sweep_spec, 2)
def _harmonic(c, o, p):
    p = dict(p, **{"class": "ExponentialSweep" if "Exp" in p["class"] else "InverseExponentialSweep"}, length=max(16, min(p["length"], 200)))
    ir = o.shift(-(o.length() // 2)).shift(-o.offset())
    return make_sweep(p).harmonic_impulse_response(ir, p["harmonic"], p["cut"])


@operation("harmonic_of_deconvolution", ("Signal",), sweep_spec, 2)
def _harmonic2(c, o, p):
    n = 64 + 2 * (p["length"] % 40)
    sweep = sumpf.ExponentialSweep(start_frequency=p["start"], stop_frequency=p["stop"], length=n)
    ir = sumpf.Signal(channels=c.watch(numbers(int(p["stop"]) + n, (len(o), 2 * n))), offset=-n, labels=o.labels())
    return sweep.harmonic_impulse_response(ir, p["harmonic"], p["cut"])


NOISES = {"UniformNoise": {"lower_boundary": -2.0}, "GaussianNoise": {"mean": 0.5}, "PoissonNoise": {"lambda_": 3.0}, "LaplaceNoise": {"decay": 2.0}, "VonMisesNoise": {"dispersion": 2.0}, "TriangularNoise": {"mode": 0.3},
          "GeometricNoise": {"p": 0.3}, "HypergeometricNoise": {"acceptable": 5, "non_acceptable": 4, "draws": 3}, "BinomialNoise": {"p": 0.4, "draws": 7}, "BetaNoise": {"alpha": 2.0}, "GammaNoise": {"shape": 2.0},
          "LogarithmicNoise": {"p": 0.7}, "LogisticNoise": {"scale": 2.0}, "LomaxNoise": {"shape": 2.0}, "WaldNoise": {"mean": 2.0}, "ChiSquareNoise": {"degrees_of_freedom": 3.0}}


def noise_spec(rng):
    return {"class": rng.choice(tuple(NOISES)), "seed": rng.choice((0, 0, 1, 42, rng.randrange(1 << 31), rng.randrange(1 << 80), [1, 2, rng.randrange(100)], [0])), "length": rng.choice((0, 1, 2, 5, 16, 33, 100)),
            "parameters": rng.choice((0, 0, 1.0, 1.0, 1.2)), "rate": rng.choice(RATES), "form": rng.choice(("plain", "plain", "numpy", "sequence"))}


def make_seed(p):
    seed = p["seed"]
    if p.get("form") == "numpy" and isinstance(seed, int) and seed < (1 << 62):
        return numpy.int64(seed)
    if p.get("form") == "sequence":
        return numpy.random.SeedSequence(seed)
    return seed


@operation("noise", (), noise_spec, 2, tags=("noise", "generator"))
def _noise(c, p):
    seed = make_seed(p)
    s = getattr(sumpf, p["class"])(seed=seed, length=p["length"], sampling_rate=p["rate"], **{k: v if isinstance(v, int) else v * p["parameters"] for k, v in NOISES[p["class"]].items() if p["parameters"]})
    if s.seed() is not seed and s.seed() != seed:
        raise AssertionError(f"{p['class']}.seed() returns {s.seed()} instead of {seed}")
    return s


@operation("mls", (), lambda rng: {"seed": rng.choice((0, 1, rng.randrange(1 << 31))), "bits": rng.choice((2, 3, 5, None)), "rate": rng.choice(RATES), "length": rng.choice((None, 4, 30, 31, 33))}, 1, ("scipy",), tags=("noise", "generator", "conditional"))
def _mls(c, p):
    s = sumpf.MaximumLengthSequence(bits=3 if p["bits"] is None and p["length"] is None else p["bits"], seed=p["seed"], length=p["length"], sampling_rate=p["rate"])
    return (s, s.bits(), s.period_length(), s.periods())


@operation("wave", (), lambda rng: {"class": rng.choice(("SineWave", "SquareWave")), "length": length(rng), "f": rng.choice((1000.0, 1000, 1000.4, 5000.0)), "phase": rng.choice((0.0, 0.3, 0.7)), "rate": rng.choice(RATES)}, tags=("generator",))
def _wave(c, p):
    return getattr(sumpf, p["class"])(frequency=p["f"], phase=p["phase"], length=p["length"], sampling_rate=p["rate"])


@operation("constant", (), lambda rng: {"class": rng.choice(("ConstantSignal", "ConstantSpectrum", "ConstantSpectrogram")), "length": length(rng), "value": rng.choice((0.0, 1.0, 2.5))}, tags=("generator",))
def _constant(c, p):
    kwargs = {"number_of_frequencies": 5} if p["class"] == "ConstantSpectrogram" else {}
    return getattr(sumpf, p["class"])(value=p["value"], length=p["length"], **kwargs)


@operation("rudin_shapiro", (), lambda rng: {"start": rng.choice((0.0, 3.0)), "stop": rng.choice((None, 10.0, 40.0)), "resolution": rng.choice((1.0, 2.5)), "length": length(rng)}, tags=("generator",))
def _rudin(c, p):
    s = sumpf.RudinShapiroNoiseSpectrum(start_frequency=p["start"], stop_frequency=p["stop"], resolution=p["resolution"], length=p["length"])
    return (s, s.sequence_length())


def interval(rng):
    return rng.choice((None, 3, 0.3, [1, 4], [0.2, 0.6], [0.5, 0.9], [2, -2]))


@operation("fade", (), lambda rng: {"rise": interval(rng), "fall": interval(rng), "length": rng.choice((8, 9, 16, 33, 64)), "function": rng.choice(("blackman", "hanning"))}, 2, tags=("generator",))
def _fade(c, p):
    return sumpf.Fade(function=getattr(numpy, p["function"]), rise_interval=p["rise"], fall_interval=p["fall"], length=p["length"])


@operation("energy_decay", ("Signal",), lambda rng: {"start": rng.choice((0.1, 0)), "stop": rng.choice((0.7, 0.9)), "method": rng.choice((None, "reverberation_time", "decay_model"))}, 2)
def _energy_decay(c, o, p):
    e = sumpf.EnergyDecayCurve(o)
    if p["method"] is None:
        return e
    before = fingerprint(e)
    result = getattr(e, p["method"])(p["start"], p["stop"])
    if fingerprint(e) != before:
        raise AssertionError(f"EnergyDecayCurve.{p['method']}() has modified the curve")
    return result


@operation("merge", (("Signal", "Spectrum", "Spectrogram", "Filter"), ("Signal", "Spectrum", "Spectrogram", "Filter")), lambda rng: {"mode": rng.choice(("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"))}, 1)
def _merge(c, a, b, p):
    return sumpf.Merge((a, b), getattr(sumpf.Merge.modes, p["mode"])).output()


@operation("concatenate", (("Signal", "Spectrogram"), ("Signal", "Spectrogram")), weight=1)
def _concatenate(c, a, b, p):
    return sumpf.Concatenate((a, b)).output()


# the methods of derived classes

DERIVED = (WINDOWS + SCIPY_WINDOWS + tuple(NOISES)
           + ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep", "SineWave", "SquareWave", "MaximumLengthSequence", "EnergyDecayCurve", "Fade", "RudinShapiroNoiseSpectrum", "ButterworthFilter",
              "BesselFilter", "Chebyshev1Filter", "Chebyshev2Filter", "Bands", "DelayFilter"))


def make_derived(name, rng):
    """:returns: an instance of a derived class with random parameters"""
    if name in WINDOWS + SCIPY_WINDOWS:
        return _window(None, dict(window_class_spec((name,))(rng), method=None))
    if name in NOISES:
        return _noise(None, dict(noise_spec(rng), **{"class": name}))
    if "Sweep" in name:
        return make_sweep(dict(sweep_spec(rng), **{"class": name}, length=rng.choice((16, 33, 64))))
    if "Wave" in name:
        return getattr(sumpf, name)(frequency=rng.choice((1000.0, 5000.0)), phase=rng.choice((0.0, 0.3)), length=length(rng))
    cutoff, order, highpass = rng.choice((100.0, 1000.0)), rng.randrange(1, 5), rng.random() < 0.5
    return {"MaximumLengthSequence": lambda: sumpf.MaximumLengthSequence(bits=rng.choice((2, 3, 5)), seed=rng.randrange(100), length=rng.choice((None, 4, 30))),
            "EnergyDecayCurve": lambda: sumpf.EnergyDecayCurve(sumpf.Signal(channels=numbers(rng.randrange(1 << 30), (rng.choice((1, 2)), 30)))),
            "Fade": lambda: sumpf.Fade(rise_interval=rng.choice((None, 3, (1, 4))), fall_interval=rng.choice((None, 3, (0.5, 0.9))), length=rng.choice((8, 9, 16))),
            "RudinShapiroNoiseSpectrum": lambda: sumpf.RudinShapiroNoiseSpectrum(start_frequency=rng.choice((0.0, 3.0)), stop_frequency=rng.choice((None, 10.0)), length=length(rng)),
            "ButterworthFilter": lambda: sumpf.ButterworthFilter(cutoff, order, highpass), "BesselFilter": lambda: sumpf.BesselFilter(cutoff, order, highpass),
            "Chebyshev1Filter": lambda: sumpf.Chebyshev1Filter(cutoff, rng.choice((1.0, 3.0)), order, highpass), "Chebyshev2Filter": lambda: sumpf.Chebyshev2Filter(cutoff, rng.choice((20.0, 60.0)), order, highpass),
            "Bands": lambda: sumpf.Bands(bands={float(f): round(rng.uniform(0.3, 2.0), 3) for f in rng.sample(range(1, 500), 3)}, interpolations=rng.choice(list(sumpf.Bands.interpolations))),
            "DelayFilter": lambda: sumpf.DelayFilter(rng.choice((0.001, 0.1)))}[name]()


def overlap_from(x):
    """an overlap of windows as a part of the length, a number of samples or several of them"""
    return (0.0, 0.25, 0.5, 0.75, 0, 1, 2, 3, 5, [0.0, x % 4 / 4], [1, 2, 0], (0.5,), numpy.array([0.25, 0.75]))[x % 13]


CALLS = {"instantaneous_frequency": lambda o, x: o.instantaneous_frequency([0.0, 0.001 * x]), "scaling_factor": lambda o, x: o.scaling_factor(overlap_from(x)), "amplitude_flatness": lambda o, x: o.amplitude_flatness(overlap_from(x)),
         "power_flatness": lambda o, x: o.power_flatness(overlap_from(x)), "overlap_correlation": lambda o, x: o.overlap_correlation(overlap_from(x)), "reverberation_time": lambda o, x: o.reverberation_time(0.1, 0.7 + x % 3 / 10),
         "decay_model": lambda o, x: o.decay_model(0.1, 0.7 + x % 3 / 10), "spectrum": lambda o, x: o.spectrum(resolution=10.0, length=x % 7 + 1), "__getitem__": lambda o, x: o[0], "__abs__": lambda o, x: abs(o), "__len__": lambda o, x: len(o),
         "harmonic_impulse_response": lambda o, x: o.harmonic_impulse_response(sumpf.Signal(channels=numbers(x, (1, o.length())), sampling_rate=o.sampling_rate()), 2), "__call__": lambda o, x: o(numpy.array([0.0, 1.0, 20.0 * x])),
         "shift": lambda o, x: o.shift(x % 5), "pad": lambda o, x: o.pad(x % 40), "__add__": lambda o, x: o + 1.5, "__eq__": lambda o, x: bool(o == o)}
NOT_CALLED = ("save", "load", "convolve", "correlate", "inverse_short_time_fourier_transform", "short_time_fourier_transform", "__eq__")


def method_names(o):
    """:returns: the names of the methods, that can be called with an instance of any class without knowing more about it"""
    names = []
    for name in sorted(dir(type(o))):
        if name in CALLS:
            names.append(name)
        elif name[0].islower() and name not in NOT_CALLED and inspect.isfunction(getattr(type(o), name)):
            parameters = list(inspect.signature(getattr(type(o), name)).parameters.values())[1:]
            if all(q.default is not q.empty or q.kind in (q.VAR_POSITIONAL, q.VAR_KEYWORD) for q in parameters):
                names.append(name)
    return names


def call_method(o, name, x):
    return CALLS[name](o, x) if name in CALLS else getattr(o, name)()


operation("derived_method", (DERIVED,), lambda rng: {"method": rng.randrange(1000), "x": rng.randrange(1, 100)}, 3, libraries=("scipy",))(
    lambda c, o, p: call_method(o, method_names(o)[p["method"] % len(method_names(o))], p["x"]))


@operation("temporaries", (("Signal", "Spectrum", "Spectrogram"),), lambda rng: {"method": rng.randrange(1000), "x": rng.randrange(1, 100)}, 3, libraries=("scipy",))
def _temporaries(c, o, p):
    """calls a method of data sets, which are deleted afterwards, so that later ones are stored at the same place, and of others, that are kept"""
    name = method_names(o)[p["method"] % len(method_names(o))]

    def call(t):
        try:
            return portable(call_method(t, name, p["x"]))
        except (ValueError, TypeError, IndexError, ZeroDivisionError) as e:
            return f"raised {type(e).__name__}"
    factors = (1.5, -2.25, 0.5, 3.0)
    results = [call(o * f) for f in factors]
    kept = [o * f for f in factors]
    for r, t, f in zip(results, kept, factors):
        d = difference(r, call(t))
        if d:
            raise AssertionError(f"{type(o).__name__}.{name}() of a temporary data set: {d}")
    return kept[1]


def copied(o, how):
    """:returns: a copy of a data set, that is created in the given way"""
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "deepcopy in a list":
        a, b = copy.deepcopy([o, (o,)])
        if a is not b[0]:
            raise AssertionError(f"a {type(o).__name__} is copied twice, when a list is copied, that contains it twice")
        return a
    if how == "pickled copy":
        return pickle.loads(pickle.dumps(copy.copy(o)))
    return pickle.loads(pickle.dumps(o, protocol=int(how[-1])))


@operation("methods_of_a_copy", (), lambda rng: {"generator": rng.randrange(1000), "seed": rng.randrange(1 << 30), "how": rng.choice(COPIES), "x": rng.randrange(1, 100), "used": rng.random() < 0.5}, 30, tags=("copy",))
def _methods_of_a_copy(c, p):
    """compares all methods of a data set and its copy"""
    rng = random.Random(p["seed"])
    generators = [n for n, op in REGISTRY.items() if not op["kinds"] and op["tags"] & {"generator", "filter"} and n != "constant"] + ["value", "energy decay curve"]
    name = generators[p["generator"] % len(generators)]
    if name == "value":
        o = build_value(value_spec(rng))
    elif name == "energy decay curve":
        o = sumpf.EnergyDecayCurve(sumpf.Signal(channels=numbers(p["seed"], (2, 30))))
    else:
        o = REGISTRY[name]["function"](Context(), REGISTRY[name]["parameters"](rng))
    for a in o if isinstance(o, (tuple, list)) else (o,):
        if not kind_of(a):
            continue
        if p["used"]:
            for m in method_names(a):
                try:
                    call_method(a, m, p["x"])
                except Exception:   # pylint: disable=broad-except; the errors are compared below
                    pass
        b = copied(a, p["how"])
        if type(a) is not type(b):
            raise AssertionError(f"the {p['how']} of a {type(a).__name__} is a {type(b).__name__}")
        if not bool(a == b) and bool(a == a):
            raise AssertionError(f"a {type(a).__name__} is not equal to its {p['how']}")
        if fingerprint(a) != fingerprint(b):
            raise AssertionError(f"a {type(a).__name__} is different from its {p['how']}: {fingerprint(b)} instead of {fingerprint(a)}")
        if not isinstance(a, sumpf.Filter) and (a.channels().size and b.channels() is a.channels() and p["how"] != "copy"):
            raise AssertionError(f"a {type(a).__name__} shares its samples with its {p['how']}")
        for m in method_names(a):
            results = []
            for q in (a, b):
                try:
                    results.append(portable(call_method(q, m, p["x"])))
                except Exception as e:  # pylint: disable=broad-except; the errors are compared
                    results.append(f"raised {type(e).__name__}")
            d = difference(results[1], results[0])
            if d:
                raise AssertionError(f"{type(a).__name__}.{m}() after a {p['how']}: {d}")


# odd uses, for which it only matters, that they come to an end

def odd_operand(c, o, p):
    """something, that is combined with a data set"""
    n = p["number"]
    shape = o.shape() if hasattr(o, "shape") else (len(o), 3)
    return {"int": lambda: int(n), "float": lambda: float(n), "complex": lambda: complex(n, 1.0), "bool": lambda: True, "none": lambda: None, "text": lambda: "a text", "bytes": lambda: b"12",
            "float64": lambda: numpy.float64(n), "float32": lambda: numpy.float32(n), "int64": lambda: numpy.int64(n), "uint8": lambda: numpy.uint8(abs(n)), "complex128": lambda: numpy.complex128(n), "bool_": lambda: numpy.bool_(True),
            "0d": lambda: numpy.array(float(n)), "1d": lambda: numpy.arange(float(shape[-1])), "nd": lambda: numpy.ones(shape), "ints": lambda: numpy.arange(shape[-1]), "objects": lambda: numpy.array([n, None]),
            "texts": lambda: numpy.array(["a", "b"]), "empty": lambda: numpy.ones((0,)), "list": lambda: [1.0] * shape[-1], "tuple": lambda: (1.0, 2.0), "nested": lambda: [[1.0], [2.0]], "set": lambda: {1.0}, "dict": lambda: {1.0: 2.0},
            "range": lambda: range(shape[-1]), "generator": lambda: (x for x in (1.0, 2.0)), "fraction": lambda: fractions.Fraction(1, 3), "decimal": lambda: decimal.Decimal(2), "class": lambda: type(o), "object": object,
            "masked": lambda: numpy.ma.masked_array(numpy.ones(shape)), "memoryview": lambda: memoryview(numpy.ones(shape[-1])), "data sets": lambda: [o, o], "array of data sets": lambda: _object_array([o, o])}[p["form"]]()


def _object_array(values):
    a = numpy.ndarray((len(values),), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a


ODD_FORMS = ("int", "float", "complex", "bool", "none", "text", "bytes", "float64", "float32", "int64", "uint8", "complex128", "bool_", "0d", "1d", "nd", "ints", "objects", "texts", "empty", "list", "tuple", "nested", "set", "dict", "range",
             "generator", "fraction", "decimal", "class", "object", "masked", "memoryview", "data sets", "array of data sets")
ODD_OPERATORS = dict(OPERATORS, **{"//": lambda a, b: a // b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "in": lambda a, b: a in b, "@": lambda a, b: a @ b, "+=": operator.iadd, "*=": operator.imul,
                                   "divmod": divmod})
ITERATIONS = {"list": list, "tuple": tuple, "iter": lambda o: next(iter(o)), "in": lambda o: 1.0 in o, "sum": sum, "max": max, "min": min, "sorted": sorted, "set": set, "zip": lambda o: list(zip(o, (1, 2))), "unpack": lambda o: [*o],
              "enumerate": lambda o: dict(enumerate(o)), "map": lambda o: list(map(abs, o)), "any": any, "all": all, "asarray": numpy.asarray, "array": lambda o: numpy.array(o, dtype=numpy.float64), "numpy.sum": numpy.sum,
              "numpy.abs": numpy.abs, "numpy.sqrt": numpy.sqrt, "numpy.mean": numpy.mean, "numpy.fft": numpy.fft.fft, "numpy.add": lambda o: numpy.add(o, 1.0), "numpy.dot": lambda o: numpy.dot(o, o), "stack": lambda o: numpy.stack((o, o)),
              "assign": lambda o: numpy.ones(3).__setitem__(slice(None), o), "reversed": lambda o: list(reversed(o)), "bool": bool, "float": float, "copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o)),
              "repr": repr, "str": str, "hash": hash, "Signal": lambda o: sumpf.Signal(channels=o), "Merge": lambda o: sumpf.Merge(o).output(), "Concatenate": lambda o: sumpf.Concatenate(o).output(), "filter": lambda o: sumpf.DelayFilter()(o),
              "Filter": lambda o: sumpf.Filter(o), "Bands": lambda o: sumpf.Bands(o), "Fade": lambda o: sumpf.Fade(rise_interval=o, length=8), "index": lambda o: o[o]}
ODD = ("odd",)
operation("odd_mixed", (ALL, ALL), lambda rng: {"operator": rng.choice(tuple(ODD_OPERATORS))}, 12, tags=ODD)(lambda c, a, b, p: ODD_OPERATORS[p["operator"]](a, b))
operation("odd_operand", (ALL,), lambda rng: {"operator": rng.choice(tuple(ODD_OPERATORS)), "form": rng.choice(ODD_FORMS), "number": rng.choice((0, 1, 2, -3)), "left": rng.random() < 0.5}, 16, tags=ODD)(
    lambda c, o, p: ODD_OPERATORS[p["operator"]](odd_operand(c, o, p), o) if p["left"] else ODD_OPERATORS[p["operator"]](o, odd_operand(c, o, p)))
operation("odd_iteration", (ALL,), lambda rng: {"how": rng.choice(tuple(ITERATIONS))}, 10, tags=ODD)(lambda c, o, p: ITERATIONS[p["how"]](o))


@operation("odd_index", (ALL,), lambda rng: {"key": [rng.choice((0, 5, -1, -7, 0.0, 0.5, 0.99, 1.0, 1.5, -0.5, -2.5, [None, 0.5], [-0.5, None], [0.9, 0.1], [3, -9], [None, None, -1], [0.0, 1.0, 0.3])) for _ in range(rng.choice((1, 1, 2, 3, 4)))]}, 4, tags=ODD)
def _odd_index(c, o, p):
    key = tuple(slice(*k) if isinstance(k, list) else k for k in p["key"])
    return o[key] if len(key) > 1 else o[key[0]]


ODD_METHODS = {"pad": lambda o, x: o.pad(x), "shift": lambda o, x: o.shift(x), "shift_crop": lambda o, x: o.shift(x, type(o).shift_modes.CROP), "shift_cycle": lambda o, x: o.shift(x, type(o).shift_modes.CYCLE),
               "shift_pad": lambda o, x: o.shift(x, type(o).shift_modes.PAD), "fourier": lambda o, x: o.fourier_transform(), "fourier_window": lambda o, x: o.fourier_transform(window=x), "fourier_overlap": lambda o, x: o.fourier_transform(window=4, overlap=x),
               "stft": lambda o, x: o.short_time_fourier_transform(window=x), "stft_overlap": lambda o, x: o.short_time_fourier_transform(window=4, overlap=x), "istft": lambda o, x: o.inverse_short_time_fourier_transform(window=x),
               "istft_overlap": lambda o, x: o.inverse_short_time_fourier_transform(window=4, overlap=x), "inverse": lambda o, x: o.inverse_fourier_transform(), "level": lambda o, x: o.level_vs_time(x), "convolve": lambda o, x: o.convolve(x),
               "correlate": lambda o, x: o.correlate(x), "convolve_self": lambda o, x: o.convolve(o), "call": lambda o, x: o(x), "spectrum": lambda o, x: o.spectrum(length=int(x)), "spectrum_resolution": lambda o, x: o.spectrum(resolution=x, length=5),
               "energy_decay": lambda o, x: sumpf.EnergyDecayCurve(o).reverberation_time(x), "decay_model": lambda o, x: sumpf.EnergyDecayCurve(o).decay_model(0.0, x), "merge": lambda o, x: sumpf.Merge((o, x)).output(),
               "concatenate": lambda o, x: sumpf.Concatenate((o, o)).output(), "skewness": lambda o, x: o.skewness(), "kurtosis": lambda o, x: o.kurtosis(), "group_delay": lambda o, x: o.group_delay(), "abs": lambda o, x: abs(o), "invert": lambda o, x: ~o,
               "frequency_samples": lambda o, x: o.frequency_samples(), "time_samples": lambda o, x: o.time_samples()}
ODD_KINDS = {"Signal": ("pad", "shift", "shift_crop", "shift_cycle", "shift_pad", "fourier", "fourier_window", "fourier_overlap", "fourier_overlap", "stft", "stft_overlap", "level", "convolve", "correlate", "convolve_self", "energy_decay", "decay_model",
                        "merge", "concatenate", "skewness", "kurtosis", "abs", "invert", "time_samples"),
             "Spectrum": ("pad", "inverse", "merge", "abs", "invert", "frequency_samples"),
             "Spectrogram": ("pad", "shift", "shift_crop", "shift_cycle", "shift_pad", "istft", "istft_overlap", "merge", "concatenate", "abs", "frequency_samples", "time_samples"),
             "Filter": ("call", "spectrum", "spectrum_resolution", "group_delay", "merge", "abs", "invert")}
ODD_NUMBERS = (0, 1, 2, 3, 4, 5, 7, -1, -3, -4, -5, 0.0, 0.5, -0.5, 0.99, 1.0, 1.5, 300, float("nan"), float("inf"), -10 ** 12, 10 ** 12)
operation("odd_method", (ALL,), lambda rng: {"method": rng.choice(tuple(ODD_METHODS)), "x": rng.choice(ODD_NUMBERS), "own": rng.choice((True, True, True, False)), "number": rng.randrange(1000)}, 12, tags=ODD)(
    lambda c, o, p: ODD_METHODS[ODD_KINDS[kind_of(o)][p["number"] % len(ODD_KINDS[kind_of(o)])] if p["own"] else p["method"]](o, p["x"]))
ODD_GENERATORS = {}
for _w in WINDOWS + SCIPY_WINDOWS:
    ODD_GENERATORS[_w] = lambda p, w=_w: (lambda o: (o, [m(o, p["x"]) for m in (lambda o, x: o.overlap_correlation(x), lambda o, x: o.amplitude_flatness(x), lambda o, x: o.power_flatness(x), lambda o, x: o.scaling_factor(x),
                                                                                 lambda o, x: o.recommended_overlap(), lambda o, x: o.bandwidth(), lambda o, x: o.scalloping_loss())[p["m"]:p["m"] + 1]]))(
        getattr(sumpf, w)(plateau=p["x"], length=p["length"], symmetric=p["flag"]))
for _s in ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep"):
    ODD_GENERATORS[_s] = lambda p, s=_s: getattr(sumpf, s)(start_frequency=p["f"], stop_frequency=p["g"], interval=(p["x"], p["y"]), length=p["length"])
for _n in NOISES:
    ODD_GENERATORS[_n] = lambda p, n=_n: getattr(sumpf, n)(length=p["length"], seed=p["seed"])
ODD_GENERATORS.update({
    "SineWave": lambda p: (lambda w: (w, w.periods()))(sumpf.SineWave(frequency=p["f"], length=p["length"])), "SquareWave": lambda p: sumpf.SquareWave(frequency=p["f"], length=p["length"]),
    "Fade": lambda p: sumpf.Fade(rise_interval=p["x"], fall_interval=(p["y"], p["x"]) if p["flag"] else p["y"], length=p["length"]),
    "MaximumLengthSequence": lambda p: sumpf.MaximumLengthSequence(bits=p["bits"], length=p["length"], seed=p["seed"]),
    "RudinShapiroNoiseSpectrum": lambda p: sumpf.RudinShapiroNoiseSpectrum(start_frequency=p["f"], stop_frequency=p["g"], resolution=p["r"], length=p["length"]),
    "ConstantSignal": lambda p: sumpf.ConstantSignal(value=p["f"], length=p["length"]), "ConstantSpectrogram": lambda p: sumpf.ConstantSpectrogram(length=p["length"], number_of_frequencies=p["bits"]),
    "ButterworthFilter": lambda p: sumpf.ButterworthFilter(cutoff_frequency=p["f"], order=p["bits"], highpass=p["flag"])(p["g"]), "BesselFilter": lambda p: sumpf.BesselFilter(cutoff_frequency=p["f"], order=p["bits"], highpass=p["flag"])(p["g"]),
    "Chebyshev1Filter": lambda p: sumpf.Chebyshev1Filter(p["f"], p["r"], p["bits"], p["flag"])(p["g"]), "Chebyshev2Filter": lambda p: sumpf.Chebyshev2Filter(p["f"], p["r"], p["bits"], p["flag"])(p["g"]),
    "Bands": lambda p: sumpf.Bands(bands={p["f"]: 1.0, p["g"]: 2.0} if p["flag"] else {}, interpolations=list(sumpf.Bands.interpolations)[p["bits"] % 7], extrapolations=list(sumpf.Bands.interpolations)[p["seed"] % 7])([0.0, p["f"], p["g"]]),
    "Signal": lambda p: sumpf.Signal(channels=numpy.ones((p["bits"], p["length"])), offset=p["seed"], labels=("a", "b")), "empty signals": lambda p: sumpf.Signal().convolve(sumpf.Signal()), "empty merge": lambda p: sumpf.Merge().output(),
    "empty concatenate": lambda p: sumpf.Concatenate().output(), "Spectrum": lambda p: sumpf.Spectrum(channels=numpy.ones((p["bits"], p["length"]), dtype=numpy.complex128)).inverse_fourier_transform()})


@operation("odd_generator", (), lambda rng: {"class": rng.choice(tuple(ODD_GENERATORS)), "length": rng.choice((0, 0, 1, 2, 3, 8, 33, -1)), "x": rng.choice((0, 0.0, 0.5, 1.0, 1.5, -1, -0.5, -7, 3, 100)), "y": rng.choice((0, 1.0, -1, 0.2, -9, 5)),
                                             "f": rng.choice((0.0, 20.0, 1000.0, -5.0, 1e9)), "g": rng.choice((0.0, 20.0, 3000.0, 1e9)), "r": rng.choice((0.0, 1.0, 3.0, -2.0)), "bits": rng.choice((0, 1, 2, 3, 5, 8)), "seed": rng.choice((0, 1, 7)),
                                             "flag": rng.random() < 0.5, "m": rng.randrange(8)}, 10, tags=ODD)
def _odd_generator(c, p):
    return ODD_GENERATORS[p["class"]](p)


def random_step(rng, names=None):
    names = names or tuple(REGISTRY)
    total = sum(REGISTRY[n]["weight"] for n in names)
    r = rng.random() * total
    for n in names:
        r -= REGISTRY[n]["weight"]
        if r < 0:
            break
    return {"op": n, "p": REGISTRY[n]["parameters"](rng), "pick": [rng.randrange(1 << 16) for _ in REGISTRY[n]["kinds"]]}
