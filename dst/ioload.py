"""The workload for the persistence: histories of saving and loading data sets on a simulated disk.

Each run is executed in a process, that is forked from a pristine one.  The simulated disk (shim/shim.c, preloaded)
owns the results of all system calls on files in the run's scratch directory, so that it can inject errors, short reads
and writes, lost and torn writes and crashes at any system call.
"""

import ctypes
import gc
import hashlib
import io
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile

import aifc      # noqa
import csv       # noqa
import pickle
import wave      # noqa
import zipfile   # noqa

import numpy
import scipy.signal
import scipy.stats      # noqa
import soundfile        # noqa
import sumpf

from dst import forked, sched
from dst.base import Outcome, clone, describe, list_removals, pick

LIB = ctypes.CDLL(None)
L = ctypes.c_long
OPEN, WRITE, READ, CLOSE, TRUNC, SYNC = 1, 2, 4, 8, 16, 32
ERR, SHORT, DROP, TORN, EXIT, SHORT_ERR = 1, 2, 3, 4, 5, 6
KIND_NAMES = {1: "open", 2: "write", 4: "read", 8: "close", 16: "truncate", 32: "sync"}
ACTION_NAMES = {1: "error", 2: "short", 3: "lost", 4: "torn", 5: "crash", 6: "disk full"}
ENOSPC, EIO, EACCES, EMFILE, EROFS = 28, 5, 13, 24, 30
PREFIX = os.path.dirname(sumpf.__file__)

CLASSES = {"Signal": sumpf.Signal, "Spectrum": sumpf.Spectrum, "Spectrogram": sumpf.Spectrogram, "Filter": sumpf.Filter, "Bands": sumpf.Bands}
# the formats and the extensions, that are documented for them; the first ones of the class's formats for an extension are those, that are chosen automatically
EXTENSIONS = {
    "Signal": {".csv": ["TEXT_CSV"], ".json": ["TEXT_JSON"], ".js": ["TEXT_JSON"], ".npz": ["NUMPY_NPZ"], ".npy": ["NUMPY_NPY"], ".pickle": ["PYTHON_PICKLE"],
               ".wav": ["WAV_FLOAT32", "WAV_INT32", "WAV_INT24", "WAV_INT16", "WAV_FLOAT64", "WAV_UINT8", "WAV_ULAW", "WAV_ALAW"],
               ".aiff": ["AIFF_FLOAT32", "AIFF_INT32", "AIFF_INT24", "AIFF_INT16", "AIFF_FLOAT64", "AIFF_INT8", "AIFF_UINT8", "AIFF_ULAW", "AIFF_ALAW"],
               ".aif": ["AIFF_FLOAT32", "AIFF_INT32", "AIFF_INT24", "AIFF_INT16"], ".aifc": ["AIFF_FLOAT32", "AIFF_INT32", "AIFF_INT24", "AIFF_ULAW"],
               ".flac": ["FLAC_INT24", "FLAC_INT16", "FLAC_INT8"], ".ogg": ["OGG_VORBIS"], ".oga": ["OGG_VORBIS"]},
    "Spectrum": {".csv": ["TEXT_CSV"], ".json": ["TEXT_JSON"], ".js": ["TEXT_JSON"], ".npz": ["NUMPY_NPZ"], ".npy": ["NUMPY_NPY"], ".pickle": ["PYTHON_PICKLE"]},
    "Spectrogram": {".json": ["TEXT_JSON"], ".js": ["TEXT_JSON"], ".npz": ["NUMPY_NPZ"], ".pickle": ["PYTHON_PICKLE"]},
    "Filter": {".txt": ["TEXT_REPR"], ".json": ["TEXT_JSON"], ".js": ["TEXT_JSON"], ".pickle": ["PYTHON_PICKLE"]},
    "Bands": {".txt": ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_REPR", "TEXT_GNUPLOT"], ".dat": ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT"],
              ".asc": ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT"], ".tab": ["TEXT_TAB_I", "TEXT_TAB_J", "TEXT_GNUPLOT"], ".csv": ["TEXT_CSV"],
              ".json": ["TEXT_JSON"], ".js": ["TEXT_JSON"], ".npy": ["NUMPY_NPY"], ".npz": ["NUMPY_NPZ"], ".pickle": ["PYTHON_PICKLE"]},
}
CODE_FORMATS = ("PYTHON_PICKLE", "TEXT_REPR")       # reading damaged files of these formats could execute arbitrary code
BITS = {"UINT8": 8, "INT8": 8, "INT16": 16, "INT24": 24, "INT32": 32, "FLOAT32": -1, "FLOAT64": -2, "ULAW": -3, "ALAW": -3, "VORBIS": -4}
NEEDS_SOUNDFILE = ("WAV_INT24", "WAV_FLOAT32", "WAV_FLOAT64", "WAV_ULAW", "WAV_ALAW", "AIFF_UINT8", "AIFF_INT24", "AIFF_FLOAT32", "AIFF_FLOAT64", "AIFF_ULAW", "AIFF_ALAW",
                   "FLAC_INT8", "FLAC_INT16", "FLAC_INT24", "OGG_VORBIS")


# ------------------------------------------------------------------- data sets

LABELS = ["", "left", "right", "a label", "ä, ö\tü", 'quo"ted', "x;y", "1.5", "Ω", "#3"]


EXTREMES = (1e300, -1e300, 5e-324, 2.2250738585072014e-308, 0.1, 1.0 / 3.0, 123456789.123456789, -0.0, 1e-17, 4.0)


def object_spec(rng, cls=None):
    cls = cls or pick(rng, {"Signal": 8, "Spectrum": 3, "Spectrogram": 2, "Filter": 2, "Bands": 4})
    spec = {"cls": cls, "seed": rng.randrange(1 << 30), "channels": rng.choice((1, 1, 1, 2, 2, 3, 5, 8)), "labels": [rng.choice(LABELS) for _ in range(rng.randrange(0, 6))]}
    if cls == "Signal":
        spec["length"] = rng.choice((1, 2, 3, 4, 7, 16, 33, 100, 300, 1023, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000))
        if spec["length"] > 1000:
            spec["channels"] = min(spec["channels"], 3)
        spec["rate"] = rng.choice((48000.0, 44100.0, 96000.0, 8000.0, 192000.0, 22050.0, 11025.5, 1.0, 100000.0))
        spec["offset"] = rng.choice((0, 0, 0, 1, -1, 17, -5, 1000, -4096))
        spec["values"] = pick(rng, {"noise": 6, "zeros": 2, "impulse": 2, "steps": 2, "full": 2, "sweep": 2, "extreme": 1})
        spec["sub"] = pick(rng, {None: 12, "ExponentialSweep": 1, "InverseLinearSweep": 1, "LinearSweep": 0.5, "InverseExponentialSweep": 0.5, "HannWindow": 1, "SineWave": 1, "UniformNoise": 1,
                                 "MaximumLengthSequence": 0.5})
    elif cls == "Spectrum":
        spec["length"] = rng.choice((1, 2, 3, 4, 17, 65, 300, 1025))
        spec["resolution"] = rng.choice((1.0, 0.5, 48000.0 / 4096, 100.0, 1e-3))
        spec["values"] = pick(rng, {"noise": 6, "zeros": 1, "impulse": 1, "real": 1, "extreme": 1})
        spec["sub"] = pick(rng, {None: 9, "RudinShapiroNoiseSpectrum": 1})
    elif cls == "Spectrogram":
        spec["length"] = rng.choice((1, 2, 3, 10, 33))
        spec["bins"] = rng.choice((1, 2, 9, 33))
        spec["rate"] = rng.choice((100.0, 48000.0 / 512, 1.0))
        spec["resolution"] = rng.choice((1.0, 48000.0 / 1024))
        spec["offset"] = rng.choice((0, 0, 3, -7))
        spec["values"] = pick(rng, {"noise": 6, "zeros": 1, "extreme": 1})
    elif cls == "Filter":
        spec["channels"] = rng.choice((1, 1, 2, 3))
        spec["sub"] = pick(rng, {None: 6, "ButterworthFilter": 1, "AWeighting": 0.5, "UWeighting": 0.5, "Chebyshev1Filter": 1, "BesselFilter": 0.5, "DelayFilter": 0.5})
    else:
        spec["channels"] = rng.choice((1, 1, 2, 3, 4))
        spec["points"] = rng.choice((1, 2, 3, 8, 30, 1100))
        spec["values"] = pick(rng, {"complex": 3, "real": 1, "ragged": 2})
    return spec


def build(spec):
    """Creates the data set from its specification"""
    g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
    cls, n = spec["cls"], spec["channels"]
    labels = tuple(spec["labels"])
    if cls == "Signal":
        length = spec["length"]
        if spec.get("sub") and length > 2:
            if spec["sub"].endswith("Sweep"):
                return getattr(sumpf, spec["sub"])(sampling_rate=spec["rate"], length=length, start_frequency=spec["rate"] / 1000.0, stop_frequency=spec["rate"] / 2.5)
            if spec["sub"] == "UniformNoise":
                return sumpf.UniformNoise(lower_boundary=-0.9, upper_boundary=0.9, seed=spec["seed"], sampling_rate=spec["rate"], length=length)
            if spec["sub"] == "MaximumLengthSequence":
                return sumpf.MaximumLengthSequence(bits=7, seed=spec["seed"] % 100 + 1, sampling_rate=spec["rate"], length=length)
            if spec["sub"] == "HannWindow":
                return sumpf.HannWindow(sampling_rate=spec["rate"], length=length)
            return sumpf.SineWave(frequency=spec["rate"] / 37.0, sampling_rate=spec["rate"], length=length)
        v = numpy.zeros((n, length))
        kind = spec["values"]
        if kind == "noise":
            v = g.uniform(-0.95, 0.95, (n, length))
        elif kind == "impulse":
            v[:, spec["seed"] % length] = 0.5
        elif kind == "steps":
            v = g.integers(-100, 100, (n, length)) / 128.0
        elif kind == "full":
            v = g.choice((-1.0, 1.0, 0.5, 0.0), (n, length))
        elif kind == "extreme":
            v = g.choice(EXTREMES, (n, length))
        elif kind == "sweep":
            v = 0.9 * numpy.sin(numpy.arange(n * length).reshape((n, length)) ** 1.5 * 0.01)
        return sumpf.Signal(channels=v, sampling_rate=spec["rate"], offset=spec["offset"], labels=labels)
    if cls in ("Spectrum", "Spectrogram"):
        if spec.get("sub"):
            return sumpf.RudinShapiroNoiseSpectrum(start_frequency=spec["resolution"], stop_frequency=spec["resolution"] * spec["length"], resolution=spec["resolution"], length=spec["length"])
        shape = (n, spec["length"]) if cls == "Spectrum" else (n, spec["bins"], spec["length"])
        v = numpy.zeros(shape, dtype=numpy.complex128)
        if spec["values"] == "noise":
            v = g.normal(size=shape) + 1j * g.normal(size=shape)
        elif spec["values"] == "real":
            v = g.normal(size=shape) + 0j
        elif spec["values"] == "impulse":
            v[..., -1] = 2.5 - 1e-7j
        elif spec["values"] == "extreme":
            v.real = g.choice(EXTREMES, shape)
            v.imag = g.choice(EXTREMES, shape)
        if cls == "Spectrum":
            return sumpf.Spectrum(channels=v, resolution=spec["resolution"], labels=labels)
        return sumpf.Spectrogram(channels=v, resolution=spec["resolution"], sampling_rate=spec["rate"], offset=spec["offset"], labels=labels)
    if cls == "Bands":
        bands = []
        fs = numpy.unique(numpy.round(g.uniform(20.0, 20000.0, spec["points"]), 3))
        for _ in range(n):
            chosen = fs if spec["values"] != "ragged" else fs[g.uniform(size=len(fs)) < 0.6]
            if len(chosen) == 0:
                chosen = fs[0:1]
            if spec["values"] == "real":
                bands.append({float(f): float(v) for f, v in zip(chosen, g.normal(size=len(chosen)))})
            else:
                bands.append({float(f): complex(a, b) for f, a, b in zip(chosen, g.normal(size=len(chosen)), g.normal(size=len(chosen)))})
        modes = list(sumpf.Bands.interpolations)
        return sumpf.Bands(bands=bands, interpolations=[modes[i] for i in g.integers(0, len(modes), n)], extrapolations=[modes[i] for i in g.integers(0, len(modes) - 1, n)],
                           labels=labels or ("b",))
    if spec.get("sub"):
        if spec["sub"] == "ButterworthFilter":
            return sumpf.ButterworthFilter(cutoff_frequency=1000.0 + spec["seed"] % 1000, order=1 + spec["seed"] % 7, highpass=bool(spec["seed"] % 2))
        if spec["sub"] == "Chebyshev1Filter":
            return sumpf.Chebyshev1Filter(cutoff_frequency=1000.0 + spec["seed"] % 1000, order=1 + spec["seed"] % 5)
        if spec["sub"] == "BesselFilter":
            return sumpf.BesselFilter(cutoff_frequency=1000.0 + spec["seed"] % 1000, order=1 + spec["seed"] % 5, highpass=bool(spec["seed"] % 2))
        if spec["sub"] == "DelayFilter":
            return sumpf.DelayFilter(delay=(1 + spec["seed"] % 100) * 1e-4)
        return getattr(sumpf, spec["sub"])()
    r = random.Random(spec["seed"])
    return sumpf.Filter(transfer_functions=[term(r, 2) for _ in range(n)], labels=labels)


def term(r, depth):
    F = sumpf.Filter
    kind = r.choice(("Polynomial", "Exp", "Constant", "Bands") if depth == 0 else ("Polynomial", "Exp", "Bands", "Quotient", "Product", "Sum", "Difference", "Absolute", "Negative"))
    transform = r.random() < 0.3
    if kind == "Constant":
        return F.Constant(value=r.choice((0.5, -2.0, 1 + 2j)) if r.random() < 0.5 else r.uniform(0.1, 3))
    if kind == "Polynomial":
        coefficients = [round(r.uniform(-3, 3), r.choice((2, 17))) for _ in range(r.randrange(1, 5))]
        return F.Polynomial(coefficients=[0.5 if c in (0.0, 1.0, -1.0) else c for c in coefficients], transform=transform)     # trivial terms are simplified, when loading them
    if kind == "Exp":
        return F.Exp(coefficient=-r.uniform(1e-5, 1e-3), transform=transform)
    if kind == "Bands":
        k = r.randrange(1, 6)
        modes = list(sumpf.Bands.interpolations)
        return F.Bands(xs=numpy.sort(numpy.array([r.uniform(20, 20000) for _ in range(k)])), ys=numpy.array([r.uniform(0.1, 3) for _ in range(k)]),
                       interpolation=r.choice(modes), extrapolation=r.choice(modes[:-1]))
    a = [term(r, depth - 1) for _ in range(2 if kind in ("Quotient", "Difference") else 1 if kind in ("Absolute", "Negative") else r.randrange(2, 4))]
    if kind == "Quotient":
        return F.Quotient(numerator=a[0], denominator=a[1], transform=transform)
    if kind == "Difference":
        return F.Difference(minuend=a[0], subtrahend=a[1], transform=transform)
    if kind == "Product":
        return F.Product(factors=a, transform=transform)
    if kind == "Sum":
        return F.Sum(summands=a, transform=transform)
    return getattr(F, kind)(value=a[0], transform=transform)


def arrays(o):
    """the numbers, of which a data set consists, in a comparable form"""
    if isinstance(o, sumpf.Bands):
        return [numpy.asarray(a) for t in o.transfer_functions() for a in (t.xs, t.ys)]
    if isinstance(o, sumpf.Filter):
        return [o.spectrum(resolution=97.0, length=40).channels()]
    return [o.channels()]


def fingerprint(o):
    """identifies the content of a data set"""
    h = hashlib.sha256()
    try:
        content = arrays(o)
    except Exception as e:  # pylint: disable=broad-except; a filter, that has been loaded from a damaged file, might not be computable
        return "not computable " + type(e).__name__
    for a in content:
        h.update(repr((a.shape, a.dtype.str)).encode())
        h.update(numpy.ascontiguousarray(a).tobytes())
    meta = [type(o).__name__, o.labels()]
    for name in ("sampling_rate", "resolution", "offset"):
        if hasattr(o, name):
            meta.append((name, getattr(o, name)()))
    if isinstance(o, sumpf.Filter):
        meta.append([repr(t) for t in o.transfer_functions()])
    h.update(repr(meta).encode())
    return h.hexdigest()[:20]


def well_formed(o, cls):
    """:returns: None or a description of the problem"""
    if not isinstance(o, sumpf.Filter if cls in ("Filter", "Bands") else CLASSES[cls]):
        return f"it is a {type(o).__name__}"
    n = len(o)
    if len(o.labels()) != n or not all(isinstance(l, str) for l in o.labels()):
        return f"{n} channels and the labels {o.labels()}"
    if cls in ("Filter", "Bands"):
        return None if len(o.transfer_functions()) == n else "wrong number of transfer functions"
    c = o.channels()
    if not isinstance(c, numpy.ndarray) or c.shape != o.shape() or len(c) != n or c.dtype.kind not in "fc":
        return f"the channels are {type(c).__name__} {getattr(c, 'shape', '')} {getattr(c, 'dtype', '')}"
    return None


def supported(spec, fmt, missing):
    """whether this data set can be represented in this format"""
    if fmt in NEEDS_SOUNDFILE and "soundfile" in missing:
        return False
    if spec["cls"] != "Signal":
        return not (spec["cls"] == "Spectrum" and fmt in ("TEXT_CSV", "NUMPY_NPY") and spec["length"] < 2)
    container = fmt.split("_")[0]
    if container in ("WAV", "AIFF", "FLAC", "OGG") and (spec["length"] < 3 or spec["values"] == "extreme" and not spec.get("sub") and not fmt.endswith("FLOAT64")):
        return False
    if container == "FLAC" and spec["channels"] > 8:
        return False
    if container == "OGG" and (spec["rate"] < 1000 or spec["length"] < 3 or spec["channels"] > 3):
        return False
    if fmt in ("TEXT_CSV", "NUMPY_NPY") and spec["length"] < 2:
        return False
    return True


def expected_rate(rate, fmt):
    if fmt.startswith("FLAC") and rate >= 65535.5:
        return [float(min(int(round(rate, -1)), 655350))]
    if fmt.startswith("OGG"):
        return [float(max(1000, min(int(round(rate)), 200000)))]
    r = max(1.0, float(round(rate)))
    return [r, rate]


def close(a, b, abs_=0.0, rel=0.0):
    return a.shape == b.shape and bool(numpy.all((a == b) | (numpy.abs(a - b) <= abs_ + rel * numpy.abs(b)) | (numpy.isnan(a) & numpy.isnan(b))))


def difference(spec, original, loaded, fmt, filename):
    """Compares a loaded data set with the saved one.

    :returns: None or a description of the difference
    """
    problem = well_formed(loaded, spec["cls"])
    if problem:
        return problem
    cls = spec["cls"]
    exact = fmt in ("TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE", "TEXT_REPR")
    file_labels = tuple(f"{filename} {i}" for i in range(1, len(original) + 1))
    if len(loaded) != len(original):
        return f"{len(loaded)} instead of {len(original)} channels"
    if exact or (fmt == "TEXT_CSV"):
        if loaded.labels() != original.labels():
            return f"the labels are {loaded.labels()} instead of {original.labels()}"
    elif loaded.labels() != file_labels:
        return f"the labels are {loaded.labels()} instead of {file_labels}"
    if fmt == "PYTHON_PICKLE" and type(loaded) is not type(original):
        return f"it is a {type(loaded).__name__} instead of a {type(original).__name__}"
    if cls in ("Filter", "Bands"):
        trivial = "subtrahend=Filter.Constant(value=0.0)" in repr(original)       # negating a Bands term twice leads to this; it is simplified, when loading the filter
        if trivial and exact:
            a, b = ([f.spectrum(resolution=97.0, length=250).channels()] for f in (loaded, original))
            return None if close(a[0], b[0], rel=1e-9) else "the transfer functions differ"
        if fmt == "TEXT_REPR" and "array" in repr(original):      # the representation of an array does not contain all digits
            return None if repr(loaded) == repr(original) else "the representation of the loaded filter is different"
        if exact and not loaded == original:
            return "the loaded filter is not equal to the saved one"
        if cls == "Bands":
            for i, (t, u) in enumerate(zip(loaded.transfer_functions(), original.transfer_functions())):
                if not numpy.array_equal(t.xs, u.xs) or not numpy.array_equal(t.ys, u.ys):
                    return f"the bands of channel {i} differ: {t.xs} {t.ys} instead of {u.xs} {u.ys}"
                if exact and (t.interpolation is not u.interpolation or t.extrapolation is not u.extrapolation):
                    return f"the interpolation of channel {i} differs"
        else:
            a, b = arrays(loaded)[0], arrays(original)[0]
            if not close(a, b, rel=1e-9):
                return f"the transfer functions differ: {a.ravel()[:4]} instead of {b.ravel()[:4]}"
        return None
    a, b = loaded.channels(), original.channels()
    if cls in ("Spectrum", "Spectrogram"):
        if not numpy.array_equal(a, b):
            return f"the channels differ: shape {a.shape}, {a.ravel()[:3]} instead of shape {b.shape}, {b.ravel()[:3]}"
        if not abs(loaded.resolution() - original.resolution()) <= (0.0 if exact else 1e-9) * abs(original.resolution()):
            return f"the resolution is {loaded.resolution()} instead of {original.resolution()}"
        if cls == "Spectrogram" and (loaded.sampling_rate(), loaded.offset()) != (original.sampling_rate(), original.offset()):
            return f"the sampling rate and the offset are {loaded.sampling_rate()} and {loaded.offset()} instead of {original.sampling_rate()} and {original.offset()}"
        return None
    container, _, sub = fmt.partition("_")
    if container in ("WAV", "AIFF", "FLAC", "OGG"):
        bits = BITS[sub]
        if bits > 0:
            b = numpy.clip(b, -1.0, 1.0)
        if a.shape == (1, b.shape[1] + 1) and b.shape[1] % 2 and container == "AIFF" and bits in (8, -3):
            a = a[:, :-1]       # AIFF chunks have an even length
        if a.shape != b.shape:
            return f"the shape is {a.shape} instead of {b.shape}"
        if bits < -2 and numpy.max(numpy.abs(b)) > 1.0:
            b = a       # clipping is not specified for the lossy formats
        if bits > 0:
            ok = close(a, b, abs_=2.0 / 2 ** bits)
        elif bits == -1:
            ok = close(a, b, rel=1e-6, abs_=1e-12)
        elif bits == -2:
            ok = close(a, b)
        elif bits == -3:
            ok = close(a, b, abs_=2.0 / 256, rel=10.0 / 256)
        else:
            ok = bool(numpy.isfinite(a).all())
            if ok and b.shape[1] > 2000 and spec["values"] == "sweep" and not spec.get("sub") and spec["rate"] <= 48000.0:      # lossy, but it should still be this signal
                ok = bool(numpy.sqrt(numpy.mean((a - b)[0, 0:1900] ** 2)) < 0.5 * numpy.sqrt(numpy.mean(b[0, 0:1900] ** 2)))
        if not ok:
            i = int(numpy.argmax(numpy.abs(a - b)))
            return f"the samples differ: {a.ravel()[i]} instead of {b.ravel()[i]} at position {i}"
        if loaded.sampling_rate() not in expected_rate(original.sampling_rate(), fmt):
            return f"the sampling rate is {loaded.sampling_rate()} instead of {original.sampling_rate()}"
        return None if loaded.offset() == 0 else f"the offset is {loaded.offset()}"
    if not numpy.array_equal(a, b):
        return f"the channels differ: shape {a.shape}, {a.ravel()[:3]} instead of shape {b.shape}, {b.ravel()[:3]}"
    if not abs(loaded.sampling_rate() - original.sampling_rate()) <= (0.0 if exact else 1e-6) * original.sampling_rate():
        return f"the sampling rate is {loaded.sampling_rate()} instead of {original.sampling_rate()}"
    if loaded.offset() != original.offset():
        return f"the offset is {loaded.offset()} instead of {original.offset()}"
    return None


# ------------------------------------------------------------------ generation

STEMS = ["x", "y", "a file", "v1.2", "größe"]


def file_name(rng, cls, fmt):
    """:returns: a file name, whose extension fits to the format, or that has no extension"""
    extensions = [e for e, formats in EXTENSIONS[cls].items() if fmt in formats]
    e = rng.choice(extensions + [rng.choice(extensions)] * 2 + [""])
    if fmt in ("TEXT_CSV",) and cls == "Bands" and e == "":
        e = ".csv"
    return rng.choice(STEMS) + e


def benign(rng):
    faults = []
    for _ in range(rng.randrange(0, 3)):
        faults.append([rng.choice((WRITE, READ, READ)), rng.randrange(0, 6), rng.choice((1, 2, 1000)), SHORT, rng.randrange(0, 5000), 0])
    return faults


def disk_fault(rng, saving):
    if saving:
        kinds = pick(rng, {WRITE: 10, CLOSE: 2, OPEN: 2})
    else:
        kinds = pick(rng, {READ: 8, OPEN: 3})
    skip = rng.choice((0, 0, 0, 1, 1, 2, 3, 5, 8, 13)) if kinds != OPEN else rng.choice((0, 0, 1, 2))
    count = rng.choice((1, 1, 2, -1, -1))
    if kinds == OPEN:
        err = rng.choice((EACCES, EMFILE, ENOSPC, EROFS) if saving else (EACCES, EMFILE, EIO))
    elif kinds == WRITE:
        err = rng.choice((ENOSPC, ENOSPC, EIO))
    else:
        err = EIO if kinds == READ else rng.choice((EIO, ENOSPC))
    action = SHORT_ERR if kinds == WRITE and err == ENOSPC and rng.random() < 0.5 else ERR
    return [kinds, skip, count, action, rng.randrange(0, 20000), err]


def step_save(rng, objects, faults=()):
    i = rng.randrange(len(objects))
    cls = objects[i]["cls"]
    extension = rng.choice(list(EXTENSIONS[cls]))
    fmt = rng.choice(EXTENSIONS[cls][extension])
    if cls == "Signal" and rng.random() < 0.5:      # there are many audio formats
        extension, fmt = rng.choice([(e, f) for e in (".wav", ".wav", ".aiff", ".flac") for f in EXTENSIONS[cls][e]])
    name = file_name(rng, cls, fmt)
    if rng.random() < 0.3:
        name = rng.choice(STEMS) + extension
        fmt = None
    return {"op": "save", "obj": i, "file": name, "fmt": fmt, "path": rng.choice(("str", "path", "rel")), "faults": list(faults)}


def generate(rng, focus):
    objects = [object_spec(rng) for _ in range(rng.choice((1, 2, 2, 3, 4)))]
    case = {"focus": focus, "objects": objects, "missing": [], "steps": [], "schedule": None, "sched_seed": rng.randrange(1 << 30), "preempt": 0.0}
    if focus == "P05" or rng.random() < 0.08:
        case["missing"] = ["soundfile"]
    if focus == "P04":
        case["preempt"] = rng.choice((0.03, 0.1, 0.3, 0.5))
        threads = []
        shared = []
        theme = step_save(rng, objects) if rng.random() < 0.6 else None     # readers and writers are shared by the threads, if they use the same format
        if theme and objects[theme["obj"]]["cls"] == "Signal" and rng.random() < 0.5:
            theme["file"], theme["fmt"] = rng.choice([("x" + e, f) for e in (".wav", ".aiff") for f in EXTENSIONS["Signal"][e]])
            objects[theme["obj"]]["length"] = rng.choice((300, 2049, 5000))
            objects.append(dict(objects[theme["obj"]], seed=rng.randrange(1 << 30), sub=None, values="noise"))
        for k in range(rng.choice((1, 2))):
            s = step_save(rng, objects)
            s["file"] = f"shared{k}" + os.path.splitext(s["file"])[1]
            shared.append(s)
        for k in range(rng.choice((2, 2, 3, 4))):
            steps = []
            for _ in range(rng.randrange(1, 4)):
                s = step_save(rng, objects)
                if theme and rng.random() < 0.8:
                    cls = objects[theme["obj"]]["cls"]
                    s = dict(theme, obj=rng.choice([i for i, o in enumerate(objects) if o["cls"] == cls]))
                s["file"] = f"t{k} " + s["file"]
                steps.append(s)
                if rng.random() < 0.8:
                    steps.append({"op": "load", "file": rng.choice(steps)["file"], "path": rng.choice(("str", "path")), "faults": []})
                if rng.random() < 0.5:
                    steps.append({"op": "load", "file": rng.choice(shared)["file"], "path": "str", "faults": []})
            threads.append(steps)
        case["steps"] = shared
        case["threads"] = threads
        return case
    if focus == "P03" and rng.random() < 0.3:       # long audio files, that are damaged somewhere in the middle
        o = dict(object_spec(rng, "Signal"), length=rng.choice((2500, 4097, 5000, 9000)), sub=None)
        o["channels"] = min(o["channels"], 3)
        objects.append(o)
        for k in range(rng.choice((1, 2, 3))):
            extension = rng.choice((".wav", ".wav", ".aiff", ".aifc", ".flac") + tuple(sorted(EXTENSIONS["Signal"])))
            f = f"long{k}{extension}"
            case["steps"].append({"op": "save", "obj": len(objects) - 1, "file": f, "fmt": rng.choice(EXTENSIONS["Signal"][extension]), "path": "str", "faults": []})
            case["steps"].append({"op": "corrupt", "file": f, "how": rng.choice(("truncate", "truncate", "flip", "zero")), "a": rng.random(), "b": rng.randrange(1 << 30)})
            case["steps"].append({"op": "load", "file": f, "path": "str", "faults": []})
    n = rng.randrange(3, 12)
    for _ in range(n):
        known = [s["file"] for s in case["steps"] if s["op"] in ("save", "crash")]
        weights = {"P01": {"save": 5, "load": 5, "overwrite": 2, "remove": 0.3}, "P02": {"save": 2, "load": 1, "badsave": 6, "badload": 4, "impossible": 0.7},
                   "P03": {"save": 2, "load": 2, "crash": 5, "corrupt": 4, "badload": 0.5}, "P05": {"save": 5, "load": 4, "badsave": 0.5}}[focus]
        kind = pick(rng, weights)
        if kind in ("load", "badload", "corrupt", "remove", "overwrite") and not known:
            kind = "save"
        if kind == "save":
            case["steps"].append(step_save(rng, objects, benign(rng) if rng.random() < 0.4 else ()))
        elif kind == "overwrite":
            s = step_save(rng, objects)
            o = rng.choice([s for s in case["steps"] if s["op"] == "save"])
            cls = objects[s["obj"]]["cls"]
            extension = os.path.splitext(o["file"])[1]
            if extension in EXTENSIONS[cls]:
                s["fmt"] = rng.choice(EXTENSIONS[cls][extension] + [None])
            elif s["fmt"] is None or (extension == "" and cls == "Bands" and s["fmt"] == "TEXT_CSV") or extension != "":
                continue
            s["file"] = o["file"]
            case["steps"].append(s)
        elif kind == "load":
            case["steps"].append({"op": "load", "file": rng.choice(known), "path": rng.choice(("str", "path", "rel")), "faults": benign(rng) if rng.random() < 0.4 else []})
        elif kind == "badsave":
            s = step_save(rng, objects, [disk_fault(rng, True) for _ in range(rng.choice((1, 1, 2)))])
            if known and rng.random() < 0.3:
                candidates = [f for f in known if os.path.splitext(f)[1] == os.path.splitext(s["file"])[1]]
                if candidates:
                    s["file"] = rng.choice(candidates)
            case["steps"].append(s)
        elif kind == "badload":
            case["steps"].append({"op": "load", "file": rng.choice(known), "path": "str", "faults": [disk_fault(rng, False) for _ in range(rng.choice((1, 1, 2)))]})
        elif kind == "impossible":
            s = step_save(rng, objects)
            s["op"] = rng.choice(("save_nodir", "save_isdir", "load_nodir", "load_isdir"))
            case["steps"].append(s)
        elif kind == "crash":
            s = step_save(rng, objects)
            if known and rng.random() < 0.3:
                candidates = [f for f in known if os.path.splitext(f)[1] == os.path.splitext(s["file"])[1]]
                if candidates:
                    s["file"] = rng.choice(candidates)
            s["op"] = "crash"
            s["faults"] = [[rng.choice((WRITE, WRITE, WRITE, CLOSE, OPEN)), rng.choice((0, 0, 1, 2, 3, 5)), 1, EXIT, rng.randrange(0, 20000), 0]]
            for _ in range(rng.choice((0, 0, 1, 2))):
                s["faults"].append([WRITE, rng.randrange(0, 6), rng.choice((1, 2)), rng.choice((DROP, TORN)), rng.randrange(0, 9000), 0])
            rng.shuffle(s["faults"])
            case["steps"].append(s)
            if rng.random() < 0.8:
                case["steps"].append({"op": "load", "file": s["file"], "path": "str", "faults": []})
        elif kind == "corrupt":
            f = rng.choice(known)
            case["steps"].append({"op": "corrupt", "file": f, "how": rng.choice(("truncate", "truncate", "flip", "flip", "zero", "garbage", "append", "empty", "header")),
                                  "a": rng.random(), "b": rng.randrange(1 << 30)})
            case["steps"].append({"op": "load", "file": f, "path": "str", "faults": []})
        elif kind == "remove":
            f = rng.choice(known)
            case["steps"].append({"op": "remove", "file": f})
            case["steps"].append({"op": "load", "file": f, "path": "str", "faults": []})
    return case


# ------------------------------------------------------------------- execution


def as_path(directory, name, kind):
    full = os.path.join(directory, name)
    if kind == "path":
        return pathlib.Path(full)
    if kind == "rel":
        return name
    return full


def arm(faults):
    LIB.shim_clear()
    for kinds, skip, count, action, arg, err in faults:
        LIB.shim_arm(kinds, L(skip), L(count), action, L(arg), err)


def disarm(faults, stats):
    """:returns: the number of faults, that have fired, except the benign ones"""
    bad = 0
    for i, f in enumerate(faults):
        n = LIB.shim_fired(i)
        if n:
            stats[f"fault:{KIND_NAMES[f[0]]} {ACTION_NAMES[f[3]]}"] = stats.get(f"fault:{KIND_NAMES[f[0]]} {ACTION_NAMES[f[3]]}", 0) + n
            bad += f[3] != SHORT
    LIB.shim_heal()
    return bad


class History:
    """Executes a case within its own process"""

    def __init__(self, case, directory):
        self.case = case
        self.directory = os.path.join(directory, "data")
        self.refs = os.path.join(directory, "refs")
        os.mkdir(self.directory)
        os.mkdir(self.refs)
        self.stats = {}
        self.violations = []
        self.log = []
        self.model = {}         # file name -> None (does not exist), ("ok", object index, format) or ("torn", class, code)
        self.reference_loads = []
        self.n = 0
        self.objects = [build(spec) for spec in case["objects"]]
        self.prints = [fingerprint(o) for o in self.objects]
        self.decisions = []
        self.switch_hash = 0
        self.threaded = False
        self.shape = []

    def violate(self, pid, kind, message):
        self.violations.append((pid, kind, message))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def pid(self, default):
        """The property, to which a violation in fault-free operations belongs"""
        if self.threaded:
            return "P04"
        if self.case["focus"] == "P05" and self.case["missing"]:
            return "P05"
        return default

    def run(self):
        for name in self.case["missing"]:
            sys.modules[name] = None
        os.chdir(self.directory)
        LIB.shim_root(self.directory.encode())
        gc.collect()
        gc.disable()
        forked.memory_limit(1 << 30)
        for step in self.case["steps"]:
            self.step(step)
        if self.case.get("threads"):
            self.run_threads()
        for i, o in enumerate(self.objects):
            if fingerprint(o) != self.prints[i]:
                self.violate(self.pid("P01" if self.case["focus"] not in ("P02", "P03") else self.case["focus"]), "modified", f"the data set {self.case['objects'][i]} has been modified by saving it")
        forked.no_memory_limit()
        return {"violations": self.violations, "stats": self.stats, "log": self.log, "references": self.reference_loads, "decisions": self.decisions,
                "switch_hash": self.switch_hash, "shape": self.shape}

    def run_threads(self):
        """Executes the threads' steps under the control of the scheduler"""
        case = self.case
        s = sched.Scheduler(seed=case["sched_seed"], schedule=case["schedule"], preempt=case["preempt"], max_steps=2000000, trace_prefixes=(PREFIX,))
        self.threaded = True
        callback_type = ctypes.CFUNCTYPE(None, ctypes.c_int)

        def on_call(kind):
            if not s.aborting:
                s.yield_point("io")
        callback = callback_type(on_call)
        LIB.shim_clear()
        LIB.shim_yield(callback)
        files = {}

        def body(steps, k):
            def work():
                for step in steps:
                    self.step(step, prefix=f"t{k}")
            return work
        threads = [s.spawn(body(steps, k), f"t{k}") for k, steps in enumerate(case["threads"])]
        failure = s.run()
        LIB.shim_yield(callback_type())
        self.threaded = False
        if failure is not None:
            self.violate("P04", "stuck", f"the threads do not finish: {failure!r}")
        for t in threads:
            if t.error is not None:
                self.violate("P04", "error", f"{t.name}: {describe(t.error)}")
        self.decisions = s.decisions
        self.switch_hash = s.switch_hash
        self.count("probe:thread switches", s.switches)
        self.count("probe:preemptions", s.preemptions)
        del files

    # ---

    def snapshot(self, skip):
        """the contents of all files except one"""
        result = {}
        for name in sorted(os.listdir(self.directory)):
            path = os.path.join(self.directory, name)
            if name != skip and os.path.isfile(path):
                with open(path, "rb") as f:
                    result[name] = hashlib.sha256(f.read()).hexdigest()
        return result

    def open_files(self):
        if self.threaded:
            return 0
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                n += os.readlink(f"/proc/self/fd/{fd}").startswith(self.directory)
            except OSError:
                pass
        return n

    def step(self, step, prefix=""):
        self.n += 1
        op = step["op"]
        if "obj" in step:
            o = self.objects[step["obj"]]
            if isinstance(o, sumpf.Signal) and (str(step["fmt"]).endswith(("VORBIS", "ULAW", "ALAW")) or step["file"].endswith((".ogg", ".oga"))) and numpy.max(numpy.abs(o.channels())) > 1.0:
                return      # libsndfile and libvorbis can crash on samples beyond the full scale
        if not self.threaded:
            LIB.shim_clear()
        self.count(f"op:{op}")
        self.shape.append((op, step.get("fmt"), bool(step.get("faults"))))
        getattr(self, "do_" + op)(step)

    def format(self, step):
        """the format, in which a file is expected to be saved"""
        if step["fmt"] is not None:
            return step["fmt"]
        cls = self.case["objects"][step["obj"]]["cls"]
        candidates = EXTENSIONS[cls][os.path.splitext(step["file"])[1]]
        for c in candidates:
            if not (c in NEEDS_SOUNDFILE and "soundfile" in self.case["missing"]):
                return c
        return candidates[0]

    def call_save(self, step, path):
        o = self.objects[step["obj"]]
        if step["fmt"] is None:
            return o.save(path)
        return o.save(path, type(o).file_formats[step["fmt"]])

    def do_save(self, step):
        name = step["file"]
        spec = self.case["objects"][step["obj"]]
        o = self.objects[step["obj"]]
        fmt = self.format(step)
        can = supported(spec, fmt, self.case["missing"])
        before = None if self.threaded else self.snapshot(name)
        existed = os.path.exists(os.path.join(self.directory, name))
        if not self.threaded:
            arm(step["faults"])
        error = None
        result = None
        try:
            result = self.call_save(step, as_path(self.directory, name, step["path"]))
        except Exception as e:  # pylint: disable=broad-except; is judged
            error = e
        fired = 0 if self.threaded else disarm(step["faults"], self.stats)
        what = f"saving a {spec['cls']} as {step['fmt'] or 'AUTO'} in {name!r}"
        self.log.append(("save", name, fmt, type(error).__name__ if error else "ok", fired))
        pid = "P02" if fired else self.pid("P01")
        if error is None:
            if result is not o:
                self.violate(pid, "save result", f"{what} returns {type(result).__name__} instead of the data set itself")
            if not can:
                if fmt in NEEDS_SOUNDFILE and "soundfile" in self.case["missing"]:
                    self.violate("P05", "save without library", f"{what} does not fail, although the library is missing")
                self.model[name] = ("torn", spec["cls"], fmt in CODE_FORMATS)
            else:
                self.model[name] = ("ok", step["obj"], fmt)
                if fired:
                    self.count("probe:saved in spite of a fault")
                    self.check_load(name, "P02", "silent", f"{what} was reported as successful, although there was an error ({step['faults']})")
        else:
            exists = os.path.exists(os.path.join(self.directory, name))
            torn = self.model.get(name)
            self.model[name] = ("torn", spec["cls"], fmt in CODE_FORMATS or bool(torn and torn[0] == "torn" and torn[2])) if exists else None
            if fired:
                self.count("probe:errors, that were reported")
                if isinstance(error, ValueError) and exists and not existed:
                    self.count("probe:incomplete file left behind")
            elif can:
                self.violate(pid, f"save error {fmt if step['fmt'] else 'AUTO'}", f"{what} fails: {describe(error)}")
            elif fmt in NEEDS_SOUNDFILE and "soundfile" in self.case["missing"]:
                self.count("probe:library missing when saving")
                if not isinstance(error, ValueError):
                    self.violate("P05", "wrong error", f"{what} without the required library raises {describe(error)}")
                elif not existed and exists:
                    self.violate("P05", "file left", f"{what} without the required library leaves a file behind")
        del error
        if not self.threaded:
            self.aftermath(what, before, name, "P02" if fired else "P01")
            if fired and can:       # the disk has been repaired
                again = dict(step, faults=[])
                try:
                    self.call_save(again, as_path(self.directory, name, step["path"]))
                except Exception as e:  # pylint: disable=broad-except; is judged
                    self.violate("P02", "retry", f"{what} after the disk has been repaired fails: {describe(e)}")
                else:
                    self.model[name] = ("ok", step["obj"], fmt)
                    self.check_load(name, "P02", "retry", f"{what} after the disk has been repaired")
        elif can:
            self.check_load(name, "P04", "roundtrip", what)

    def aftermath(self, what, before, name, pid):
        """checks, that nothing else has been changed"""
        after = self.snapshot(name)
        if before is not None and after != before:
            changed = sorted(set(before.items()) ^ set(after.items()))
            self.violate(pid, "other files", f"{what} changes other files: {[c[0] for c in changed]}")
        if self.open_files():
            gc.collect()
            if self.open_files():
                self.violate(pid, "open files", f"{what} leaves {self.open_files()} files open")

    def load(self, cls, path):
        return CLASSES[cls].load(path)

    def check_load(self, name, pid, kind, what):
        """loads a file, that should be complete, without faults"""
        state = self.model[name]
        spec, o = self.case["objects"][state[1]], self.objects[state[1]]
        try:
            loaded = self.load(spec["cls"], os.path.join(self.directory, name))
        except Exception as e:  # pylint: disable=broad-except; is judged
            self.violate(pid, kind, f"{what}: the file cannot be loaded afterwards: {describe(e)}")
            return
        problem = difference(spec, o, loaded, state[2], name)
        if problem:
            self.violate(pid, kind, f"{what}: {problem}")

    def do_load(self, step):
        name = step["file"]
        state = self.model.get(name)
        before = None if self.threaded else self.snapshot(None)
        path = os.path.join(self.directory, name)
        if state is None:
            cls = "Signal"
        elif state[0] == "torn":
            cls = state[1]
        else:
            cls = self.case["objects"][state[1]]["cls"]
        reference = None
        if os.path.isfile(path) and not step["faults"] and not self.threaded:
            reference = os.path.join(self.refs, str(self.n))
            os.mkdir(reference)
            shutil.copyfile(path, os.path.join(reference, name))
        if not self.threaded:
            arm(step["faults"])
        error = None
        loaded = None
        try:
            loaded = self.load(cls, as_path(self.directory, name, step["path"]))
        except Exception as e:  # pylint: disable=broad-except; is judged
            error = e
        fired = 0 if self.threaded else disarm(step["faults"], self.stats)
        what = f"loading a {cls} from {name!r} ({state[2] if state and state[0] == 'ok' else state and state[0]})"
        self.log.append(("load", name, state and state[0], describe(error).replace(self.directory, "") if error else fingerprint(loaded) if state and state[0] == "ok" and state[2] != "OGG_VORBIS" else "ok", fired))
        if error is not None and not isinstance(error, ValueError):
            self.violate("P02" if fired else "P03" if state and state[0] == "torn" else self.pid("P01"), "load error type", f"{what} raises {describe(error)} instead of a ValueError")
        if state is None:
            if error is None:
                self.violate(self.pid("P01"), "load absent", f"{what}: the file does not exist, but nothing was raised")
        elif state[0] == "torn":
            self.count("probe:damaged file loaded" if error is None else "probe:damaged file rejected")
            if error is None:
                problem = well_formed(loaded, cls)
                if problem:
                    self.violate("P03", "malformed", f"{what} does not fail, but {problem}")
        else:
            spec, o = self.case["objects"][state[1]], self.objects[state[1]]
            if error is not None:
                if not fired:
                    self.violate(self.pid("P01"), f"load error {state[2]}", f"{what} fails: {describe(error)} {describe(error.__cause__)}")
                else:
                    self.count("probe:read errors, that were reported")
            else:
                problem = difference(spec, o, loaded, state[2], name)
                self.count("probe:round trips")
                if problem:
                    self.violate("P02" if fired else self.pid("P01"), "read error ignored" if fired else f"difference {state[2]}", f"{what}: {problem}")
        if reference is not None:
            self.reference_loads.append([cls, os.path.join(reference, name), fingerprint(loaded) if error is None and not well_formed(loaded, cls) else None, what, bool(state and state[0] == "torn")])
        del error, loaded
        if not self.threaded:
            self.aftermath(what, before, None, "P02" if fired else "P01" if not (state and state[0] == "torn") else "P03")

    def do_remove(self, step):
        path = os.path.join(self.directory, step["file"])
        if os.path.exists(path):
            os.remove(path)
        self.model[step["file"]] = None

    def impossible(self, step, call, what):
        before = self.snapshot(None)
        try:
            call()
        except Exception as e:  # pylint: disable=broad-except; is judged
            self.log.append((step["op"], type(e).__name__))
            if step["op"].startswith("load") and not isinstance(e, ValueError):
                self.violate("P02", "load error type", f"{what} raises {describe(e)} instead of a ValueError")
        else:
            self.violate("P02", "impossible", f"{what} does not fail")
        self.aftermath(what, before, None, "P02")

    def do_save_nodir(self, step):
        path = os.path.join(self.directory, "nodir", step["file"])
        self.impossible(step, lambda: self.call_save(step, path), "saving to a folder, that does not exist")

    def do_save_isdir(self, step):
        path = os.path.join(self.directory, "dir " + step["file"])
        os.makedirs(path, exist_ok=True)
        self.impossible(step, lambda: self.call_save(step, path), "saving to a folder")

    def do_load_nodir(self, step):
        cls = self.case["objects"][step["obj"]]["cls"]
        self.impossible(step, lambda: self.load(cls, os.path.join(self.directory, "nodir", step["file"])), "loading from a folder, that does not exist")

    def do_load_isdir(self, step):
        cls = self.case["objects"][step["obj"]]["cls"]
        path = os.path.join(self.directory, "dir " + step["file"])
        os.makedirs(path, exist_ok=True)
        self.impossible(step, lambda: self.load(cls, path), "loading a folder")

    def do_crash(self, step):
        """the process is crashed while saving; some writes do not reach the disk"""
        name = step["file"]
        spec = self.case["objects"][step["obj"]]
        fmt = self.format(step)
        before = self.snapshot(name)

        def save():
            arm(step["faults"])
            self.call_save(step, as_path(self.directory, name, step["path"]))
            return [LIB.shim_fired(i) for i in range(len(step["faults"]))]
        status, result = forked.run(save, 60.0, cpu=20)
        what = f"a crash while saving a {spec['cls']} as {step['fmt'] or 'AUTO'} in {name!r}"
        self.log.append(("crash", name, status, result if status != "error" else "error"))
        path = os.path.join(self.directory, name)
        if status == "status" and result == forked.CRASHED:
            self.count("fault:process crash")
            self.count(f"probe:crash with {'no file' if not os.path.exists(path) else 'an empty file' if os.path.getsize(path) == 0 else 'a file'}")
        elif status == "ok":
            for f, n in zip(step["faults"], result):
                if n:
                    self.count(f"fault:{KIND_NAMES[f[0]]} {ACTION_NAMES[f[3]]}", n)
        elif status == "error":
            if supported(spec, fmt, self.case["missing"]):
                self.violate(self.pid("P01"), f"save error {fmt}", f"{what}: {result[-300:]}")
        else:
            self.violate("P03", "crash", f"{what}: the process ends with {status} {result}")
        code = fmt in CODE_FORMATS or bool(self.model.get(name) and self.model[name][0] == "torn" and self.model[name][2])
        if status == "ok" and not any(result) and supported(spec, fmt, self.case["missing"]):
            self.model[name] = ("ok", step["obj"], fmt)
        elif os.path.exists(path):
            self.model[name] = ("torn", spec["cls"], code)
        else:
            self.model[name] = None
        self.aftermath(what, before, name, "P03")

    def do_corrupt(self, step):
        name = step["file"]
        state = self.model.get(name)
        path = os.path.join(self.directory, name)
        if state is None or not os.path.isfile(path):
            return
        with open(path, "rb") as f:
            data = bytearray(f.read())
        code = state[2] if state[0] == "torn" else state[2] in CODE_FORMATS
        how = step["how"] if not code else ("truncate" if step["b"] % 3 else "empty")
        r = random.Random(step["b"])
        n = len(data)
        if how == "truncate":
            data = data[:int(n * step["a"])] if step["b"] % 2 else data[:max(0, n - 1 - step["b"] % 40)]
        elif how == "flip":
            for _ in range(r.choice((1, 1, 2, 10))):
                if n:
                    data[r.randrange(n)] ^= 1 << r.randrange(8)
        elif how == "header":
            for _ in range(r.choice((1, 2, 4))):
                if n:
                    data[r.randrange(min(n, 64))] = r.choice((0, 255, 127, 128, r.randrange(256)))
        elif how == "zero":
            a = int(n * step["a"])
            m = min(n - a, r.choice((1, 16, 512, 4096)))
            data[a:a + m] = bytes(m)
        elif how == "garbage":
            data = bytearray(r.randbytes(r.choice((1, 10, 44, 100, 1000))))
            if data[:1] in (b"c", b"\x80"):
                data[0] = 0
        elif how == "append":
            data += r.randbytes(r.choice((1, 7, 100)))
        elif how == "empty":
            data = bytearray()
        with open(path, "wb") as f:
            f.write(data)
        self.count(f"fault:file damaged ({how})")
        self.model[name] = ("torn", state[1] if state[0] == "torn" else self.case["objects"][state[1]]["cls"], code)
        self.log.append(("corrupt", name, how, hashlib.sha256(data).hexdigest()[:8] if not name.endswith((".ogg", ".oga")) else ""))


def reference_load(cls, path, missing):
    """loads a file in a pristine process"""
    for name in missing:
        sys.modules[name] = None
    forked.memory_limit(1 << 30)
    try:
        o = CLASSES[cls].load(path)
    except Exception as e:  # pylint: disable=broad-except; is judged
        return None, describe(e)
    return fingerprint(o) if not well_formed(o, cls) else None, ""


def execute(case):
    out = Outcome()
    directory = tempfile.mkdtemp(prefix="dst-io-")
    if not os.path.realpath(directory).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep):
        raise sched.HarnessError("the scratch directory is somewhere else")
    try:
        status, result = forked.run(lambda: History(case, directory).run(), 100.0, cpu=20)
        if status == "error":
            raise sched.HarnessError(result)
        if status != "ok":
            damaged = any(s["op"] in ("crash", "corrupt") for s in case["steps"])
            out.violate("P03" if damaged else "P04" if case.get("threads") else "P02" if any(s.get("faults") for s in case["steps"]) else "P01",
                        "process lost", f"the process {'does not end' if status == 'hang' else 'has ended with the status ' + str(result)}")
            return out
        for v in result["violations"]:
            out.violate(v[0], v[1], v[2].replace(directory, ""))
        out.stats.update(result["stats"])
        out.log = result["log"]
        out.decisions = result["decisions"]
        out.switch_hash = result["switch_hash"]
        for cls, path, expected, what, torn in result["references"]:
            status, ref = forked.run(lambda: reference_load(cls, path, case["missing"]), 60.0, cpu=20)
            if status != "ok":
                out.violate("P03" if torn else "P01", "process lost", f"{what} in a new process: {status} {ref}")
                continue
            out.stats["probe:loads compared to those of a new process"] += 1
            if ref[0] != expected:
                out.violate("P03" if torn else "P05" if case["focus"] == "P05" else "P01", "history",
                            f"{what} depends on what has been loaded or saved before: {'failure' if expected is None else 'success'}, in a new process: {'failure ' + ref[1] if ref[0] is None else 'success'}")
        out.nontrivial = bool(out.stats.get("probe:round trips") or out.stats.get("probe:errors, that were reported") or out.stats.get("probe:damaged file rejected")
                              or out.stats.get("probe:library missing when saving") or out.stats.get("probe:preemptions"))
        out.shape = hashlib.sha256(repr((result["shape"], sorted(k for k in result["stats"]))).encode()).hexdigest()[:20]
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    return out


def shrink(case):
    for steps in list_removals(case["steps"]):
        c = clone(case)
        c["steps"] = steps
        yield c
    if case.get("threads"):
        for threads in list_removals(case["threads"]):
            if len(threads) >= 1:
                c = clone(case)
                c["threads"] = threads
                yield c
        for i, steps in enumerate(case["threads"]):
            for s in list_removals(steps):
                c = clone(case)
                c["threads"][i] = s
                yield c
        if case["schedule"]:
            for s in list_removals(case["schedule"]):
                c = clone(case)
                c["schedule"] = s
                yield c
    for i, s in enumerate(case["steps"]):
        if len(s.get("faults", ())) > 0:
            for f in list_removals(s["faults"]):
                c = clone(case)
                c["steps"][i]["faults"] = f
                yield c
        if s.get("path") in ("path", "rel"):
            c = clone(case)
            c["steps"][i]["path"] = "str"
            yield c
    for i, o in enumerate(case["objects"]):
        for key, values in (("channels", (1, 2)), ("length", (3, 10, 100)), ("points", (1, 3)), ("labels", ([],)), ("offset", (0,)), ("sub", (None,)), ("values", ("zeros", "noise"))):
            for v in values:
                if key in o and o[key] != v and not (isinstance(v, int) and isinstance(o[key], int) and o[key] <= v and key != "offset") and not (o["cls"] == "Bands" and key == "values"):
                    c = clone(case)
                    c["objects"][i][key] = v
                    yield c
    if case["missing"]:
        c = clone(case)
        c["missing"] = []
        yield c
