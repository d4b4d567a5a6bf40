"""Vocabulary shared by the property modules (vt/props/c*.py)."""
import contextlib
import errno
import os
import sys
import traceback

_deps = os.environ.get("VT_DEPS")
if _deps and _deps not in sys.path:
    sys.path.append(_deps)

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class Violation(Exception):
    """The code under test broke the property on a valid input."""


class Known(Exception):
    """A violation with the signature of a finding; suppressed only if the
    finding is listed in known_findings.json."""

    def __init__(self, fid, msg):
        super().__init__(msg)
        self.fid = fid


class Skip(Exception):
    """The drawn case is outside the property's domain (counted as such)."""


class HarnessError(Exception):
    pass


class Sub:
    """One generated-input search: draw a case, run the oracle on it."""

    def __init__(self, name, strategy, fn, quick=100, thorough=None, shards=1,
                 nontrivial=None, corners=(), timeout=90, asan=False, soft=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.nontrivial = nontrivial or (lambda c: True)
        self.corners = list(corners)
        self.timeout = timeout
        self.asan = asan
        self.soft = soft      # soft wall budget (s) of a quick shard


_RESOURCE = (errno.ENOMEM, errno.EAGAIN, errno.ENOSPC, errno.EMFILE, errno.ENFILE)


def call(f, /, *a, **k):
    """Run a piece of the code under test; any exception it raises on the
    (valid) input is a violation."""
    try:
        return f(*a, **k)
    except (Violation, Known, Skip, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except OSError as e:
        if e.errno in _RESOURCE:
            raise HarnessError("resource: %r" % e)
        raise Violation("raised %s: %s" % (type(e).__name__, _tb(e)))
    except Exception as e:
        raise Violation("raised %s: %s" % (type(e).__name__, _tb(e)))


def _tb(e):
    t = traceback.extract_tb(e.__traceback__)
    loc = "%s:%s" % (t[-1].filename, t[-1].lineno) if t else "?"
    return "%s at %s" % (str(e)[:300], loc)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def rejects(exc, f, *a, **k):
    """f must raise exc (or a subclass)."""
    try:
        f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Violation("raised %s instead of %s: %s" % (type(e).__name__, exc, _tb(e)))
    raise Violation("accepted an invalid argument (no %s raised)" % (exc,))


def close(got, want, tol, what="result", scale=None, mask=None):
    """|got-want| <= tol*max(scale, max|want|) everywhere; NaN never passes
    unless want is NaN at the same place."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    g = got.astype(np.complex128) if np.iscomplexobj(got) or np.iscomplexobj(want) \
        else got.astype(np.float64)
    w = want.astype(g.dtype)
    if mask is not None:
        g, w = g[mask], w[mask]
        if g.size == 0:
            return
    fin = np.isfinite(w)
    if scale is None:
        scale = np.max(np.abs(w[fin])) if fin.any() else 0.0
    lim = tol * max(float(scale), 1e-30)
    with np.errstate(all="ignore"):
        bad = ~(np.abs(g - w) <= lim)
        same = (g == w) | (np.isnan(g) & np.isnan(w))
    bad &= ~same
    if bad.any():
        if mask is None:
            i = tuple(int(x) for x in np.argwhere(bad)[0])
        else:
            i = tuple(int(x) for x in np.argwhere(mask)[np.flatnonzero(bad)[0]])
        raise Violation("%s: %d of %d values differ (limit %.3g); first at %s: got %r, expected %r"
                        % (what, int(bad.sum()), g.size, lim, i, got[i], want[i]))


def same(got, want, what="result"):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc"):
        eq = (got == want) | ((got != got) & (want != want))
        i = tuple(int(x) for x in np.argwhere(~eq)[0])
        raise Violation("%s: %d of %d values differ; first at %s: got %r, expected %r"
                        % (what, int((~eq).sum()), got.size, i, got[i], want[i]))


@contextlib.contextmanager
def unchanged(**arrays):
    """The named arrays must hold the same values after the block."""
    before = {k: np.array(v, copy=True) for k, v in arrays.items()}
    yield
    for k, v in arrays.items():
        same(v, before[k], "input %s after the call" % k)


# ---------------------------------------------------------------- generators

def seeds():
    return st.integers(0, 2**20)


KINDS = ("uniform", "signed", "smooth", "spikes", "ints", "const", "ramp", "sparse")


def data(shape, seed, kind="uniform", dtype=np.float32):
    """Deterministic array from a drawn seed and kind."""
    rng = np.random.default_rng(seed)
    n = int(np.prod(shape))
    if kind == "uniform":
        a = rng.random(n)
    elif kind == "signed":
        a = rng.normal(size=n)
    elif kind == "smooth":
        a = np.cumsum(rng.normal(size=n)) / max(1, np.sqrt(n))
    elif kind == "spikes":
        a = rng.random(n)
        a[rng.random(n) < 0.08] *= 50.0
    elif kind == "ints":
        a = rng.integers(0, 5, n).astype(float)
    elif kind == "const":
        a = np.full(n, float(rng.integers(1, 9)))
    elif kind == "ramp":
        a = np.arange(n) / max(1, n)
    elif kind == "sparse":
        a = rng.random(n) * (rng.random(n) < 0.15)
    else:
        raise HarnessError(kind)
    return a.reshape(shape).astype(dtype)


LAYOUTS = ("C", "F", "strided", "reversed", "swapped", "offset", "shared", "sharedview",
           "readonly")


def layout(a, how):
    """Same values and dtype as a, different memory layout."""
    a = np.ascontiguousarray(a)
    if how == "C":
        return a.copy()
    if how == "F":
        return np.array(a, order="F", copy=True)
    if how == "strided":
        b = np.full(a.shape[:-1] + (a.shape[-1] * 2,), 7, dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "reversed":
        return a[::-1].copy()[::-1]
    if how == "swapped":
        if a.ndim < 2:
            return layout(a, "strided")
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, 0, 1)), 0, 1)
    if how == "offset":
        b = np.full((a.shape[0] + 2,) + a.shape[1:], 9, dtype=a.dtype)
        b[1:-1] = a
        return b[1:-1]
    if how == "shared":
        return _shared(a)
    if how == "sharedview":
        b = np.full((a.shape[0] + 2,) + a.shape[1:], 9, dtype=a.dtype)
        b[1:-1] = a
        return _shared(b)[1:-1]
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    raise HarnessError(how)


def _shared(a):
    import multiprocessing as mp
    import ctypes
    n = a.size * a.itemsize
    raw = mp.RawArray(ctypes.c_byte, n)
    # the element type tomopy itself would have chosen
    t = {np.dtype("f4"): ctypes.c_float, np.dtype("f8"): ctypes.c_double,
         np.dtype("u2"): ctypes.c_ushort, np.dtype("i4"): ctypes.c_int}.get(a.dtype)
    if t is not None:
        raw = mp.RawArray(t, a.size)
    b = np.frombuffer(raw, dtype=a.dtype).reshape(a.shape)
    b[...] = a
    return b


@st.composite
def _dims(draw, r, long, odds):
    k = draw(st.integers(0, odds - 1))          # shrinks towards the ordinary case
    if k < odds - 1 or not long:
        return [draw(st.integers(*x)) for x in r]
    far = draw(st.integers(0, len(r)))
    if far == len(r):                           # everything somewhat larger than usual
        return [draw(st.integers(lo, 2 * hi)) for lo, hi in r]
    more = 4
    if long[1] >= 180 and draw(st.integers(0, 4)) == 4:      # sizes of real detectors, few of them
        long, more = (long[1], 4 * long[1]), 1
    return [draw(st.integers(max(long[0], lo), max(long[1], lo))) if i == far
            else draw(st.integers(lo, min(hi, lo + more))) for i, (lo, hi) in enumerate(r)]


def dims(*r, long=(24, 180), odds=8):
    """Lengths of the axes, drawn from the given ranges; one time in `odds` one axis is
    far longer than the others (or all are up to twice as long as usual)."""
    return _dims(r, long, odds)


@st.composite
def far(draw, lo, hi, top, odds=12):
    """An integer from lo..hi, one time in `odds` from beyond that up to `top`."""
    return draw(st.integers(lo, hi)) if draw(st.integers(0, odds - 1)) < odds - 1 \
        else draw(st.integers(hi + 1, top))


def omit(kw, seed, **defaults):
    """Leave out, for half of the seeds, each option that has its documented default."""
    return {k: v for i, (k, v) in enumerate(sorted(kw.items()))
            if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and (seed >> i) % 2)}
