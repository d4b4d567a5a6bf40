"""C07: distributing work over processes equals one serial call per chunk."""
import os
import signal
import sys

import numpy as np
from tomopy.util import mproc

from vt.core import (far, Sub, st, data, call, same, close, expect, seeds, layout, LAYOUTS, Violation,
                     HarnessError)

RULE = "more than one chunk and more than one process"
ASSUMPTIONS = [
    "nchunk None: only functions whose result does not depend on the chunk borders are compared "
    "(the documentation leaves the size to the implementation)",
    "input arrays already in shared memory may be worked on in place",
    "a function called by several workers gets arrays of equal length along the axis",
]


# ------------------------------------------------------------ functions distributed
# f(*chunks, *args, **kwargs); 'chunky': depends on the chunk borders; n: arrays taken

def double(a):
    return a * 2


def inplace(a):
    a *= 2


def inplace_return(a):
    a += 1
    return a


def affine(a, k, off=0):
    return a * k + off


def flip(a):
    return a[..., ::-1] + 1


def nothing(a):
    return None


def length(a):
    return np.full(a.shape, a.size, a.dtype)


def prefix(a):
    return np.cumsum(a, axis=0, dtype=a.dtype)


def on_host(a):
    if not mproc.ON_HOST:
        raise mproc.RunOnHostException()
    return a * 3


def host_sometimes(a):
    if not mproc.ON_HOST and int(a.flat[0]) % 2:
        raise mproc.RunOnHostException()
    return a * 3


def add(a, b):
    return a + b


def sub_into_last(a, b):
    b[:] = b - a


def touch_first(a, b):
    a *= 3
    return a - b


def three(a, b, c, k=1):
    return a * k + b - c


FUNCS = {
    "double": (double, 1, False), "inplace": (inplace, 1, False),
    "inplace_return": (inplace_return, 1, False), "affine": (affine, 1, False),
    "flip": (flip, 1, False), "nothing": (nothing, 1, False), "length": (length, 1, True),
    "prefix": (prefix, 1, True), "on_host": (on_host, 1, False),
    "host_sometimes": (host_sometimes, 1, False), "add": (add, 2, False),
    "sub_into_last": (sub_into_last, 2, False), "touch_first": (touch_first, 2, False),
    "three": (three, 3, False),
}
INPLACE = ("inplace", "sub_into_last", "nothing")
TYPES = ("f4", "f8", "i4", "u2", "i8", "u1")
OUTS = ("none", "none", "none", "C", "F", "strided", "reversed", "offset", "shared", "self", "f8")

CASE = st.fixed_dictionaries({
    "fn": st.sampled_from(sorted(FUNCS)), "shape": st.lists(far(1, 7, 90, 20), min_size=1, max_size=4),
    "axis": st.integers(-4, 3), "seed": seeds(), "ncore": st.sampled_from([None, 1, 2, 2, 3, 3, 4, 40]),
    "nchunk": st.sampled_from([None, 0, 1, 2, 3, 4, 9]), "out": st.sampled_from(OUTS),
    "types": st.lists(st.sampled_from(TYPES), min_size=3, max_size=3),
    "lays": st.lists(st.sampled_from(LAYOUTS), min_size=3, max_size=3),
    "kw": st.booleans(),
})


def serial(f, arrs, axis, nchunk, args, kwargs, out):
    """One call per consecutive chunk; results go to out, by default the last array."""
    arrs = [np.array(a, order="C") for a in arrs]
    res = arrs[-1] if out is None else out
    size = arrs[0].shape[axis]
    for i in range(0, size, nchunk or 1):
        s = slice(i, i + nchunk) if nchunk else i
        ix = tuple(slice(None) if d != axis else s for d in range(arrs[0].ndim))
        r = f(*([a[ix] for a in arrs] + list(args)), **kwargs)
        if r is not None:
            res[ix][...] = r
    return res


def model(c):
    f, n, chunky = FUNCS[c["fn"]]
    shape = tuple(c["shape"])
    axis = c["axis"] % len(shape)
    given = axis - len(shape) if c["axis"] < 0 else axis
    nchunk = c["nchunk"]
    if nchunk is None and (chunky or c["fn"] == "flip" and axis == len(shape) - 1):
        nchunk = 2
    if nchunk == 0 and len(shape) == 1:
        nchunk = 1          # single slices of a vector are scalars
    lays = c["lays"][:n]
    types = c["types"][:n]
    if c["fn"] in ("sub_into_last", "touch_first", "three", "add"):
        # integer results must fit the array they are stored in
        types = [types[0]] * n if types[0][0] != "f" else types
    vals = [(data(shape, c["seed"] + k, "ints") + 1).astype(t) for k, t in enumerate(types)]
    if c["fn"] in ("sub_into_last", "touch_first") and types[0][0] == "u":
        types = ["i4"] * n
        vals = [v.astype("i4") for v in vals]
    if c["fn"] == "sub_into_last":
        vals = [v.astype("f4") for v in vals]
    arrs = [layout(v, l) for v, l in zip(vals, lays)]
    args, kwargs = (), {}
    if c["fn"] == "affine":
        args, kwargs = (3,), ({"off": 1} if c["kw"] else {})
    if c["fn"] == "three" and c["kw"]:
        kwargs = {"k": 2}
    out = ref_out = None
    k = c["seed"] % n
    if c["out"] == "self":
        if lays[k] == "readonly":
            arrs[k] = arrs[k].copy()
        out = arrs[k]
    elif c["out"] != "none":
        t = "f8" if c["out"] == "f8" else vals[-1].dtype
        junk = data(shape, c["seed"] + 9, "ints").astype(t)
        out = junk.copy() if c["out"] == "f8" else layout(junk, c["out"])
    eff = nchunk
    if eff is None:
        eff = shape[axis]
    elif eff:
        eff = min(eff, shape[axis])
    # reference
    mproc_host = mproc.ON_HOST
    mproc.ON_HOST = True
    try:
        if c["out"] == "self":
            ra = [np.array(v, order="C") for v in vals]
            ref_out = ra[k]
            # the output is the k-th array itself
            want = serial_shared(f, ra, axis, eff, args, kwargs, ref_out)
        else:
            ref_out = None if out is None else np.array(out, order="C")
            want = serial(f, vals, axis, eff, args, kwargs, ref_out)
    finally:
        mproc.ON_HOST = mproc_host
    before = [a.copy() for a in arrs]
    arg = arrs[0] if n == 1 and c["kw"] else (arrs if c["seed"] % 2 else tuple(arrs))
    got = call(mproc.distribute_jobs, arg, f, given, args=args or None, kwargs=kwargs or None,
               ncore=c["ncore"], nchunk=nchunk, out=out)
    same(got, want, "result")
    expect(got.dtype == want.dtype, "element type %s, expected %s", got.dtype, want.dtype)
    if out is not None:
        expect(got is out or np.shares_memory(got, out), "the output array is not the result")
        same(out, want, "output array")
    for a, b, l in zip(arrs, before, lays):
        if a is not out and not l.startswith("shared"):
            same(a, b, "input after the call")
    for v in ("SHARED_ARRAYS", "SHARED_OUT", "SHARED_QUEUE"):
        expect(getattr(mproc, v, None) is None, "mproc.%s survives the call", v)


def serial_shared(f, arrs, axis, nchunk, args, kwargs, out):
    size = arrs[0].shape[axis]
    for i in range(0, size, nchunk or 1):
        s = slice(i, i + nchunk) if nchunk else i
        ix = tuple(slice(None) if d != axis else s for d in range(arrs[0].ndim))
        r = f(*([a[ix] for a in arrs] + list(args)), **kwargs)
        if r is not None:
            out[ix][...] = r
    return out


# ------------------------------------------------------------ failures

class Own(Exception):
    pass


def fail(a, at, how, code):
    if at in a:
        if how == "own":
            raise Own("marker")
        if how == "value":
            raise ValueError("marker")
        if how == "exit":
            os._exit(code)
        if how == "sysexit":
            sys.exit(code)
        if how == "signal":
            os.kill(os.getpid(), (signal.SIGKILL, signal.SIGSEGV, signal.SIGTERM)[code % 3])
    return a * 2


FAIL = st.fixed_dictionaries({
    "how": st.sampled_from(["own", "value", "exit", "sysexit", "signal"]),
    "code": st.integers(0, 3), "shape": st.lists(st.integers(2, 5), min_size=2, max_size=3),
    "axis": st.integers(-2, 1), "at": st.integers(0, 400), "ncore": st.integers(2, 4),
    "nchunk": st.sampled_from([0, 1, 2]), "lay": st.sampled_from(("C", "F", "strided", "shared")),
    "out": st.booleans(), "seed": seeds(),
})


def failures(c):
    shape = tuple(c["shape"])
    axis = c["axis"] % len(shape)
    nchunk = c["nchunk"]
    a0 = np.arange(1, np.prod(shape) + 1, dtype="f4").reshape(shape)
    at = 1 + c["at"] % a0.size
    size = shape[axis]
    if min(c["ncore"], -(-size // (nchunk or 1))) < 2:
        nchunk = 1
    a = layout(a0, c["lay"])
    out = np.zeros(shape, "f4") if c["out"] else None
    died = None
    try:
        mproc.distribute_jobs(a, fail, axis, args=(at, c["how"], c["code"]), ncore=c["ncore"],
                              nchunk=nchunk, out=out)
    except Exception as e:      # SystemExit of the caller would be a harness death
        died = e
    expect(died is not None, "a failing worker (%s %d) raised nothing", c["how"], c["code"])
    if c["how"] == "own":
        expect(isinstance(died, Own) and "marker" in str(died), "worker's error arrived as %r", died)
    if c["how"] == "value":
        expect(type(died) is ValueError and "marker" in str(died), "worker's error arrived as %r", died)
    if c["lay"] != "shared":
        same(a, a0, "input after the failure")
    # the next call works
    b = data((4, 3), c["seed"], "ints")
    got = call(mproc.distribute_jobs, b, double, 0, ncore=2, nchunk=1)
    same(got, b * 2, "result of the next call")
    # and so does a serial failure
    try:
        mproc.distribute_jobs(a0, fail, axis, args=(at, "own", 0), ncore=1)
        raise Violation("a failing serial call raised nothing")
    except Own:
        pass
    got = call(mproc.distribute_jobs, b, affine, 1, args=(2,), kwargs={"off": 3}, ncore=1)
    same(got, b * 2 + 3, "result of the next serial call")


# ------------------------------------------------------------ division of the axis

DIV = st.fixed_dictionaries({
    "size": st.integers(1, 200), "ncore": st.one_of(st.none(), st.integers(1, 64)),
    "nchunk": st.one_of(st.none(), st.integers(0, 220)),
})


def cover(slcs, size, what):
    seen = []
    for s in slcs:
        seen += [s] if isinstance(s, (int, np.integer)) else list(range(size))[s]
    expect(seen == list(range(size)), "%s: slices %r do not cover 0..%d once, in order", what,
           slcs[:6], size - 1)


def division(c):
    size, ncore, nchunk = c["size"], c["ncore"], c["nchunk"]
    n, slcs = call(mproc.get_ncore_slices, size, ncore, nchunk)
    cover(slcs, size, "get_ncore_slices")
    expect(1 <= n <= max(1, size), "get_ncore_slices: %d cores", n)
    if nchunk:
        expect(all(s.stop - s.start <= nchunk for s in slcs), "chunks larger than nchunk")
        expect(len(slcs) == -(-size // nchunk), "%d chunks", len(slcs))
    elif nchunk is None:
        expect(len(slcs) == n, "%d chunks for %d cores", len(slcs), n)
        ls = [s.stop - s.start for s in slcs]
        expect(max(ls) - min(ls) <= 1, "uneven division %r", ls)
    n, slcs = call(mproc.get_worker_ncore_slices, size, ncore, nchunk)
    cover(slcs, size, "get_worker_ncore_slices")
    n, k = call(mproc.get_ncore_nchunk, size, ncore, nchunk)
    expect(n >= 1 and n <= size and (ncore is None or n <= ncore), "get_ncore_nchunk: %d cores", n)
    if nchunk is None:
        expect(n * k >= size, "get_ncore_nchunk: %d cores of %d slices for %d", n, k, size)
    else:
        expect(k == min(nchunk, size), "get_ncore_nchunk: chunk %d", k)


def big(c):
    return c["ncore"] != 1 and c["nchunk"] != 9 and max(c["shape"]) > 1


SUBS = [
    Sub("model", CASE, model, quick=1600, thorough=30000, shards=6, nontrivial=big, timeout=60),
    Sub("failures", FAIL, failures, quick=80, thorough=2000, shards=4, timeout=60),
    Sub("division", DIV, division, quick=1500, thorough=40000,
        nontrivial=lambda c: c["size"] > 1 and c["ncore"] != 1),
]
