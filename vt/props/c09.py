"""C09: smoothing and point-wise filters act on each slice as documented."""
import warnings

import numpy as np
import scipy.ndimage as ndi
import tomopy

from vt.core import dims, far, Sub, st, data, call, close, same, expect, seeds, unchanged, rejects, KINDS, Skip, omit

RULE = "several slices of different content"
ASSUMPTIONS = ["scipy.ndimage on one double-precision 2D slice is the reference of the smoothing filters",
               "functions documented to work in place may change their input"]
DIMS = dims((1, 7), (1, 7), (1, 9))
NC = st.sampled_from([None, 1, 2, 3, 16])
AX = st.integers(-3, 2)
KIND = st.sampled_from(KINDS)


def many(c):
    return c["n"][c.get("axis", 0) % 3] > 1


def slicewise(arr, axis, f):
    return np.stack([f(x) for x in np.moveaxis(arr.astype("f8"), axis, 0)]).swapaxes(0, 0) \
        if axis % arr.ndim == 0 else np.moveaxis(
            np.stack([f(x) for x in np.moveaxis(arr.astype("f8"), axis, 0)]), 0, axis)


GAUSS = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "kind": KIND, "axis": AX, "ncore": NC,
    "sigma": st.one_of(st.sampled_from([0.5, 1, 2.5, 3]),
                       st.tuples(st.sampled_from([0.4, 1, 3]), st.sampled_from([0, 0.7, 2])).map(list)),
    "order": st.one_of(st.integers(0, 3), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list)),
    "default": st.booleans()})


def gaussian(c):
    arr = data(tuple(c["n"]), c["seed"], c["kind"])
    kw = {} if c["default"] else {"sigma": c["sigma"], "order": c["order"]}
    s, o = (3, 0) if c["default"] else (c["sigma"], c["order"])
    with unchanged(arr=arr):
        got = call(tomopy.gaussian_filter, arr, ncore=c["ncore"],
                   **omit(dict(kw, axis=c["axis"]), c["seed"], axis=0, sigma=3, order=0))
    want = slicewise(arr, c["axis"], lambda x: ndi.gaussian_filter(x, s, order=o))
    # single precision input and intermediate result of the two passes
    close(got, want, 2e-5, "gaussian_filter", scale=np.abs(arr).max() * 4)


MED = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "kind": KIND, "axis": AX, "ncore": NC,
                             "size": st.integers(1, 7), "cuda": st.booleans()})


def med2(x, size):
    """Rank filter by sorting every (reflected) window."""
    lo, hi = size // 2, size - 1 - size // 2
    p = np.pad(x, ((lo, hi), (lo, hi)), mode="symmetric")
    w = np.lib.stride_tricks.sliding_window_view(p, (size, size)).reshape(x.shape + (-1,))
    return np.sort(w, axis=-1)[..., size * size // 2]


def median(c):
    arr = data(tuple(c["n"]), c["seed"], c["kind"])
    kw = omit(dict(size=c["size"], axis=c["axis"]), c["seed"], size=3, axis=0)
    with unchanged(arr=arr):
        if c["cuda"]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = call(tomopy.median_filter_cuda, arr, **kw)
        else:
            got = call(tomopy.median_filter, arr, ncore=c["ncore"], **kw)
    same(got, slicewise(arr, c["axis"], lambda x: med2(x, c["size"])).astype("f4"), "median_filter")


SOB = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "kind": KIND, "axis": AX, "ncore": NC})


def sob2(x):
    p = np.pad(x, 1, mode="symmetric")
    d = p[:, 2:] - p[:, :-2]
    return d[:-2] + 2 * d[1:-1] + d[2:]


def sobel(c):
    arr = data(tuple(c["n"]), c["seed"], c["kind"])
    with unchanged(arr=arr):
        got = call(tomopy.sobel_filter, arr, ncore=c["ncore"], **omit(dict(axis=c["axis"]), c["seed"], axis=0))
    close(got, slicewise(arr, c["axis"], sob2), 2e-6, "sobel_filter", scale=8 * np.abs(arr).max())


NONF = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "kind": KIND, "frac": st.sampled_from([0.02, 0.1, 0.3, 0.6]),
    "size": st.integers(1, 7), "what": st.sampled_from(["nan", "inf", "-inf", "mix"]),
    "type": st.sampled_from(["f4", "f8"])})


def nonfinite(c):
    arr = data(tuple(c["n"]), c["seed"], c["kind"], c["type"])
    r = np.random.default_rng(c["seed"] + 1)
    bad = r.random(arr.shape) < c["frac"]
    v = {"nan": [np.nan], "inf": [np.inf], "-inf": [-np.inf],
         "mix": [np.nan, np.inf, -np.inf]}[c["what"]]
    arr[bad] = r.choice(v, arr.shape)[bad]
    h = c["size"] // 2
    want, empty = arr.copy(), False
    for i, y, x in np.argwhere(bad):
        w = arr[i, max(0, y - h):y + h + 1, max(0, x - h):x + h + 1]
        w = np.sort(w[np.isfinite(w)])
        if w.size == 0:
            empty = True
            break
        k = w.size // 2
        want[i, y, x] = w[k] if w.size % 2 else np.mean(w[k - 1:k + 1])
    calls = []
    f = tomopy.misc.corr.median_filter_nonfinite
    cb = (lambda *a: calls.append(a)) if c["seed"] % 2 else None
    if empty:
        return rejects(ValueError, f, arr.copy(), size=c["size"], callback=cb)
    got = call(f, arr.copy(), callback=cb, **omit(dict(size=c["size"]), c["seed"] >> 1, size=3))
    close(got, want, 1e-6, "median_filter_nonfinite")
    same(got[~bad], arr[~bad], "finite values")
    if cb:
        expect(len(calls) == c["n"][0] and all(x[0] == c["n"][0] for x in calls),
               "callback called %d times with %r", len(calls), calls[:2])


POINT = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "ncore": NC, "val": st.sampled_from([0.0, 0.5, -2.0, 1e6]),
    "op": st.sampled_from(["nan", "neg", "range"]), "special": st.booleans(),
    "lo": st.one_of(st.none(), st.sampled_from([-3.0, -0.5, 0.0, 0.2, 9.0])),
    "hi": st.one_of(st.none(), st.sampled_from([-3.0, -0.5, 0.0, 0.7, 9.0])), "default": st.booleans()})


def pointwise(c):
    arr = data(tuple(c["n"]), c["seed"], "signed")
    r = np.random.default_rng(c["seed"] + 1)
    if c["op"] == "range":
        lo, hi = c["lo"], c["hi"]
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        if (arr.max() if hi is None else hi) < (arr.min() if lo is None else lo):
            raise Skip()        # an empty range
        got = call(tomopy.adjust_range, arr.copy(), dmin=lo, dmax=hi)
        want = arr
        if hi is not None:
            want = np.where(want > hi, np.float32(hi), want)
        if lo is not None:
            want = np.where(want < lo, np.float32(lo), want)
        return same(got, want, "adjust_range(%s, %s)" % (lo, hi))
    if c["special"]:
        arr[r.random(arr.shape) < 0.2] = np.inf
        arr[r.random(arr.shape) < 0.2] = -np.inf
        arr[r.random(arr.shape) < 0.2] = -0.0
    if c["op"] == "nan" or c["special"]:
        arr[r.random(arr.shape) < 0.3] = np.nan
    v = np.float32(0 if c["default"] else c["val"])
    kw = {} if c["default"] else {"val": c["val"]}
    if c["op"] == "nan":
        got = call(tomopy.remove_nan, arr.copy(), ncore=c["ncore"], **kw)
        want = np.where(np.isnan(arr), v, arr)
    else:
        got = call(tomopy.remove_neg, arr.copy(), ncore=c["ncore"], **kw)
        with np.errstate(invalid="ignore"):
            want = np.where(arr < 0, v, arr)
    same(got, want, "remove_" + c["op"])


MASK = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "axis": AX, "ncore": NC, "val": st.sampled_from([0.0, 5.0, -1.5]),
    "ratio": st.sampled_from([0.0, 0.3, 0.5, 0.77, 0.95, 1, 1.3, 2.0]), "default": st.booleans()})


def mask(c):
    arr = data(tuple(c["n"]), c["seed"], "signed")
    kw = {} if c["default"] else {"ratio": c["ratio"], "val": c["val"]}
    ratio, val = (1, 0.0) if c["default"] else (c["ratio"], c["val"])
    got = call(tomopy.circ_mask, arr.copy(), c["axis"], ncore=c["ncore"], **kw)
    b = np.moveaxis(arr, c["axis"], 0)
    h, w = b.shape[1:]
    y = np.arange(h) - (h - 1) / 2
    x = np.arange(w) - (w - 1) / 2
    d = y[:, None] ** 2 + x[None] ** 2
    rad = (ratio * min(h, w) / 2) ** 2
    inside = d < rad
    want = np.where(inside, b, np.float32(val))
    expect(got.shape == arr.shape, "shape %s", got.shape)
    g = np.moveaxis(got, c["axis"], 0)
    clear = np.abs(d - rad) > 1e-9 * (1 + rad)          # not on the circle itself
    clear |= ratio in (1, 2.0, 0.5, 0.0)                # exact arithmetic
    same(g[:, clear], want[:, clear], "circ_mask ratio %s" % ratio)


ENH = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "kind": st.sampled_from(["uniform", "spikes", "ints"]),
                             "ks": st.sampled_from([1, 3, 5, 7]), "ncore": st.sampled_from([1, 2, 3]),
                             "type": st.sampled_from(["f4", "f8"]), "wide": far(0, 0, 90, odds=20)})


def enhance(c):
    if c["wide"]:
        c = dict(c, n=[1, c["wide"], 100 - c["wide"] // 2])
    arr = data(tuple(c["n"]), c["seed"], c["kind"], c["type"]) + np.dtype(c["type"]).type(1)
    with unchanged(arr=arr):
        got = call(tomopy.enhance_projs_aps_1id, arr, ncore=c["ncore"],
                   **omit(dict(median_ks=c["ks"]), c["seed"], median_ks=5))
    k = c["ks"]
    want = []
    for im in arr.astype("f8"):
        p = np.pad(im, k // 2)
        w = np.lib.stride_tricks.sliding_window_view(p, (k, k)).reshape(im.shape + (-1,))
        m = np.sort(w, -1)[..., k * k // 2]
        less = np.searchsorted(np.sort(im, axis=None), im)
        v = m ** 2 * (less + 1) / im.size
        with np.errstate(invalid="ignore"):
            want.append(v / v.max())
    close(got, np.stack(want), 1e-5, "enhance_projs_aps_1id")


SUBS = [
    Sub("gaussian", GAUSS, gaussian, quick=3200, thorough=25600, nontrivial=many),
    Sub("median", MED, median, quick=4800, thorough=38400, nontrivial=many),
    Sub("sobel", SOB, sobel, quick=3200, thorough=25600, nontrivial=many),
    Sub("nonfinite", NONF, nonfinite, quick=3200, thorough=25600),
    Sub("pointwise", POINT, pointwise, quick=8000, thorough=64000),
    Sub("mask", MASK, mask, quick=6000, thorough=48000),
    Sub("enhance", ENH, enhance, quick=640, thorough=5120, shards=2),
]
