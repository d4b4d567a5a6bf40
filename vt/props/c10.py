"""C10: outlier removal replaces exactly the outliers by the local median."""
import warnings

import numpy as np
import tomopy

from vt.core import far, dims, Sub, st, data, call, same, expect, seeds, unchanged, layout, KINDS, LAYOUTS

RULE = "at least one value is replaced and one is kept"
ASSUMPTIONS = [
    "values within rounding of the threshold may go either way",
    "windows of even size: the upper median, one more value below than above",
    "border rules of the present code: reflection (2D, 1D without repeating the edge), the centre's "
    "own index along an axis that leaves the volume (3D)",
]
DIMS = dims((1, 8), (1, 8), (1, 9))
NC = st.sampled_from([None, 1, 2, 3, 5, 16])
KIND = st.sampled_from(KINDS)
DIF = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 2.0, 10.0, 1e6]), st.floats(1 / 64, 4, width=32))


def windows(a, sizes, mode):
    pad = [(s // 2, s - 1 - s // 2) for s in sizes]
    p = np.pad(a, pad, mode=mode)
    w = np.lib.stride_tricks.sliding_window_view(p, sizes)
    return w.reshape(a.shape + (-1,))


def rank(w):
    return np.sort(w, axis=-1)[..., w.shape[-1] // 2]


def judge(got, arr, med, dif, two_sided, what, out=None):
    expect(got.shape == arr.shape, "%s: shape %s", what, got.shape)
    d = arr.astype("f8") - med.astype("f8")
    d = np.abs(d) if two_sided else d
    hit = d >= np.float64(np.float32(dif))
    unclear = np.abs(d - dif) <= 1e-6 * (np.abs(arr) + np.abs(med) + dif)
    exact = np.all(arr == np.round(arr)) and float(dif) == round(float(dif) * 4) / 4 and dif < 1e4
    want = np.where(hit, med, arr).astype(arr.dtype)
    if exact:
        same(got, want, what)
    else:
        same(np.where(unclear, 0, got), np.where(unclear, 0, want), what)
        either = (got == med) | (got == arr)
        expect(either.all(), "%s: a value that is neither the input nor the median", what)


TWO = st.fixed_dictionaries({
    "n": st.lists(far(1, 8, 80, 20), min_size=2, max_size=4), "seed": seeds(), "kind": KIND, "dif": DIF,
    "size": st.integers(1, 6), "axis": st.integers(0, 3), "neg": st.booleans(), "ncore": NC,
    "out": st.sampled_from(["none", "none", "self", "C", "F", "strided"]), "cuda": st.booleans()})


def output(c, arr):
    if c["out"] == "none":
        return None
    if c["out"] == "self":
        return arr
    return layout(np.full(arr.shape, -7, "f4"), c["out"])


def planar(c):
    n = tuple(c["n"])
    arr = data(n, c["seed"], c["kind"])
    axis = c["axis"] % len(n)
    sizes = [c["size"]] * len(n)
    sizes[axis] = 1
    med = rank(windows(arr, sizes, "symmetric"))
    ax = axis - len(n) if c["neg"] else axis
    orig = arr.copy()
    if c["cuda"] and c["out"] == "none":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = call(tomopy.remove_outlier_cuda, arr, c["dif"], size=c["size"], axis=ax)
    else:
        out = output(c, arr)
        kw = dict(size=c["size"], axis=ax)
        if c["size"] == 3 and c["seed"] % 2:
            del kw["size"]
        if ax == 0 and c["seed"] % 3:
            del kw["axis"]
        got = call(tomopy.remove_outlier, arr, c["dif"], ncore=c["ncore"], out=out, **kw)
        if out is not None:
            same(got, out, "output array")
    if c["out"] != "self":
        same(arr, orig, "input")
    judge(got, orig, med, c["dif"], False, "remove_outlier")


def line(c):
    n = tuple(c["n"])
    arr = data(n, c["seed"], c["kind"])
    axis = c["axis"] % len(n)
    sizes = [1] * len(n)
    sizes[axis] = c["size"]
    med = rank(windows(arr, sizes, "reflect"))
    ax = axis - len(n) if c["neg"] else axis
    orig = arr.copy()
    out = output(c, arr)
    kw = dict(size=c["size"], axis=ax)
    if c["size"] == 3 and c["seed"] % 2:
        del kw["size"]
    if ax == 0 and c["seed"] % 3:
        del kw["axis"]
    got = call(tomopy.remove_outlier1d, arr, c["dif"], ncore=c["ncore"], out=out, **kw)
    if out is not None:
        same(got, out, "output array")
    if c["out"] != "self":
        same(arr, orig, "input")
    judge(got, orig, med, c["dif"], False, "remove_outlier1d")


def cube(a, r):
    """Median of the cube around each voxel; an index outside falls back to the centre's."""
    ws = []
    ix = []
    for d, n in enumerate(a.shape):
        i = np.arange(n)[:, None] + np.arange(-r, r + 1)[None]
        i = np.where((i < 0) | (i >= n), np.arange(n)[:, None], i)
        ix.append(i)
    w = a[ix[0][:, None, None, :, None, None], ix[1][None, :, None, None, :, None],
          ix[2][None, None, :, None, None, :]]
    w = w.reshape(a.shape + (-1,))
    return rank(w)


THREE = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "kind": KIND, "dif": DIF, "size": st.sampled_from([1, 2, 3, 3, 4, 5, 5, 7]),
    "ncore": NC, "type": st.sampled_from(["f4", "f4", "u2", "u2", "f8", "i4", "u1"]),
    "lay": st.sampled_from(LAYOUTS), "full": st.booleans(), "huge": st.booleans()})


def volume(c):
    n = tuple(c["n"])
    a = data(n, c["seed"], c["kind"], "f8")
    if c["type"][0] in "iu":
        a = np.round(np.abs(a) * 9)
        if c["huge"] and c["type"] == "u2":
            a = np.where(a > np.median(a), 65535 - a % 7, a)
        a = np.clip(a, 0, 255 if c["type"] == "u1" else 65535)
    elif c["huge"]:
        a = np.where(a > np.median(a), a * 2.0 ** 70, a)
    arr = layout(a.astype(c["type"]), c["lay"])
    dif = c["dif"] if c["type"][0] == "f" else float(round(c["dif"]))
    typ = "u2" if c["type"] == "u2" else "f4"
    v = np.array(arr).astype(typ)
    r = (max(int(c["size"]), 3) - 1) // 2
    med = cube(v, r)
    with unchanged(arr=arr):
        kw = {} if c["size"] == 3 and c["seed"] % 2 else {"size": c["size"]}
        if c["full"]:
            got = call(tomopy.median_filter3d, arr, ncore=c["ncore"], **kw)
        else:
            got = call(tomopy.remove_outlier3d, arr, dif, ncore=c["ncore"], **kw)
    expect(got.dtype == np.dtype(typ), "element type %s", got.dtype)
    if c["full"]:
        same(got, med, "median_filter3d")
    else:
        judge(got, v, med, dif, True, "remove_outlier3d")


def flat(c):
    return c["kind"] not in ("const",) and np.prod(c["n"]) > 3


SUBS = [
    Sub("planar", TWO, planar, quick=6000, thorough=60000, nontrivial=flat),
    Sub("line", TWO, line, quick=6000, thorough=60000, nontrivial=flat),
    Sub("volume", THREE, volume, quick=7500, thorough=60000, shards=2, nontrivial=flat),
]
