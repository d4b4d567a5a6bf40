"""C12: inpainting fills exactly the masked pixels from their surroundings."""
import numpy as np
import tomopy

from vt.core import dims, Sub, st, data, call, close, same, expect, seeds, unchanged, Skip, Violation

RULE = "at least one masked and one known pixel in a slice"
ASSUMPTIONS = [
    "known pixels are positive (zero marks missing data in the present code) and every slice has one",
    "one smoothing pass more or less is not judged beyond two iterations",
    "the 2D median may be one rank off the middle of its neighbourhood (as in the present code)",
]
inp = tomopy.inpainter_morph
MASKS = ("random", "box", "column", "most", "edge", "one", "none", "cross")


def mask_of(shape, kind, seed):
    r = np.random.default_rng(seed)
    m = np.zeros(shape, bool)
    if kind == "random":
        m = r.random(shape) < r.choice([0.05, 0.2, 0.5])
    elif kind == "box":
        s = tuple(slice(a, a + 1 + r.integers(0, max(1, n // 2))) for n, a in
                  ((n, r.integers(0, n)) for n in shape))
        m[s] = True
    elif kind == "column":
        m[..., r.integers(0, shape[-1]):][..., :2] = True
    elif kind == "most":
        m[:] = True
        m[tuple(r.integers(0, n) for n in shape)] = False
    elif kind == "edge":
        m[..., 0] = m[..., -1] = True
    elif kind == "one":
        m[tuple(r.integers(0, n) for n in shape)] = True
    elif kind == "cross":
        m[..., shape[-1] // 2] = True
        m[..., shape[-2] // 2, :] = True
    return m


CASE = st.fixed_dictionaries({
    "n": dims((1, 6), (1, 10), (1, 10), long=(14, 40), odds=10), "seed": seeds(),
    "dim": st.sampled_from([2, 3, 3]), "axis": st.sampled_from([None, 0, 1, 2]),
    "type": st.sampled_from(["mean", "median", "random"]), "size": st.integers(1, 5),
    "iter": st.integers(0, 4), "mask": st.sampled_from(MASKS), "ncore": st.sampled_from([1, 1, 2, 2, 3, 4, None]),
    "level": st.sampled_from([0.0, 1.0, 1e4]), "kind": st.sampled_from(["uniform", "spikes", "ramp", "const"]),
    "default": st.booleans()})


def build(c):
    shape = tuple(c["n"]) if c["dim"] == 3 else tuple(c["n"][1:])
    arr = data(shape, c["seed"], c["kind"]) + np.float32(c["level"] + 0.125)
    m = mask_of(shape, c["mask"], c["seed"] + 1)
    axis = c["axis"] if c["dim"] == 3 else None
    # something must be known in every slice that is filled on its own
    if axis is None:
        groups = [(arr, m)]
    else:
        groups = list(zip(np.moveaxis(arr, axis, 0), np.moveaxis(m, axis, 0)))
    for a, k in groups:
        if k.all():
            k[tuple(n // 2 for n in k.shape)] = False       # a view: edits m
    junk = np.random.default_rng(c["seed"] + 2).choice([0.0, np.nan, -50.0, 1e7])
    arr[m] = junk                                           # what the mask hides must not matter
    return arr, m, axis, groups


def windows(a, k, fill):
    p = np.pad(a, k, constant_values=fill)
    return np.lib.stride_tricks.sliding_window_view(p, (2 * k + 1,) * a.ndim).reshape(a.shape + (-1,))


def fill_mean_median(arr, mask, size, iterations, how):
    """Layers from the border of the mask inwards, then one pass over the filled region."""
    x = np.where(mask, 0.0, arr.astype("f8"))
    n = arr.ndim if not (arr.ndim == 3 and arr.shape[0] == 1) else 2
    if n < arr.ndim:
        return fill_mean_median(arr[0], mask[0], size, iterations, how)[None]
    g = np.stack(np.meshgrid(*[np.arange(-size, size + 1)] * n, indexing="ij"))
    w = np.exp(-(g ** 2).sum(0) / (2 * (2 * size + 1) ** n)).ravel()

    def step(x, todo):
        near = (windows(x, 1, 0.0) != 0).any(-1) & todo
        v = windows(x, size, 0.0)
        ok = v != 0
        with np.errstate(all="ignore"):
            if how == "mean":
                new = (v * w).sum(-1) / (ok * w).sum(-1)
            else:
                s = np.sort(np.where(ok, v, np.inf), -1)
                k = ok.sum(-1) // 2
                new = np.take_along_axis(s, np.minimum(k, s.shape[-1] - 1)[..., None], -1)[..., 0]
        return np.where(near, new, x), todo & ~near

    todo = mask.copy()
    while todo.any():
        x, todo = step(x, todo)
    if iterations > 0:
        x, _ = step(x, mask.copy())
    return x


def central(a, k, g, size):
    """Pixels next to known data hold a middle value (rank n/2, give or take one) of the window."""
    x = np.where(k, np.float32(0), a)
    near = (windows(x, 1, 0) != 0).any(-1) & k
    v = windows(x, size, 0)
    for i in map(tuple, np.argwhere(near)):
        s = np.sort(v[i][v[i] != 0])
        n = len(s)
        ok = s[max(n // 2 - 1, 0):n // 2 + 2]
        expect(ok[0] <= g[i] <= ok[-1], "median filling at %s: %g, window middle %g..%g", i, g[i],
               ok[0], ok[-1])


def fill(c):
    arr, m, axis, groups = build(c)
    kw = dict(size=c["size"], iterations=c["iter"], inpainting_type=c["type"])
    size, it, typ = c["size"], c["iter"], c["type"]
    if c["default"]:
        kw, size, it, typ = {}, 5, 2, "random"
    with unchanged(arr=arr, mask=m):
        got = call(inp, arr, m, axis=axis, ncore=c["ncore"], **kw)
    expect(got.shape == arr.shape and got.dtype == np.float32, "shape %s type %s", got.shape, got.dtype)
    same(got[~m], arr[~m], "known pixels")
    out = [got] if axis is None else list(np.moveaxis(got, axis, 0))
    for (a, k), g in zip(groups, out):
        if not k.any():
            continue
        known = a[~k].astype("f8")
        lo, hi = known.min(), known.max()
        eps = 2e-6 * hi * (2 + it)
        f = g[k]
        expect(np.all(np.isfinite(f)) and f.min() >= lo - eps and f.max() <= hi + eps,
               "%s: filled values %g..%g outside the known range %g..%g", typ, f.min(), f.max(), lo, hi)
        flat = a.ndim == 2 or a.shape[0] == 1
        if typ == "mean" or (typ == "median" and not flat):
            want = fill_mean_median(a, k, size, it, typ)
            # a median picks an element; ties of nearly equal float32 values are the same value
            close(g[k], want[k], 2e-5, "%s filling" % typ, scale=hi)
        elif typ == "median":
            expect(np.isin(f, a[~k]).all(), "a median that is none of the known values")
            if it == 0:
                central(a.reshape(a.shape[-2:]), k.reshape(a.shape[-2:]), g.reshape(a.shape[-2:]), size)


def slices(c):
    """2D filling of a stack equals filling each slice alone, for any core count."""
    c = dict(c, dim=3, axis=c["axis"] or 0, type="median" if c["type"] == "random" else c["type"])
    arr, m, axis, groups = build(c)
    kw = dict(size=c["size"], iterations=c["iter"], inpainting_type=c["type"])
    got = call(inp, arr, m, axis=axis, ncore=c["ncore"], **kw)
    for i, (a, k) in enumerate(groups):
        one = call(inp, np.ascontiguousarray(a), np.ascontiguousarray(k), ncore=1, **kw)
        same(np.moveaxis(got, axis, 0)[i], one, "slice %d of axis %d" % (i, axis))


LOCAL = st.fixed_dictionaries({
    "n": st.integers(24, 40), "seed": seeds(), "type": st.sampled_from(["mean", "median", "random"]),
    "size": st.integers(1, 3), "iter": st.integers(0, 3), "h": st.integers(1, 3), "w": st.integers(1, 3),
    "pos": st.tuples(st.floats(0, 1), st.floats(0, 1)).map(list), "dim": st.sampled_from([2, 3]),
    "way": st.integers(0, 1)})


def local(c):
    """A small hole in a steep ramp is filled with values of its surroundings."""
    n = c["n"]
    y, x = np.mgrid[:n, :n]
    img = (1 + 10 * (x if c["way"] else y)).astype("f4")
    m = np.zeros((n, n), bool)
    r, s = int(c["pos"][0] * (n - c["h"])), int(c["pos"][1] * (n - c["w"]))
    m[r:r + c["h"], s:s + c["w"]] = True
    if c["dim"] == 3:
        img, m3 = np.stack([img] * 3), np.zeros((3, n, n), bool)
        m3[1] = m
        m = m3
    got = call(inp, np.where(m, np.float32(0), img), m, ncore=2, size=c["size"], iterations=c["iter"],
               inpainting_type=c["type"])
    same(got[~m], img[~m], "known pixels")
    layers = 1 if min(c["h"], c["w"]) <= 2 and c["dim"] == 3 else 2
    reach = c["size"] * (2 + (c["iter"] > 0)) + 4
    off = np.abs(got[m].astype("f8") - img[m]).max()
    expect(off <= 10 * reach + 1e-3, "filled %g away from the true value within a reach of %d pixels", off, reach)
    if c["type"] == "mean":
        expect(off <= 10 * (c["size"] + 2), "mean filling is %g away", off)


SUBS = [
    Sub("fill", CASE, fill, quick=24000, thorough=192000, shards=3, nontrivial=lambda c: c["mask"] != "none"),
    Sub("slices", CASE, slices, quick=7500, thorough=60000, nontrivial=lambda c: c["mask"] != "none"),
    Sub("local", LOCAL, local, quick=2500, thorough=20000),
]
