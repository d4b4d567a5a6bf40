"""C15: stripe detection yields sound weights and masks."""
import numpy as np
import tomopy

from vt.core import (dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, rejects, KINDS, LAYOUTS)

RULE = "weights: some strictly between 0 and 1; masks: some voxels set and some not; requests: every drawn one"
ASSUMPTIONS = [
    "weights compared to 2e-5 (single precision sums); where the ratio's denominator is below 1e-6 of the data "
    "range it is not judged (cancellation)",
    "the running median takes the element one rank below the middle, as in the present code; neighbours beyond "
    "a border are mirrored about the voxel",
]


def mirror(n, d):
    """Index of the neighbour at distance d for each of n positions, mirrored at the borders."""
    p = np.arange(n)
    a, b = p + d, p - d
    return np.where((a >= 0) & (a < n), a, np.where((b >= 0) & (b < n), b, p))


def weights(x, size, radius):
    """float64 model; also the places where single precision cannot decide."""
    x = x.astype("f4").astype("f8")
    nz, ny, nx = x.shape
    g = np.abs(x[:, :, mirror(nx, 2)] - x)
    plate = sum(g[np.ix_(mirror(nz, k), mirror(ny, j), np.arange(nx))]
                for j in range(-radius, radius + 1) for k in range(-radius, radius + 1)) / (2 * radius + 1) ** 2

    def side(r):
        return sum(g[np.ix_(np.arange(nz), mirror(ny, j), mirror(nx, i))] for j in (-1, 0, 1) for i in r) / (3 * radius)

    with np.errstate(all="ignore"):
        def ratio(h):
            big, small = np.maximum(h, plate), np.minimum(h, plate)
            return np.where(big > 0, small / np.where(big > 0, big, 1), 0.0)
        r1, r2 = side(range(1, radius + 1)), side(range(-radius, 0))
        r = np.minimum(ratio(r1), ratio(r2))
    span = np.abs(x).max() or 1.0
    weak = np.minimum(np.maximum(r1, plate), np.maximum(r2, plate))
    vague = (weak > 0) & (weak < 1e-6 * span)
    k = np.arange(nz)[:, None] + np.arange(-size, size + 1)[None]
    k = np.where((k < 0) | (k >= nz), 2 * np.arange(nz)[:, None] - k, k)
    w = np.sort(r[k], axis=1)[:, int(0.5 * (2 * size + 1)) - 1]
    return w, vague[k].any(axis=1), r


def volume(c):
    nz, ny, nx = c["n"]
    x = data((nz, ny, nx), c["seed"], c["kind"])
    r = np.random.default_rng(c["seed"] + 1)
    for _ in range(c["stripes"]):
        z, y, i = r.integers(0, nz), r.integers(0, ny), r.integers(0, nx)
        x[z:z + r.integers(1, nz + 1), y:y + r.integers(1, 4), i:i + r.integers(1, 4)] += np.float32(r.choice([0.5, -1, 3]))
    return x


DETECT = st.fixed_dictionaries({
    "n": dims((2, 14), (1, 9), (1, 11)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "stripes": st.integers(0, 3), "size": st.floats(0, 1), "radius": st.integers(1, 4),
    "ncore": st.sampled_from([1, 2, 3]), "layout": st.sampled_from(LAYOUTS), "type": st.sampled_from(["f4", "f8"]),
    "default": st.booleans()})


def detect(c):
    x = volume(c)
    if x.shape[0] >= 20 and c["default"]:
        kw, size, radius = {}, 10, 3
    else:
        size, radius = 1 + int(c["size"] * (x.shape[0] // 2 - 1)), c["radius"]
        kw = dict(size=size, radius=radius)
    a = layout(x.astype(c["type"]), c["layout"])
    with unchanged(tomo=a):
        got = call(tomopy.stripes_detect3d, a, ncore=c["ncore"], **kw)
    expect(got.dtype == np.float32 and got.shape == x.shape, "type %s shape %s", got.dtype, got.shape)
    expect(np.all((got >= 0) & (got <= 1)), "weights outside [0, 1]: %g..%g", got.min(), got.max())
    want, vague, _ = weights(x, size, radius)
    close(got, want, 2e-5, "weights", scale=1.0, mask=~vague)
    # brightness and sign do not matter
    scaled = call(tomopy.stripes_detect3d, x * np.float32(-4), ncore=1, size=size, radius=radius)
    same(scaled, got, "weights of the volume times -4")


PLANT = st.fixed_dictionaries({
    "n": st.tuples(st.integers(20, 40), st.integers(8, 14), st.integers(16, 30)).map(list), "seed": seeds(),
    "col": st.floats(0, 1), "row": st.floats(0, 1), "radius": st.integers(1, 3), "amp": st.sampled_from([-1.0, 0.3, 2.0])})


def plant(c):
    """A full-height stripe in a smooth volume has small weights beside it; far from it they are not small."""
    nz, ny, nx = c["n"]
    i, j = 6 + int(c["col"] * (nx - 13)), int(c["row"] * (ny - 1))
    r = np.random.default_rng(c["seed"])
    x = (r.normal(size=(nz, ny, nx)) * 0.05).astype("f4")
    x[:, j, i] += np.float32(c["amp"])
    w = call(tomopy.stripes_detect3d, x, size=8, radius=c["radius"], ncore=2)
    lo = w[:, j, max(i - 3, 0):i + 4].min(axis=1)
    far = np.ones(nx, bool)
    far[max(0, i - 2 * c["radius"] - 4):i + 2 * c["radius"] + 5] = False
    want, _, _ = weights(x, 8, c["radius"])
    close(w, want, 2e-5, "weights", scale=1.0)
    if far.any():
        expect(np.median(lo) < np.median(w[:, :, far]), "the stripe at column %d is not marked: %g against %g",
               i, np.median(lo), np.median(w[:, :, far]))


# ------------------------------------------------------------------------------------------------ masks
def mask_model(w, thr, length, depth, width, sens):
    f = np.float32
    nz, ny, nx = w.shape
    m = w <= f(thr)

    def count(m, axis, half):
        n = m.shape[axis]
        out = np.zeros(m.shape, int)
        for d in range(-half, half + 1):
            p = np.arange(n)
            k = np.where((p + d < 0) | (p + d >= n), p - d, p + d)
            out += np.take(m, k, axis=axis)
        return out

    if depth:
        m = m & ~(count(m, 1, depth // 2) > int(f(f(0.01) * f(sens)) * f(depth)))
    m = m & ~(count(m, 0, length // 2) < int(f(f(0.01) * f(sens)) * f(length)))
    m = m & ~(count(m, 0, length // 2) < length // 2)
    start = m.copy()
    for _ in range(width):
        left, right, up, down = (np.zeros_like(m) for _ in range(4))
        p = np.arange(nx)
        for x in range(0, width // 2 + 1):
            left |= m[:, :, np.where(p - x < 0, p + x, p - x)]
            right |= m[:, :, np.where(p + x >= nx, p - x, p + x)]
        for x in range(0, 2 * width + 1):
            up |= m[mirror(nz, -x)]
            down |= m[mirror(nz, x)]
        m = m | (left & right) | (up & down)
    return m, start


MASK = st.fixed_dictionaries({
    "n": dims((2, 24), (1, 9), (2, 14)), "seed": seeds(),
    "fill": st.sampled_from(["random", "stripes", "stripes", "dense", "deep", "all"]), "thr": st.sampled_from([0.0, 0.3, 0.5, 0.6, 0.7, 1.0]),
    "par": st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1)).map(list),
    "sens": st.sampled_from([1.0, 20.0, 50.0, 85.0, 85.0, 100.0]), "ncore": st.sampled_from([1, 2, 3]),
    "layout": st.sampled_from(LAYOUTS), "up": st.floats(0, 0.5)})


def wts(c):
    nz, ny, nx = c["n"]
    r = np.random.default_rng(c["seed"])
    w = r.random((nz, ny, nx)).astype("f4")
    if c["fill"] != "random":
        w = np.float32(0.4) + np.float32(0.6) * w
    if c["fill"] in ("stripes", "deep"):
        for _ in range(r.integers(1, 6)):
            z, y, i = r.integers(0, nz), r.integers(0, ny), r.integers(0, nx)
            s = np.s_[z:z + r.integers(1, nz + 1), y:y + (r.integers(1, ny + 1) if c["fill"] == "deep" else 1), i:i + r.integers(1, 3)]
            w[s] *= np.where(r.random(w[s].shape) < 0.1, 1, 0.2).astype("f4")
    elif c["fill"] == "dense":
        w[r.random(w.shape) < 0.8] = 0.1
    elif c["fill"] == "all":
        w[:] = 0.1
    k = r.random(w.shape) < 0.02
    w[k] = np.float32(c["thr"])                   # exactly the threshold: belongs to the mask
    return w


def params(c):
    nz, ny, nx = c["n"]
    a, b, d = c["par"]
    return 1 + int(a * (nz - 2)), int(b * (ny - 1)), 1 + int(d * min(nx - 2, 8))


def mask(c):
    w = wts(c)
    length, depth, width = params(c)
    a = layout(w, c["layout"])
    kw = dict(threshold=c["thr"], min_stripe_length=length, min_stripe_depth=depth, min_stripe_width=width,
              sensitivity_perc=c["sens"])
    with unchanged(weights=a):
        got = call(tomopy.stripes_mask3d, a, ncore=c["ncore"], **kw)
    expect(got.dtype == bool and got.shape == w.shape, "type %s shape %s", got.dtype, got.shape)
    want, start = mask_model(w, c["thr"], length, depth, width, c["sens"])
    same(got, want, "mask")
    # no voxel outside closed gaps; a volume of large weights has an empty mask
    none = call(tomopy.stripes_mask3d, np.full_like(w, 2), ncore=1, **kw)
    expect(not none.any(), "a mask although no weight is below the threshold")
    if depth == 0:
        more = call(tomopy.stripes_mask3d, w, ncore=1, **dict(kw, threshold=c["thr"] + c["up"]))
        expect(np.all(more | ~got), "a larger threshold lost mask voxels")


# ------------------------------------------------------------------------------------------------ requests
ASK = st.fixed_dictionaries({
    "n": dims((2, 12), (1, 6), (2, 8)), "seed": seeds(),
    "what": st.sampled_from(["size", "length", "depth", "width", "sens", "dims", "empty", "default"]),
    "v": st.integers(-3, 14), "s": st.sampled_from([-1.0, 0.0, 100.5, 1e9, 50.0, 100.0])})


def ask(c):
    nz, ny, nx = c["n"]
    x = data((nz, ny, nx), c["seed"])
    v, what = c["v"], c["what"]
    ok = dict(min_stripe_length=1, min_stripe_depth=0, min_stripe_width=1)

    def need(good, f, *a, **k):
        if good:
            r = call(f, *a, **k)
            expect(r.shape == a[0].shape, "shape")
        else:
            with unchanged(data=a[0]):
                rejects(ValueError, f, *a, **k)

    if what == "size":
        need(0 < v <= nz // 2, tomopy.stripes_detect3d, x, size=v, radius=1, ncore=1)
    elif what == "length":
        need(0 < v < nz, tomopy.stripes_mask3d, x, ncore=1, **dict(ok, min_stripe_length=v))
    elif what == "depth":
        need(0 <= v < ny, tomopy.stripes_mask3d, x, ncore=1, **dict(ok, min_stripe_depth=v))
    elif what == "width":
        need(0 < v < nx, tomopy.stripes_mask3d, x, ncore=1, **dict(ok, min_stripe_width=v))
    elif what == "sens":
        need(0 < c["s"] <= 100, tomopy.stripes_mask3d, x, ncore=1, sensitivity_perc=c["s"], **ok)
    elif what == "dims":
        need(False, tomopy.stripes_mask3d, x[0], ncore=1, **ok)
        need(False, tomopy.stripes_detect3d, x[0], size=1, ncore=1)
    elif what == "empty":
        e = np.zeros((0, ny, nx), "f4") if v % 2 else np.zeros((nz, ny, 0), "f4")
        need(False, tomopy.stripes_mask3d, e, ncore=1, **ok)
        need(False, tomopy.stripes_detect3d, e, size=1, ncore=1)
    else:
        big = data((24, 11, 7), c["seed"])
        got = call(tomopy.stripes_detect3d, big, ncore=2)
        close(got, weights(big, 10, 3)[0], 2e-5, "default weights", scale=1.0)
        big = wts({"n": [24, 12, 9], "seed": c["seed"], "fill": "stripes", "thr": 0.6})
        same(call(tomopy.stripes_mask3d, big, ncore=2), mask_model(big, 0.6, 20, 10, 5, 85.0)[0], "default mask")


def _some(c):
    m, _ = mask_model(wts(c), c["thr"], *params(c), c["sens"])
    return bool(m.any() and not m.all())


SUBS = [
    Sub("detect", DETECT, detect, quick=4800, thorough=38400, shards=2,
        nontrivial=lambda c: c["kind"] != "const" or c["stripes"] > 0),
    Sub("plant", PLANT, plant, quick=450, thorough=3600),
    Sub("mask", MASK, mask, quick=7200, thorough=57600, shards=2, nontrivial=_some),
    Sub("ask", ASK, ask, quick=1500, thorough=12000),
]
