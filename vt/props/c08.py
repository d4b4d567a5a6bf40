"""C08: normalisation divides by the right flat field, background or region."""
import numpy as np
import tomopy

from vt.core import dims, Sub, st, data, call, close, same, expect, seeds, unchanged, Violation

RULE = "fields that vary from pixel to pixel (and from set to set)"
ASSUMPTIONS = [
    "flat-field sets of normalize_nf have equal mean and median (the documentation says mean, the "
    "code takes the median)",
    "a projection equally far from two flat-field sets may use either, counting from before or "
    "after the projection",
    "at least two detector columns for the background interpolation",
]
DIMS = dims((1, 9), (1, 7), (2, 12))
NC = st.sampled_from([None, 1, 2, 3, 16])
# up to a few flops in single precision
TOL = 3e-6


def near(got, want, what, tol=TOL):
    """Element-wise relative comparison (values span many orders of magnitude)."""
    got = np.asarray(got, "f8")
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= tol * np.abs(want) + 1e-30)
    bad &= ~((np.isnan(got) & np.isnan(want)) | (got == want))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("%s: %d of %d values differ; first at %s: got %r, expected %r"
                        % (what, bad.sum(), bad.size, i, got[i], want[i]))


def field(n, seed, lo, hi):
    return np.random.default_rng(seed).integers(lo, hi, n).astype("f4")


FIELD = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "nflat": st.integers(0, 5), "ndark": st.integers(0, 5),
    "avg": st.sampled_from([None, "mean", "median"]), "cut": st.sampled_from([None, None, 0.25, 1.0, 3, 1e4, -1]),
    "empty": st.booleans(), "ncore": NC, "unit": st.sampled_from([1.0, 0.25, 1024.0, 2.0 ** -22])})


def flat_dark(c):
    nt, ny, nx = c["n"]
    s, u = c["seed"], np.float32(c["unit"])
    arr = field((nt, ny, nx), s, 0, 200) * u
    flat = field((c["nflat"], ny, nx) if c["nflat"] else (ny, nx), s + 1, 60, 250) * u
    dark = field((c["ndark"], ny, nx) if c["ndark"] else (ny, nx), s + 2, 0, 60) * u
    if c["empty"]:
        # detector pixels without light: flat equal to or below the dark field
        r = np.random.default_rng(s + 3)
        m = r.random((ny, nx)) < 0.3
        flat[..., m] = r.integers(0, 2) * 10 * u
        dark[..., m] = 10 * u
    return arr, flat, dark


def av(a, how):
    if a.ndim == 2:
        return a.astype("f8")
    return (np.median if how == "median" else np.mean)(a.astype("f8"), axis=0)


def formula(arr, f, d, cut):
    den = f - d
    den = np.where(den < 1e-6, np.float64(np.float32(1e-6)), den)
    r = (arr.astype("f8") - d) / den
    return r if cut is None else np.minimum(r, np.float64(np.float32(cut)))


def normalize(c):
    arr, flat, dark = flat_dark(c)
    kw = {} if c["avg"] is None else {"averaging": c["avg"]}
    with unchanged(arr=arr, flat=flat, dark=dark):
        got = call(tomopy.normalize, arr, flat, dark, cutoff=c["cut"], ncore=c["ncore"], **kw)
    f, d = av(flat, c["avg"]), av(dark, c["avg"])
    # mean of the fields in single precision: differences keep its absolute error
    den = np.maximum(f - d, 1e-6)
    r = formula(arr, f, d, c["cut"])
    err = 4e-7 * (np.abs(f) + np.abs(d)) / den * np.abs(r) + 4e-7 * (d + arr) / den + 2e-6 * np.abs(r)
    bad = ~(np.abs(got - r) <= err + 1e-30)
    # where the difference of the means is rounding noise of the protected limit
    noise = np.broadcast_to(np.abs(f - d) < 4e-6 * np.maximum(np.abs(f), np.abs(d)) + 2e-7, bad.shape) \
        & np.broadcast_to(f != d, bad.shape)
    bad &= ~noise
    if got.shape != arr.shape or bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0]) if got.shape == arr.shape else ()
        raise Violation("normalize: %d wrong values; first at %s: got %r, expected %r"
                        % (bad.sum(), i, got[i], r[i]))
    expect(got.dtype == np.float32, "element type %s", got.dtype)


NF = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "sets": st.integers(1, 5), "per": st.integers(1, 4),
    "ndark": st.integers(0, 4), "avg": st.sampled_from([None, "mean", "median"]),
    "cut": st.sampled_from([None, None, 0.5, 2.0]), "ncore": NC, "extra": st.integers(0, 2)})


def nearest(c):
    nt, ny, nx = c["n"]
    nt += 4
    k = min(c["sets"], nt)
    r = np.random.default_rng(c["seed"])
    loc = sorted(int(x) for x in r.choice(nt, k, replace=False))
    arr = field((nt, ny, nx), c["seed"], 0, 200)
    mid = field((k, ny, nx), c["seed"] + 1, 100, 250)
    # symmetric sets: mean and median agree
    spread = field((k, ny, nx), c["seed"] + 2, 0, 30)
    per = c["per"]
    w = np.arange(per, dtype="f4") - np.float32((per - 1) / 2)
    flats = (mid[:, None] + w[None, :, None, None] * spread[:, None] * 2 / max(per, 1)).reshape(-1, ny, nx)
    flats = flats.astype("f4")
    dark = field((c["ndark"], ny, nx) if c["ndark"] else (ny, nx), c["seed"] + 3, 0, 40)
    if c["avg"] == "median":
        d = av(dark, "median")
    else:
        d = av(dark, "mean")
    kw = {} if c["avg"] is None else {"averaging": c["avg"]}
    with unchanged(arr=arr, flats=flats, dark=dark):
        got = call(tomopy.normalize_nf, arr, flats, dark, loc, cutoff=c["cut"], ncore=c["ncore"], **kw)
    expect(got.shape == arr.shape, "shape %s", got.shape)
    cand = [formula(arr, mid[m].astype("f8"), d, c["cut"]) for m in range(k)]
    for i in range(nt):
        a = np.abs(i - np.array(loc))
        b = np.abs(i + 0.5 - np.array(loc))
        ok = [m for m in range(k) if a[m] == a.min() or b[m] == b.min()]
        hit = [m for m in ok if np.all(np.abs(got[i] - cand[m][i]) <= 1e-5 * (1 + np.abs(cand[m][i])))]
        expect(hit, "projection %d (flat fields at %s) does not use set %s", i, loc, ok)


BG = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "air": st.integers(0, 12), "ncore": NC,
                            "nchunk": st.sampled_from([None, 1, 2]), "dead": st.booleans()})


def background(c):
    nt, ny, nx = c["n"]
    air = 1 + (c["air"] - 1) % nx if c["air"] else 1
    arr = field((nt, ny, nx), c["seed"], 1, 60)
    if c["dead"]:
        r = np.random.default_rng(c["seed"])
        arr[r.random((nt, ny)) < 0.4, :air] = r.integers(-3, 1)
        arr[r.random((nt, ny)) < 0.4, nx - air:] = r.integers(-3, 1)
    with unchanged(arr=arr):
        got = call(tomopy.normalize_bg, arr, ncore=c["ncore"], nchunk=c["nchunk"],
                   **({"air": air} if c["air"] else {}))
    a = arr.astype("f8")
    left, right = a[..., :air].mean(-1), a[..., nx - air:].mean(-1)
    left = np.where(left <= 0, 1.0, left)[..., None]
    right = np.where(right <= 0, 1.0, right)[..., None]
    level = left + (right - left) * (np.arange(nx) / (nx - 1))
    near(got, a / level, "normalize_bg", 5e-6)


ROI = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "roi": st.lists(st.integers(0, 99), min_size=4,
                                                                       max_size=4),
                             "ncore": NC, "zero": st.booleans(), "default": st.booleans()})


def region(c):
    nt, ny, nx = c["n"]
    a, b, d, e = c["roi"]
    r0, c0 = a % ny, b % nx
    r1, c1 = r0 + 1 + d % (ny - r0), c0 + 1 + e % (nx - c0)
    arr = field((nt, ny, nx), c["seed"], 1, 60)
    kw = {} if c["default"] else {"roi": [r0, c0, r1, c1]}
    if c["default"]:
        r0, c0, r1, c1 = 0, 0, 10, 10
    if c["zero"]:
        arr[0, r0:r1, c0:c1] = 0
    with unchanged(arr=arr):
        got = call(tomopy.normalize_roi, arr, ncore=c["ncore"], **kw)
    x = arr.astype("f8")
    m = x[:, r0:r1, c0:c1].mean((1, 2))
    m = np.where(m == 0, 1.0, m)
    near(got, x / m[:, None, None], "normalize_roi", 5e-6)


LOG = st.fixed_dictionaries({"n": DIMS, "seed": seeds(), "ncore": NC, "scale": st.integers(-30, 30)})


def logarithm(c):
    arr = (data(tuple(c["n"]), c["seed"], "uniform") + np.float32(1e-3)) * np.float32(2.0 ** c["scale"])
    with unchanged(arr=arr):
        got = call(tomopy.minus_log, arr, ncore=c["ncore"])
    want = -np.log(arr.astype("f8"))
    close(got, want, 1.0, "minus_log", scale=1e-6 * (1 + np.abs(want).max()))
    expect(got.dtype == np.float32, "element type %s", got.dtype)


def vary(c):
    return c["n"][1] * c["n"][2] > 2


SUBS = [
    Sub("normalize", FIELD, normalize, quick=5000, thorough=80000, shards=2, nontrivial=vary),
    Sub("nearest", NF, nearest, quick=3000, thorough=50000, shards=2, nontrivial=lambda c: c["sets"] > 1),
    Sub("background", BG, background, quick=1400, thorough=15000, shards=3, nontrivial=vary),
    Sub("region", ROI, region, quick=1000, thorough=15000, shards=3, nontrivial=vary),
    Sub("logarithm", LOG, logarithm, quick=1000, thorough=15000),
]
