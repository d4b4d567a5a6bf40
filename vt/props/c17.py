"""C17: rotation axis finders return the axis of consistent data."""
import os
import shutil
import tempfile

import numpy as np
import tomopy
from scipy import ndimage
from scipy.optimize import minimize

from vt.core import dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, LAYOUTS

RULE = "the axis is off the detector's middle, or (write_center, empty slices) more than one trial or slice differs"
ASSUMPTIONS = [
    "consistent data: half a turn (0..180 degrees inclusive) of smooth blobs that stay on the detector; search "
    "ranges contain the axis",
    "stated tolerances: Vo's method 0.25 px grid (1.0 allowed), entropy search 2 px (and the minimum a simplex search of its cost finds), phase correlation 2 x tol",
    "ties: any trial axis whose metric is within 1e-4 of the best one is as good",
]


def blobs(nt, n, c, seed, rows=1, width=2.0):
    """Sinograms of Gaussian blobs turning about index c; rows share the axis, not the object."""
    r = np.random.default_rng(seed)
    th = np.linspace(0, np.pi, nt)
    d = np.arange(n)
    reach = max(2.0, min(c, n - 1 - c) * 0.6)
    out = np.zeros((nt, rows, n))
    for j in range(rows):
        for _ in range(6):
            q, ph = reach * np.sqrt(r.uniform(0.2, 1)), r.uniform(0, 2 * np.pi)
            sg, a = r.uniform(1.5, 1.5 + width), r.uniform(0.5, 2)
            out[:, j] += a * np.exp(-(d[None] - c - q * np.cos(th[:, None] - ph)) ** 2 / 2 / sg ** 2)
    return out.astype("f4"), th


# ------------------------------------------------------------------------------------------------ Vo
VO = st.fixed_dictionaries({
    "n": st.integers(60, 100), "nt": st.integers(61, 150), "off": st.floats(-8, 8, width=32), "seed": seeds(),
    "rows": st.sampled_from([0, 1, 3, 10, 11, 13]), "ind": st.sampled_from([None, 0, -1]),
    "range": st.sampled_from([10, 12]), "ncore": st.sampled_from([1, 1, 2, 4]),
    "step": st.sampled_from([None, 0.25, 0.5, 0.1]), "srad": st.sampled_from([None, 2, 4])})


def vo_cost(sino, shift, mask):
    s1, s2, s3 = sino, sino[:, ::-1], sino[::-1]
    if shift == int(shift):
        k = int(shift)
        m = np.roll(s2, k, axis=1)
    else:
        m = ndimage.shift(s2, (0, shift), order=3)
        k = int(np.ceil(shift)) if shift > 0 else int(np.floor(shift))
    if k >= 0:
        m[:, :k] = s3[:, :k]
    else:
        m[:, k:] = s3[:, k:]
    return np.mean(np.abs(np.fft.fftshift(np.fft.fft2(np.vstack((s1, m))))) * mask)


def vo_mask(nrow, ncol, radius, drop):
    cr, cc = int(np.ceil(nrow / 2)) - 1, int(np.ceil(ncol / 2)) - 1
    drop = min(drop, int(np.ceil(0.05 * nrow)))
    m = np.zeros((nrow, ncol))
    for i in range(nrow):
        p = int(np.ceil((i - cr) * (nrow - 1.0) / (nrow * 2 * np.pi) / radius * ncol))
        lo, hi = sorted((np.clip(cc - p, 0, ncol - 1), np.clip(cc + p, 0, ncol - 1)))
        m[i, lo:hi + 1] = 1
    m[cr - drop:cr + drop + 1] = 0
    m[:, cc - 1:cc + 2] = 0
    return m


def vo_model(sino, smin, smax, srad, step, ratio, drop):
    """All axes that the two-stage search may return (several if metrics tie)."""
    nt, n = sino.shape
    cf = (n - 1) / 2
    mask = vo_mask(2 * nt, n, 0.5 * ratio * n, drop)
    coarse = ndimage.gaussian_filter(sino, (3, 1), mode="reflect").astype("f8")
    fine = ndimage.gaussian_filter(sino, (2, 2), mode="reflect").astype("f8")
    k = 4 if nt * n > 4e6 else 1                # large data: the coarse search works on columns summed by fours
    nc = n // k
    if k > 1:
        coarse = coarse[:, :nc * k].reshape(nt, nc, k).sum(-1)
    cc = (nc - 1) / 2
    lo = int(np.clip(smin / k + cc, 0, nc - 1) - cc)
    hi = int(np.clip(smax / k + cc, 0, nc - 1) - cc)
    first = np.arange(nc // 2 + lo, nc // 2 + hi + 0.5, 0.5)
    cmask = mask if k == 1 else vo_mask(2 * nt, nc, 0.5 * ratio * nc, drop)
    m = np.array([vo_cost(coarse, 2 * (a - cc), cmask) for a in first])
    first = first * k
    srad = np.clip(abs(srad), 1, n / 4)
    step = np.clip(abs(step), 0.1, srad)
    good = []
    for a in first[m <= m.min() * (1 + 1e-4)]:
        a = np.clip(a, srad, n - srad - 1)
        second = a + np.arange(-srad, srad + step, step)
        f = np.array([vo_cost(fine, float(np.float32(2 * (b - cf))), mask) for b in second])
        good += list(second[f <= f.min() * (1 + 1e-4)])
    return np.array(good)


def vo(c):
    n = c["n"]
    axis = (n - 1) / 2 + c["off"]
    x, th = blobs(c["nt"], n, axis, c["seed"], max(1, c["rows"]))
    kw = dict(smin=-c["range"], smax=c["range"], ncore=c["ncore"])
    for k in ("step", "srad"):
        if c[k] is not None:
            kw[k] = c[k]
    a = x if c["rows"] else x[:, 0]
    if c["rows"] and c["ind"] is not None:
        kw["ind"] = c["ind"]
        used = x[:, c["ind"]]
    elif c["rows"] > 10:
        used = x[:, c["rows"] // 2 - 5:c["rows"] // 2 + 5].mean(1)
    else:
        used = x[:, c["rows"] // 2 if c["rows"] else 0]
    with unchanged(tomo=a):
        got = call(tomopy.find_center_vo, a, **kw)
    expect(np.ndim(got) == 0 and np.isfinite(got), "axis %r", got)
    expect(abs(got - axis) <= 1.0, "axis %g, true %g", got, axis)
    want = vo_model(used.astype("f4"), kw["smin"], kw["smax"], kw.get("srad", 6), kw.get("step", 0.25), 0.5, 20)
    expect(np.abs(want - got).min() < 1e-4, "axis %g is none of the best trials %s", got, want)


SEARCH = st.fixed_dictionaries({
    "n": st.integers(12, 60), "nt": st.integers(8, 80), "off": st.floats(-3, 3, width=32), "seed": seeds(),
    "smin": st.integers(-40, 2), "span": st.integers(1, 50), "srad": st.floats(0, 12, width=32),
    "step": st.sampled_from([0.05, 0.1, 0.25, 0.5, 1.0, -0.5]), "ratio": st.sampled_from([0.3, 0.5, 1.0, 2.0]),
    "drop": st.sampled_from([0, 1, 5, 20, 100]), "ncore": st.sampled_from([1, 2, 3]), "noise": st.sampled_from([0.0, 0.02, 0.3])})


def search(c):
    """Any options: the answer is a best trial of the documented two-stage search."""
    n = c["n"]
    x, th = blobs(c["nt"], n, (n - 1) / 2 + c["off"], c["seed"])
    x = (x[:, 0] + c["noise"] * np.random.default_rng(c["seed"]).normal(size=(c["nt"], n))).astype("f4")
    srad, step, ratio = float(c["srad"]), c["step"], c["ratio"]
    kw = dict(smin=c["smin"], smax=c["smin"] + c["span"], srad=srad, step=step, ratio=ratio, drop=c["drop"])
    got = call(tomopy.find_center_vo, x, ncore=c["ncore"], **kw)
    want = vo_model(x, kw["smin"], kw["smax"], srad, step, ratio, c["drop"])
    expect(np.abs(want - got).min() < 1e-4, "axis %g is none of the best trials %s", got, want)


LARGE = st.fixed_dictionaries({
    "nt": st.sampled_from([360, 400, 500, 720, 800, 900]), "seed": seeds(), "off": st.floats(-7, 7, width=32),
    "range": st.sampled_from([10, 13]), "below": st.sampled_from([True, False, False, False, False]),
    "ncore": st.sampled_from([3, 4])})


def large(c):
    """Sinograms of around four million pixels, from where on the search starts on binned data."""
    nt = c["nt"]
    n = 4 * int(4e6 / nt / 4) + (0 if c["below"] else 4)
    axis = (n - 1) / 2 + c["off"]
    x, th = blobs(nt, n, axis, c["seed"], 1, 12.0)
    kw = dict(smin=-c["range"], smax=c["range"], srad=3, step=1.0)
    got = call(tomopy.find_center_vo, x, ncore=c["ncore"], **kw)
    want = vo_model(x[:, 0], kw["smin"], kw["smax"], kw["srad"], kw["step"], 0.5, 20)
    expect(np.abs(want - got).min() < 1e-4, "axis %g is none of the best trials %s", got, want)


# ------------------------------------------------------------------------------------------------ entropy
ENT = st.fixed_dictionaries({
    "n": st.integers(32, 72), "nt": st.integers(60, 120), "off": st.floats(-6, 6, width=32), "seed": seeds(),
    "rows": st.integers(1, 4), "ind": st.sampled_from([None, 0, 1, 2]), "start": st.floats(-2, 2, width=32),
    "tol": st.sampled_from([0.5, 0.2, 0.05]), "mask": st.booleans(), "ratio": st.sampled_from([1.0, 0.9]),
    "sino": st.booleans(), "layout": st.sampled_from(LAYOUTS), "default": st.booleans()})


def entropy(c):
    n = c["n"]
    axis = (n - 1) / 2 + c["off"]
    x, th = blobs(c["nt"], n, axis, c["seed"], c["rows"])
    ind = c["ind"] if c["ind"] is not None and c["ind"] < c["rows"] else None
    a = layout(np.swapaxes(x, 0, 1) if c["sino"] else x, c["layout"])
    kw = dict(tol=c["tol"], mask=c["mask"], ratio=c["ratio"], sinogram_order=c["sino"])
    init = None if c["default"] else axis + c["start"]
    with unchanged(tomo=a, theta=th):
        got = call(tomopy.find_center, a, th, ind=ind, init=init, **kw)
    got = float(np.squeeze(got))
    used = np.ascontiguousarray(x[:, ind if ind is not None else c["rows"] // 2][:, None])

    def rec(center):
        r = tomopy.recon(used, th, center=center, algorithm="gridrec")
        if c["mask"]:
            tomopy.circ_mask(r, axis=0, ratio=1.0 if center is None else c["ratio"])
        return r
    r0 = rec(None)
    lo, hi = r0.min(), r0.max()
    lo, hi = (2 * lo if lo < 0 else lo / 2), (hi / 2 if hi < 0 else 2 * hi)

    def cost(p):
        h, _ = np.histogram(rec(np.float32(np.squeeze(p))), bins=64, range=[lo, hi])
        h = h / r0.size + 1e-12
        return -(h * np.log2(h)).sum()
    best = float(minimize(lambda p: np.float32(cost(p)), n // 2 if init is None else init, method="Nelder-Mead",
                          tol=c["tol"]).x[0])
    expect(abs(got - best) < 1e-3 or cost(got) <= cost(best) + 1e-5,
           "axis %g, a simplex search of the stated cost gives %g", got, best)
    if init is not None and c["tol"] <= 0.2 and c["mask"] and n >= 44:
        expect(abs(got - axis) <= 2.0, "axis %g, true %g (start %g)", got, axis, init)


# ------------------------------------------------------------------------------------------------ correlation
PC = st.fixed_dictionaries({
    "n": st.integers(40, 80), "rows": st.integers(8, 20), "off": st.floats(-6, 6, width=32), "seed": seeds(),
    "tol": st.sampled_from([0.5, 0.25, 0.1, 1.0]), "guess": st.sampled_from([None, None, 0.0, -3.0, 2.0]),
    "whole": st.booleans()})


def correlation(c):
    n, ny = c["n"], c["rows"]
    off = round(2 * c["off"]) / 2 if c["whole"] else c["off"]
    axis = (n - 1) / 2 + off
    r = np.random.default_rng(c["seed"])
    d, y = np.arange(n)[None], np.arange(ny)[:, None]
    p1, p2 = np.zeros((2, ny, n))
    if c["whole"]:                      # texture, mirrored exactly
        w = n // 4
        i = np.arange(n // 2 - w // 2, n // 2 + w // 2)
        p1[:, i] = r.random((ny, len(i)))
        p2[:, np.round(2 * axis - i).astype(int)] = p1[:, i]
    for _ in range(0 if c["whole"] else 6):
        u, v = r.uniform(-0.4, 0.4) * min(axis, n - 1 - axis), r.uniform(2, ny - 3)
        s, a = r.uniform(0.7, 1.2), r.uniform(0.5, 2)
        w = np.exp(-(y - v) ** 2 / 2 / s ** 2)
        p1 += a * w * np.exp(-(d - axis - u) ** 2 / 2 / s ** 2)
        p2 += a * w * np.exp(-(d - axis + u) ** 2 / 2 / s ** 2)
    p1, p2 = p1.astype("f4"), p2.astype("f4")
    with unchanged(proj1=p1, proj2=p2):
        got = call(tomopy.find_center_pc, p1, p2, tol=c["tol"],
                   rotc_guess=None if c["guess"] is None else axis + c["guess"])
    # half of the upsampled correlation's resolution, as the axis is half the measured shift
    expect(abs(float(got) - axis) <= c["tol"] * 0.5 + 0.12, "axis %g, true %g, tolerance %g", got, axis, c["tol"])


# ------------------------------------------------------------------------------------------------ trial images
WRITE = st.fixed_dictionaries({
    "n": st.integers(4, 20), "nt": st.integers(3, 16), "rows": st.integers(1, 4), "seed": seeds(),
    "ind": st.sampled_from([None, 0, 1, 2]), "sino": st.booleans(), "mask": st.booleans(),
    "ratio": st.sampled_from([1.0, 0.7]), "alg": st.sampled_from(["gridrec", "gridrec", "fbp", "art", "sirt", "mlem"]),
    "filter": st.sampled_from([None, "shepp", "ramlak", "hann"]),
    "range": st.one_of(st.none(), st.tuples(st.floats(-3, 2, width=32), st.floats(0.25, 4, width=32),
                                            st.sampled_from([0.25, 0.5, 1.0, 0.3])).map(list)),
    "twice": st.booleans(), "layout": st.sampled_from(LAYOUTS)})


def written(c):
    import tifffile
    n = c["n"]
    x = data((c["nt"], c["rows"], n), c["seed"])
    th = tomopy.angles(c["nt"])
    a = layout(np.swapaxes(x, 0, 1) if c["sino"] else x, c["layout"])
    ind = c["ind"] if c["ind"] is not None and c["ind"] < c["rows"] else None
    kw = {}
    if ind is not None:
        kw["ind"] = ind
    if c["filter"]:
        kw["filter_name"] = c["filter"]
    if c["range"]:
        s = round(n / 2 + c["range"][0], 2)
        kw["cen_range"] = [s, round(s + c["range"][1], 2), c["range"][2]]
    cens = np.arange(*kw["cen_range"]) if c["range"] else np.arange(n / 2 - 5, n / 2 + 5, 0.5)
    if len(cens) == 0:
        return
    d = tempfile.mkdtemp(prefix="vt_center_")
    try:
        path = os.path.join(d, "a", "b") if c["twice"] else d
        if c["twice"]:
            call(tomopy.write_center, a[::-1].copy(), th, dpath=path, sinogram_order=c["sino"], algorithm=c["alg"], **kw)
        with unchanged(tomo=a, theta=th):
            call(tomopy.write_center, a, th, dpath=path, mask=c["mask"], ratio=c["ratio"], sinogram_order=c["sino"],
                 algorithm=c["alg"], **kw)
        names = sorted(os.listdir(path))
        expect(names == sorted("%.2f.tiff" % v for v in cens), "files %s for axes %s", names, cens)
        used = np.ascontiguousarray(x[:, c["rows"] // 2 if ind is None else ind][:, None])
        opt = {"filter_name": c["filter"] or "parzen"} if c["alg"] in ("gridrec", "fbp") else {}
        for v in cens:
            img = tifffile.imread(os.path.join(path, "%.2f.tiff" % v))
            want = tomopy.recon(used, th, center=v, algorithm=c["alg"], ncore=1, **opt)
            if c["mask"]:
                tomopy.circ_mask(want, axis=0, ratio=c["ratio"])
            close(img, want[0], 1.5e-4, "image for the axis %g" % v)
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------------------------------------ empty slices
EMPTY = st.fixed_dictionaries({
    "n": dims((1, 8), (1, 10), (2, 12)), "seed": seeds(),
    "type": st.sampled_from(["f4", "f8", "u2", "i4"]), "empty": st.floats(0, 1), "thr": st.sampled_from([None, 0.1, 0.25, 0.5, 1.0])})


def empty(c):
    nt, ny, nx = c["n"]
    r = np.random.default_rng(c["seed"])
    gone = r.random(ny) < c["empty"]
    x = 1000 + r.normal(size=c["n"]) * 2
    x -= np.where(gone, 0, 1)[None, :, None] * 600 * np.exp(-((np.arange(nx) - nx / 2) ** 2) / (nx / 4) ** 2)
    x = x.astype(c["type"])
    kw = {} if c["thr"] is None else {"threshold": c["thr"]}
    with unchanged(tomo=x):
        got = call(tomopy.mask_empty_slice, x, **kw)
    s = x.sum(0, dtype=c["type"] if c["type"][0] == "f" else None).astype("f8")
    s /= s.max()
    t = s.sum(0)
    ref = np.std(t / t.max()) * kw.get("threshold", 0.25)
    sd = s.std(1)
    expect(got.shape == (ny,) and got.dtype == bool, "mask %s %s", got.shape, got.dtype)
    clear = np.abs(sd - ref) > 1e-4 * (sd + ref) + 1e-6
    same(got[clear], (sd < ref)[clear], "mask of empty slices")


SUBS = [
    Sub("vo", VO, vo, quick=160, thorough=1280, shards=2, timeout=240, nontrivial=lambda c: abs(c["off"]) > 0.3),
    Sub("search", SEARCH, search, quick=260, thorough=2080, shards=2, timeout=240),
    Sub("large", LARGE, large, quick=1, thorough=16, timeout=600),
    Sub("entropy", ENT, entropy, quick=280, thorough=2240, nontrivial=lambda c: abs(c["off"]) > 0.3),
    Sub("correlation", PC, correlation, quick=800, thorough=6400, nontrivial=lambda c: abs(c["off"]) > 0.3),
    Sub("written", WRITE, written, quick=300, thorough=2500, shards=2, nontrivial=lambda c: True),
    Sub("empty", EMPTY, empty, quick=800, thorough=6400, nontrivial=lambda c: 0 < c["empty"] < 1),
]
