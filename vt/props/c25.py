"""C25: the standard workflow returns the object its data were simulated from."""
import numpy as np
import tomopy

from vt.core import far, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, LAYOUTS

RULE = "an object without symmetry, seen under at least 1.8 angles per detector bin"
ASSUMPTIONS = [
    "smooth objects inside 0.46 of the grid's width; compared inside 0.4 of it",
    "iterative methods: relative error below 0.2 (art: 0.4; with filled zingers 0.5); gridrec on padded data: correlation "
    "above 0.7 (with zingers 0.45), contrast 0.7 to 1.4; fbp, which filters nothing: correlation above 0.75 (0.5)",
]
ALGS = {
    "art": ({"num_iter": 8}, 0.4), "bart": ({"num_iter": 10, "num_block": 4}, 0.2), "sirt": ({"num_iter": 60}, 0.2),
    "mlem": ({"num_iter": 60}, 0.2), "osem": ({"num_iter": 15, "num_block": 4}, 0.2),
    "ospml_quad": ({"num_iter": 15, "num_block": 4, "reg_par": [1e-3]}, 0.2),
    "ospml_hybrid": ({"num_iter": 15, "num_block": 4, "reg_par": [1e-3, 0.1]}, 0.2),
    "pml_quad": ({"num_iter": 60, "reg_par": [1e-3]}, 0.2), "pml_hybrid": ({"num_iter": 60, "reg_par": [1e-3, 0.1]}, 0.2),
    "tv": ({"num_iter": 80, "reg_par": [1e-3]}, 0.2), "grad": ({"num_iter": 60, "reg_par": [-1]}, 0.2),
    "tikh": ({"num_iter": 60, "reg_par": [-1, 0.01]}, 0.2), "gridrec": ({"filter_name": "shepp"}, 0.7), "fbp": ({}, 0.75),
}


def blobs(ny, n, seed):
    r = np.random.default_rng(seed)
    y, x = np.mgrid[:n, :n] - (n - 1) / 2
    o = np.zeros((ny, n, n))
    for j in range(ny):
        for _ in range(5):
            q, p = n * .33 * np.sqrt(r.random()), r.uniform(0, 2 * np.pi)
            s, a = r.uniform(1.7, 1 + n * .08), r.uniform(.3, 1)
            o[j] += a * np.exp(-((y - q * np.sin(p)) ** 2 + (x - q * np.cos(p)) ** 2) / 2 / s ** 2)
        o[j] *= np.clip((n * .46 - np.hypot(y, x)) / 3, 0, 1)
    return (o * 2.0 / n).astype("f4")


CASE = st.fixed_dictionaries({
    "n": far(20, 36, 72), "ny": st.integers(1, 4), "seed": seeds(), "alg": st.sampled_from(sorted(ALGS)),
    "scan": st.sampled_from(["half", "half", "reversed", "shuffled", "turned", "full", "whole"]),
    "cen": st.sampled_from([0, 0, 0.5, 1.25, -2.0, -1.4]), "fields": st.sampled_from(["one", "near", "bg", "roi", "none"]),
    "order": st.booleans(), "ncore": st.sampled_from([None, 1, 2, 3]), "nchunk": st.sampled_from([None, 0, 1, 2]),
    "zinger": st.booleans(), "binned": st.booleans(), "pad": st.booleans(), "layout": st.sampled_from(LAYOUTS),
    "each": st.booleans(), "cube": st.booleans(), "air": st.integers(1, 3), "side": st.sampled_from(["left", "right"]),
    "average": st.sampled_from(["mean", "median"]), "despike": st.sampled_from(["2d", "2d", "1d", "sinogram", "3d"])})


def scan(c, obj):
    """-> transmission (angles, rows, bins), angles, axis, bins added at each side"""
    n, nt = c["n"], int(1.8 * c["n"])
    r = np.random.default_rng(c["seed"] + 1)
    cen = n / 2. + c["cen"]
    th = tomopy.angles(nt)
    if c["scan"] == "reversed":
        th = th[::-1].copy()
    elif c["scan"] == "shuffled":
        th = th[r.permutation(nt)]
    elif c["scan"] == "turned":
        th = tomopy.angles(nt, ang1=-217, ang2=-37)
    elif c["scan"] == "whole":
        th = tomopy.angles(2 * nt, ang1=0, ang2=360)
    elif c["scan"] == "full":
        th, cen = np.concatenate([th, th + np.pi] + ([th[:1] + 2 * np.pi] if c["cen"] else [])).astype("f4"), n / 2.
    wide = c["fields"] == "bg" or (c["pad"] and c["scan"] != "full")
    if wide:
        p = call(tomopy.project, obj, th, emission=False, ncore=c["ncore"])
        cen = p.shape[2] / 2.
    else:
        p = call(tomopy.project, obj, th, center=cen, emission=False, pad=False, ncore=c["ncore"])
    return p, th, cen, nt


def measured(c, p):
    """Counts, and the call that turns them back into transmission."""
    r = np.random.default_rng(c["seed"] + 2)
    nt, ny, nx = p.shape
    if c["fields"] == "none":
        return p, lambda a: a
    dark = r.uniform(50, 90, (ny, nx)).astype("f4")
    # (with zingers the beam is smooth: they are filled in from their neighbours)
    flat = (dark + (r.uniform(1900, 2000, (ny, nx)) if c["zinger"] else r.uniform(800, 3000, (ny, nx)))).astype("f4")
    d3, f3 = np.stack([dark - 2, dark, dark + 2]), np.stack([flat + 5, flat - 5])
    if c["fields"] == "one":
        return dark + p * (flat - dark), lambda a: call(tomopy.normalize, a, f3, d3, averaging=c["average"], ncore=c["ncore"])
    if c["fields"] == "near":
        flat2 = (dark + 1.7 * (flat - dark)[::-1]).astype("f4")
        q = p.copy()
        h = nt // 2
        # sets taken at 0 and 2h: projection h is as near to one as to the other
        q[:h] = dark + p[:h] * (flat - dark)
        q[h:] = dark + p[h:] * (flat2 - dark)

        def back(a):
            t = call(tomopy.normalize_nf, a, np.concatenate([f3, f3 + (flat2 - flat)]), d3, [0, 2 * h], averaging=c["average"], ncore=c["ncore"])
            f = [(a[h].astype("f8") - dark) / (b.astype("f8") - dark) for b in (flat, flat2)]
            expect(min(np.abs(t[h] - x).max() for x in f) < 1e-4 * (1 + max(np.abs(x).max() for x in f)),
                   "the projection half way between two sets of flat fields uses neither")
            t[h] = f[1]
            return t
        return q, back
    gain = r.uniform(200, 900, (nt, ny, 1)).astype("f4")
    if c["fields"] == "bg":
        if c["air"] == 1:                       # a beam that changes along the rows
            gain = gain * (1 + r.uniform(-.5, 2, (nt, ny, 1)) * np.linspace(0, 1, nx)).astype("f4")
        return p * gain, lambda a: call(tomopy.normalize_bg, a, air=c["air"], ncore=c["ncore"])
    # the first columns and rows of one region see no sample: kept at one
    q = p.copy()
    return q * gain[:, :1], lambda a: call(tomopy.normalize_roi, a, roi=[0, 0, ny, 1], ncore=c["ncore"])


def workflow(c):
    n = c["n"]
    if c["cube"] and n < 24:
        n -= n % 2                              # the same sizes along all axes, and complete pairs of rows
        c = dict(c, n=n)
        ny = n
    else:
        ny = c["ny"] * 2
    obj = blobs(ny, n, c["seed"])
    p, th, cen, nt = scan(c, obj)
    if c["fields"] == "roi" and abs(p[:, :, 0] - 1).max() > 1e-4:
        c = dict(c, fields="one")
    counts, back = measured(c, p)
    a = layout(counts.astype("f4"), c["layout"] if not c["layout"].startswith("shared") else "C")
    if c["zinger"]:
        r = np.random.default_rng(c["seed"] + 3)
        a = np.array(a)
        for t in r.choice(len(a), 4, replace=False):
            a[t, int(r.integers(0, a.shape[1])), int(r.integers(1, a.shape[2] - 1))] += np.float32(1e6)
        if c["despike"] == "3d":
            a = call(tomopy.remove_outlier3d, a, 5e5, size=3, ncore=c["ncore"] or 0)
        elif c["despike"] == "1d":              # along a row of the detector
            a = call(tomopy.remove_outlier1d, a, 5e5, size=3, axis=2, ncore=c["ncore"])
        else:
            a = call(tomopy.remove_outlier, a, 5e5, size=3, axis=int(c["despike"] == "sinogram"), ncore=c["ncore"])
    with unchanged(counts=a):
        t = back(a)
        y = call(tomopy.minus_log, t, ncore=c["ncore"])
    neg = y < 0
    y = call(tomopy.remove_neg, np.array(y), 0.0)       # as expectation maximisation needs
    expect((y >= 0).all() and np.all((y == 0) | ~neg), "negative line integrals left")
    if not c["zinger"]:
        close(t, p, 1e-4, "transmission after normalisation")
        close(y, -np.log(np.maximum(p.astype("f8"), 1e-30)), 5e-4, "line integrals", scale=1.0)
    want = obj
    if c["binned"]:
        y = call(tomopy.downsample, y, level=1, axis=1)
        want = (obj[0::2].astype("f8") + obj[1::2]) / 2
    if c["scan"] == "full":
        k = n // 4 if n % 2 == 0 else 0
        if k and y.shape[2] == n:               # the detector sees a bit more than half of the object
            if c["side"] == "left":
                y, cen = y[:, :, k:], cen - k
                y = call(tomopy.sino_360_to_180, y, overlap=2 * cen, rotation="left")
            else:
                y = y[:, :, :n - k]
                y = call(tomopy.sino_360_to_180, y, overlap=2 * (n - k - cen), rotation="right")
            cen, th = y.shape[2] / 2., th[:nt]
    extra = 0
    if c["pad"] or c["alg"] == "gridrec":
        w = y.shape[2]
        y = call(tomopy.pad, y, 2, npad=w // 2, mode="constant", constant_values=0.0)
        cen += w // 2
    kw, tol = ALGS[c["alg"]]
    if c["zinger"]:                             # four filled pixels are left with interpolated values
        tol = tol - 0.25 if c["alg"] in ("gridrec", "fbp") else 0.5
    if c["each"]:
        cen = np.full(y.shape[1], cen, "f4")
    s = np.ascontiguousarray(np.swapaxes(y, 0, 1)) if c["order"] else y
    rec = call(tomopy.recon, s, th, center=cen, sinogram_order=c["order"], algorithm=c["alg"], num_gridx=n, num_gridy=n,
               ncore=c["ncore"], nchunk=c["nchunk"], **kw)
    expect(rec.shape == want.shape, "shape %s, object %s", rec.shape, want.shape)
    yy, xx = np.mgrid[:n, :n] - (n - 1) / 2
    m = np.hypot(yy, xx) < n * .4
    for i in range(len(rec)):
        g, o = rec[i][m].astype("f8"), want[i][m].astype("f8")
        if c["alg"] in ("gridrec", "fbp"):
            k = np.corrcoef(g, o)[0, 1]
            expect(k > tol, "%s: correlation of slice %d with the object %.3f", c["alg"], i, k)
        else:
            e = np.sqrt(((g - o) ** 2).mean() / (o ** 2).mean())
            expect(e < tol, "%s: error of slice %d %.3f", c["alg"], i, e)
    if c["alg"] == "gridrec":
        g, o = rec[:, m].astype("f8"), want[:, m]
        k = (g - g.mean()).ravel() @ (o - o.mean()).ravel() / ((o - o.mean()) ** 2).sum()
        expect(0.7 < k < 1.4, "gridrec: contrast %.3f of the object's", k)


SUBS = [Sub("workflow", CASE, workflow, quick=500, thorough=20000, shards=7, nontrivial=lambda c: c["n"] >= 20)]
