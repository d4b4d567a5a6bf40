"""C18: alignment moves images by exactly the stated amounts."""
import os
import shutil
import tempfile
import warnings

import numpy as np
import tomopy
from scipy import ndimage
from skimage import transform as tf
from skimage.registration import phase_cross_correlation
from tomopy.prep import alignment as al

from vt.core import (dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, rejects, KINDS, LAYOUTS)

RULE = "the drawn shift, polynomial or box differs from the identity"
ASSUMPTIONS = [
    "lens polynomials keep the factor within a few percent to a few times; bilinear positions carry float32 "
    "rounding (compared to 2e-4 of the data's range times the image width)",
    "shift, scale and jitter functions work in place on floating point arrays (as in the present code)",
    "alignment is compared with the same loop written from public functions, and on a phantom with known whole-pixel "
    "vertical jitter in a fifth of the projections recovers it up to a common shift",
    "slit corners: rectangular slits with 12 px or more to the borders and the image's middle, 2 % noise; 1.5 pixel for "
    "the simple and quadrant methods, 0.25 pixel for the fitted one",
]


def bilinear(img, y, x):
    h, w = img.shape
    y, x = np.clip(y, 0, h - 1), np.clip(x, 0, w - 1)
    i, j = np.minimum(np.floor(y).astype(int), max(h - 2, 0)), np.minimum(np.floor(x).astype(int), max(w - 2, 0))
    fy, fx = y - i, x - j
    i1, j1 = np.minimum(i + 1, h - 1), np.minimum(j + 1, w - 1)
    return ((1 - fy) * (1 - fx) * img[i, j] + (1 - fy) * fx * img[i, j1]
            + fy * (1 - fx) * img[i1, j] + fy * fx * img[i1, j1])


LENS = st.fixed_dictionaries({
    "n": dims((1, 5), (1, 14), (1, 14)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "cx": st.floats(-0.25, 1.25), "cy": st.floats(-0.25, 1.25),
    "poly": st.sampled_from([[1.0], [1.0, 0.0], [1.0, 0.01], [1.1, -0.02, 0.001], [0.5], [1.02, -3e-3, 2e-4, 1e-5, -1e-6],
                             [2.0, 0.1], [0.0]]),
    "ncore": st.sampled_from([1, 1, 2, 3]), "nchunk": st.sampled_from([None, 1, 2]),
    "layout": st.sampled_from([x for x in LAYOUTS if not x.startswith("shared")]), "type": st.sampled_from(["f4", "f4", "f8"])})


def lens(c):
    n, h, w = c["n"]
    x = data(c["n"], c["seed"], c["kind"]).astype(c["type"])
    a = layout(x, c["layout"])
    cx, cy = c["cx"] * (w - 1), c["cy"] * (h - 1)
    with unchanged(tomo=a):
        got = call(tomopy.distortion_correction_proj, a, cx, cy, c["poly"], ncore=c["ncore"], nchunk=c["nchunk"])
    u, v = np.arange(w) - cx, np.arange(h)[:, None] - cy
    r = np.sqrt(u ** 2 + v ** 2)
    f = sum(k * r ** i for i, k in enumerate(c["poly"]))
    rng = float(x.max() - x.min()) or 1.0
    want = np.stack([bilinear(p.astype("f8"), cy + f * v, cx + f * u) for p in x])
    close(got, want, 2e-6 * max(h, w) + 1e-6, "corrected projections", scale=rng + np.abs(x).max())
    if c["poly"] == [1.0]:
        close(got, x, 2e-6 * max(h, w), "identity polynomial", scale=rng + np.abs(x).max())
    for row in {0, h // 2, h - 1}:
        s = call(tomopy.distortion_correction_sino, a, row, cx, cy, c["poly"])
        expect(s.shape == (n, w), "sinogram shape %s", s.shape)
        close(s, want[:, row], 2e-6 * max(h, w) + 1e-6, "corrected row %d" % row, scale=rng + np.abs(x).max())


SHIFT = st.fixed_dictionaries({
    "n": dims((1, 4), (6, 16), (6, 16), long=(24, 70)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "type": st.sampled_from(["f4", "f8"]), "amp": st.sampled_from([1.0, 1e-3, 300.0, -5.0])})


def shift(c):
    n, h, w = c["n"]
    x = (data(c["n"], c["seed"], c["kind"]) * c["amp"]).astype(c["type"])
    r = np.random.default_rng(c["seed"])
    sy, sx = r.integers(-5, 6, n), r.integers(-5, 6, n)
    a = x.copy()
    got = call(tomopy.shift_images, a, sx.astype(float), sy.astype(float))
    for m in range(n):
        i, j = np.arange(h)[:, None] + sx[m], np.arange(w) + sy[m]
        inside = (i >= 0) & (i < h) & (j >= 0) & (j < w)
        # beyond the border: zero, or what zero becomes when kept to the image's value range
        edge = np.clip(0.0, x[m].min(), x[m].max())
        want = np.where(inside, x[m][np.clip(i, 0, h - 1), np.clip(j, 0, w - 1)],
                        np.where(np.abs(got[m] - edge) < np.abs(got[m]), edge, 0))
        close(got[m], want, 2e-4, "image %d shifted by %d rows and %d columns" % (m, sx[m], sy[m]), scale=np.abs(x).max())
    b = x.copy()
    close(call(tomopy.shift_images, b, np.zeros(n), np.zeros(n)), x, 1e-4, "no shift", scale=np.abs(x).max())
    # the scaling it rests on
    d = x.copy()
    s, k = call(tomopy.scale, d)
    expect(k == (np.abs(x).max() or 1), "scale %g, largest magnitude %g", k, np.abs(x).max())
    close(s * np.float64(k), x, 1e-6, "scaled images times the scale")


FRAC = st.fixed_dictionaries({"h": st.integers(24, 40), "w": st.integers(24, 40), "seed": seeds(), "n": st.integers(1, 3)})


def fractional(c):
    """Smooth blobs move by sub-pixel amounts."""
    r = np.random.default_rng(c["seed"])
    y, x = np.mgrid[:c["h"], :c["w"]]
    sx, sy = r.uniform(-3, 3, (2, c["n"]))

    def img(dy, dx, k):
        q = np.random.default_rng(c["seed"] + 1 + k)
        return sum(a * np.exp(-((y + dy - c["h"] * u) ** 2 + (x + dx - c["w"] * v) ** 2) / 2 / s ** 2)
                   for a, u, v, s in zip(q.uniform(1, 2, 4), q.uniform(.4, .6, 4), q.uniform(.4, .6, 4), q.uniform(1.5, 2, 4)))
    a = np.stack([img(0, 0, k) for k in range(c["n"])])
    want = np.stack([img(sx[k], sy[k], k) for k in range(c["n"])])
    got = call(tomopy.shift_images, a.astype("f4"), sx, sy)
    top = a.max(axis=(1, 2), keepdims=True)
    # the moved images keep to the value range of the original
    close(got, np.minimum(want, top), 6e-3, "images shifted by %s rows, %s columns" % (sx, sy))


JIT = st.fixed_dictionaries({
    "n": dims((1, 6), (4, 12), (4, 12), long=(24, 70)), "seed": seeds(),
    "low": st.sampled_from([0.0, -2.0, 1.0]), "span": st.sampled_from([0.0, 1.0, 4.0]), "kind": st.sampled_from(KINDS),
    "ratio": st.sampled_from([None, 0.0, 0.05, 0.5])})


def jitter(c):
    n, h, w = c["n"]
    x = data(c["n"], c["seed"], c["kind"])
    lo, hi = c["low"], c["low"] + c["span"]
    out = []
    for _ in range(2):
        np.random.seed(c["seed"])
        out.append(call(tomopy.add_jitter, x.copy(), lo, hi))
    for a, b in zip(*out):
        same(a, b, "repeated with the same random state")
    got, jx, jy = out[0]
    expect(jx.shape == jy.shape == (n,), "jitter shapes")
    expect(min(jx.min(), jy.min()) >= lo and max(jx.max(), jy.max()) <= hi, "jitter outside %g..%g", lo, hi)
    if c["span"] and n > 3:
        expect(len(set(jx)) > 1 and not np.array_equal(jx, jy), "the same jitter everywhere")
    for m in range(n):
        py, px = np.arange(h)[:, None] + jy[m] + np.zeros(w), np.arange(w) + jx[m] + np.zeros((h, 1))
        clear = (np.abs(py - np.floor(py) - .5) > 1e-6) & (np.abs(px - np.floor(px) - .5) > 1e-6)
        i, j = np.round(py).astype(int), np.round(px).astype(int)
        ok = (i >= 0) & (i < h) & (j >= 0) & (j < w)
        want = np.where(ok, x[m, np.clip(i, 0, h - 1), np.clip(j, 0, w - 1)], 0)
        # pixels of the outermost half sample may count as inside or outside
        clear &= (py > -1e-6) & (py < h - 1 + 1e-6) & (px > -1e-6) & (px < w - 1 + 1e-6)
        close(got[m], want, 2e-6, "image %d moved by %g, %g" % (m, jx[m], jy[m]), scale=np.abs(x).max(), mask=clear)
    # noise
    if x.max() < 0:
        return
    kw = {} if c["ratio"] is None else {"ratio": c["ratio"]}
    with unchanged(prj=x):
        np.random.seed(c["seed"])
        a = call(tomopy.add_noise, x, **kw)
        np.random.seed(c["seed"])
        same(call(tomopy.add_noise, x, **kw), a, "repeated with the same random state")
    sd = x.max() * kw.get("ratio", 0.05)
    e = a.astype("f8") - x
    if sd <= 0 or c["ratio"] == 0.0:
        close(a, x, 1e-6, "no noise")
    elif x.size >= 100:
        k = x.size
        expect(abs(e.mean()) < 6 * sd / np.sqrt(k) and abs(e.std() / sd - 1) < 6 / np.sqrt(2 * k),
               "noise of mean %g, deviation %g instead of %g", e.mean(), e.std(), sd)


BLUR = st.fixed_dictionaries({
    "n": dims((1, 4), (1, 14), (1, 14)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "low": st.sampled_from([None, 0.0, 0.1, 0.5]), "more": st.sampled_from([0.1, 0.3, 0.8]),
    "layout": st.sampled_from(LAYOUTS)})


def blur(c):
    n, h, w = c["n"]
    x = data(c["n"], c["seed"], c["kind"])
    a = layout(x, c["layout"])
    kw = {} if c["low"] is None else dict(low=c["low"], high=c["low"] + c["more"])
    lo, hi = kw.get("low", 0), kw.get("high", 0.8)
    with unchanged(prj=a):
        got = call(tomopy.blur_edges, a, **kw)
    d = np.hypot(np.arange(h)[:, None] - h / 2, np.arange(w) - w / 2)
    q = d / d.max()
    want = x * np.clip((hi - q) / (hi - lo), 0, 1)
    close(got, want, 1e-6, "blurred images", scale=np.abs(x).max())


# ------------------------------------------------------------------------------------------------ reprojection
ALIGN = st.fixed_dictionaries({
    "n": st.integers(8, 14), "nt": st.integers(4, 9), "rows": st.integers(4, 8), "seed": seeds(), "iters": st.integers(1, 3),
    "blur": st.booleans(), "alg": st.sampled_from(["sirt", "sirt", "gridrec", "art", "mlem"]),
    "pad": st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), "up": st.sampled_from([1, 5, 10]),
    "joint": st.booleans(), "center": st.booleans(), "amp": st.sampled_from([1.0, 40.0]), "debug": st.booleans(),
    "rin": st.sampled_from([0.5, 0.2])})


def scene(c):
    r = np.random.default_rng(c["seed"])
    n, nt, ny = c["n"], c["nt"], c["rows"]
    obj = np.zeros((ny, n, n), "f4")
    for _ in range(4):
        y, i, j = r.integers(0, ny), *r.integers(n // 4, 3 * n // 4, 2)
        obj[max(0, y - 1):y + 2, i - 1:i + 2, j - 1:j + 2] += r.uniform(0.5, 2)
    th = tomopy.angles(nt)
    p = tomopy.project(obj, th, pad=False, ncore=1) * np.float32(c["amp"])
    return np.stack([np.roll(q, tuple(r.integers(-1, 2, 2)), (0, 1)) for q in p]), th


def align_model(prj, th, c, center):
    p = prj / np.abs(prj).max()
    scl = np.abs(prj).max()
    px, py = c["pad"]
    p = np.pad(p, ((0, 0), (py, py), (px, px)))
    first, cur = p.copy(), p.copy()
    sx, sy = np.zeros((2, len(p)))
    conv = np.zeros(c["iters"])
    rec = None
    for k in range(c["iters"]):
        opt = {}
        if c["joint"]:
            init = np.full((p.shape[1], p.shape[2], p.shape[2]), 1e-12) if rec is None else rec
            opt = dict(init_recon=init, **({} if c["alg"] == "gridrec" else {"num_iter": 1}))
        rec = tomopy.recon(cur, th, center=center, algorithm=c["alg"], **opt)
        sim = tomopy.project(rec, th, center=center, pad=False)
        a, b = cur, sim
        if c["blur"]:
            a, b = tomopy.blur_edges(a, c["rin"], 0.8), tomopy.blur_edges(b, c["rin"], 0.8)
        e = np.zeros(len(p))
        for m in range(len(p)):
            s = phase_cross_correlation(a[m], b[m], normalization=None, upsample_factor=c["up"])[0]
            e[m] = np.hypot(*s)
            sx[m] += s[0]
            sy[m] += s[1]
            t = (sy[m], sx[m]) if c["joint"] else (s[1], s[0])
            cur[m] = tf.warp(first[m] if c["joint"] else cur[m], tf.SimilarityTransform(translation=t), order=5)
        conv[k] = np.linalg.norm(e)
    return (first if c["joint"] else cur) * scl, sx, sy, conv


def quiet(f, *a, **k):
    with warnings.catch_warnings(), open(os.devnull, "w") as dev:
        warnings.simplefilter("ignore")
        import contextlib
        with contextlib.redirect_stdout(dev):
            return call(f, *a, **k)


def align(c):
    p, th = scene(c)
    if not p.any():
        return
    n = c["n"] + 2 * c["pad"][0]
    center = n / 2 + 0.5 if c["center"] else None
    f = tomopy.align_joint if c["joint"] else tomopy.align_seq
    with unchanged(prj=p, ang=th):
        got = quiet(f, p, th, iters=c["iters"], pad=tuple(c["pad"]), blur=c["blur"], center=center, algorithm=c["alg"],
                    upsample_factor=c["up"], rin=c["rin"], rout=0.8, save=False, debug=c["debug"])
    want = quiet(align_model, p, th, c, center)
    names = ("images", "row shifts", "column shifts", "errors")
    for k, (g, w, what) in enumerate(zip(got, want, names)):
        expect(np.shape(g) == np.shape(w), "%s: shape %s, expected %s", what, np.shape(g), np.shape(w))
        if k == 3 and not c["debug"]:
            continue
        # the correlation's maximum may tie between neighbouring (sub)pixels: bit-identical inputs give equal results
        close(g, w, 1e-4, what, scale=max(1e-3, np.abs(w).max()))


RECOVER = st.fixed_dictionaries({"seed": seeds(), "joint": st.booleans(), "nt": st.integers(18, 26), "blur": st.just(False)})


def recover(c):
    r = np.random.default_rng(c["seed"])
    n, ny = 16, 12
    obj = np.zeros((ny + 10, n, n), "f4")
    for _ in range(8):
        y, i, j = 5 + r.integers(1, ny - 1), *r.integers(4, 12, 2)
        obj[y - 1:y + 2, i - 1:i + 2, j - 1:j + 2] += r.uniform(0.5, 2)
    th = tomopy.angles(c["nt"])
    p = tomopy.project(obj, th, pad=False, ncore=1)
    jit = np.where(r.random(c["nt"]) < 0.2, r.integers(-2, 3, c["nt"]), 0)
    q = np.stack([np.roll(a, k, 0) for a, k in zip(p, jit)])
    f = tomopy.align_joint if c["joint"] else tomopy.align_seq
    out, sx, sy, conv = quiet(f, q, th, iters=8, blur=c["blur"], algorithm="sirt", pad=(0, 0))
    d = sx - jit
    expect(np.median(np.abs(d - np.median(d))) < 0.35 and np.percentile(np.abs(d - np.median(d)), 85) < 0.8,
           "vertical jitter %s, shifts found %s", jit, np.round(sx, 2))
    expect(conv[-1] <= conv[0] + 1e-6, "the shifts grow: %s", conv)


# ------------------------------------------------------------------------------------------------ slits
SLIT = st.fixed_dictionaries({
    "h": st.integers(80, 110), "w": st.integers(80, 110), "seed": seeds(), "box": st.tuples(*[st.floats(0, 1)] * 4).map(list),
    "method": st.sampled_from(["simple", "quadrant", "quadrant+", None, "Simple"]), "type": st.sampled_from(["f4", "f8", "u2"]),
    "noise": st.sampled_from([0.005, 0.02]), "clip": st.sampled_from([None, [0, 0, 0, 0], [3, 2, 5, 4]])})


def slits(c):
    h, w = c["h"], c["w"]
    t, b = 14 + int(c["box"][0] * (h / 2 - 30)), h - 14 - int(c["box"][1] * (h / 2 - 30))
    l, r = 14 + int(c["box"][2] * (w / 2 - 30)), w - 14 - int(c["box"][3] * (w / 2 - 30))
    img = np.full((h, w), 200.0)
    img[t:b, l:r] = 5000.0
    img = np.exp(ndimage.gaussian_filter(np.log(img), 1.0))
    g = np.random.default_rng(c["seed"])
    img = (img * (1 + c["noise"] * g.uniform(-1, 1, img.shape))).astype(c["type"])
    kw = {} if c["method"] is None else {"method": c["method"]}
    with unchanged(img=img):
        got = call(tomopy.find_slits_corners_aps_1id, img, medfilt_kernel_size=5, **kw)
    e = np.array([[l, t], [l, b], [r, b], [r, t]]) - 0.5
    fit = c["method"] in (None, "quadrant+")
    lim = 0.25 if fit else 1.6
    expect(np.shape(got) == (4, 2), "shape %s", np.shape(got))
    expect(np.abs(got - e).max() <= lim, "%s: corners %s, true %s", c["method"], np.round(got, 2).tolist(), e.tolist())
    # clipping
    kw = {} if c["clip"] is None else {"inclip": tuple(c["clip"])}
    k = c["clip"] or (1, 10, 1, 10)
    box = call(tomopy.calc_slit_box_aps_1id, np.asarray(got, float), **kw)
    q = np.asarray(got, float)
    want = (np.floor(q[:, 0].min()) + k[0], np.ceil(q[:, 0].max()) - k[1],
            np.floor(q[:, 1].min()) + k[2], np.ceil(q[:, 1].max()) - k[3])
    expect(tuple(map(int, box)) == tuple(map(int, want)), "box %s, expected %s", box, want)
    st3 = np.stack([img, img + 1])
    x0, x1, y0, y1 = map(int, want)
    same(call(tomopy.remove_slits_aps_1id, st3, np.asarray(got, float), **kw), st3[:, y0:y1, x0:x1], "clipped stack")


DRIFT = st.fixed_dictionaries({
    "h": st.integers(104, 130), "w": st.integers(104, 130), "seed": seeds(), "n": st.integers(1, 5),
    "max": st.sampled_from([0, 1, 4, 7]), "part": st.booleans(), "box": st.tuples(*[st.floats(0, 1)] * 4).map(list),
    "medfilt": st.sampled_from([None, 3, 5]), "ncore": st.sampled_from([1, 2, 3, None])})


def drift(c):
    """Images of one slit box on a drifting detector."""
    h, w, k = c["h"], c["w"], c["n"]
    t, b = 24 + c["box"][0] * (h / 2 - 50), h - 24 - c["box"][1] * (h / 2 - 50)
    l, r = 24 + c["box"][2] * (w / 2 - 50), w - 24 - c["box"][3] * (w / 2 - 50)
    g = np.random.default_rng(c["seed"])
    d = g.uniform(-c["max"], c["max"], (k, 2))
    if not c["part"]:
        d = np.round(d)
    y, x = np.mgrid[:h, :w].astype(float)

    def image(dy, dx):
        from scipy.special import erf
        e = [(1 + erf(s * (v - p))) / 2 for s, v, p in ((1, y, t + dy), (-1, y, b + dy), (1, x, l + dx), (-1, x, r + dx))]
        return 200.0 * 25 ** (e[0] * e[1] * e[2] * e[3]) * (1 + 0.003 * g.uniform(-1, 1, (h, w)))
    ref = np.array([[l, t], [l, b], [r, b], [r, t]])
    stk = np.stack([image(*v) for v in d])
    kw = {} if c["medfilt"] is None else {"medfilt_kernel_size": c["medfilt"]}
    with unchanged(imgstacks=stk, slit_cnr_ref=ref):
        out, cnr, mat = call(al.detector_drift_adjust_aps_1id, stk, ref, ncore=c["ncore"], **kw)
    expect(out.shape == stk.shape and cnr.shape == (k, 4, 2) and mat.shape == (k, 3, 3), "shapes %s", (out.shape, cnr.shape, mat.shape))
    want = image(0, 0)
    m = int(c["max"]) + 3
    for i in range(k):
        expect(np.abs(cnr[i] - ref - d[i][::-1]).max() < 0.25, "image %d: corners moved by %s, true %s", i,
               np.round(cnr[i] - ref, 2).tolist(), d[i][::-1])
        close(out[i][m:h - m, m:w - m], want[m:h - m, m:w - m], 0.12, "adjusted image %d (drift %s)" % (i, d[i]), scale=5000)
        full = ndimage.affine_transform(stk[i], mat[i][:2, :2], offset=mat[i][:2, 2])
        close(out[i][m:h - m, m:w - m], full[m:h - m, m:w - m], 1e-6, "image adjusted by its matrix", scale=5000)


def bad_method(c):
    rejects(NotImplementedError, tomopy.find_slits_corners_aps_1id, np.full((30, 30), 5.0), method=c["m"], medfilt_kernel_size=3)


# ------------------------------------------------------------------------------------------------ small maths
MATH = st.fixed_dictionaries({
    "seed": seeds(), "n": st.integers(3, 12), "exact": st.booleans(), "m": st.integers(0, 40),
    "steps": st.one_of(st.none(), st.integers(1, 50)), "par": st.tuples(st.floats(-3, 3), st.floats(-3, 3), st.floats(0.1, 4)).map(list),
    "coef": st.lists(st.floats(-5, 5), min_size=2, max_size=7), "words": st.booleans()})


def maths(c):
    from tomopy.misc import npmath
    r = np.random.default_rng(c["seed"])
    a, mu, sg = c["par"]
    x = r.normal(size=7) * 3
    close(call(npmath.gauss1d, x, a, mu, sg), a * np.exp(-((x - mu) / sg) ** 2 / 2), 1e-12, "gaussian", scale=abs(a))
    # cumulative distribution
    d = r.integers(0, 9, c["m"]).astype(float) if c["exact"] else r.normal(size=c["m"])
    with unchanged(data=d):
        xx, yy = call(npmath.discrete_cdf, d, steps=c["steps"])
    s = np.sort(d)
    if len(s) and c["steps"] is not None and len(s) > c["steps"]:
        s = s[::-(-len(s) // c["steps"])]
        expect(len(s) <= c["steps"], "more than the requested steps")
    k = len(s)
    expect(len(xx) == 2 * k and len(yy) == 2 * k, "%d points for %d values", len(xx), k)
    if k:
        close(xx, np.repeat(s, 2), 0, "values")
        close(yy, np.sort(np.r_[np.arange(k), np.arange(1, k + 1)]) / k, 1e-12, "distribution")
    # affine map
    p = r.normal(size=(c["n"], 2)) * 10
    m = r.normal(size=(2, 3))
    q = p @ m[:, :2].T + m[:, 2] + (0 if c["exact"] else r.normal(size=p.shape))
    with unchanged(p=p, q=q):
        got = call(npmath.calc_affine_transform, p, q)
    expect(got.shape == (3, 3), "shape %s", got.shape)
    P = np.c_[p, np.ones(len(p))]
    if np.linalg.cond(P) > 1e4:
        return
    close(got[2], [0, 0, 1], 1e-8, "last row", scale=1)
    if c["exact"]:
        close(got[:2], m, 1e-8, "affine map", scale=30)
    res = P @ got[:2].T - q
    close(P.T @ res, np.zeros((3, 2)), 1e-6, "normal equations", scale=1 + np.abs(P.T @ q).max())


def coefs(c):
    d = tempfile.mkdtemp(prefix="vt_coef_")
    try:
        p = os.path.join(d, "c.txt")
        v = c["coef"] + [1.0]
        with open(p, "w") as f:
            for i, x in enumerate(v):
                f.write(("factor%d = " % i if c["words"] else "") + repr(x) + "\n")
        xc, yc, k = call(tomopy.load_distortion_coefs, p)
        expect([xc, yc] + list(k) == v, "read %s, written %s", [xc, yc] + list(k), v)
    finally:
        shutil.rmtree(d)


SUBS = [
    Sub("lens", LENS, lens, quick=900, thorough=12000, shards=2, nontrivial=lambda c: c["poly"] not in ([1.0], [1.0, 0.0])),
    Sub("shift", SHIFT, shift, quick=400, thorough=6000, nontrivial=lambda c: c["kind"] != "const"),
    Sub("fractional", FRAC, fractional, quick=200, thorough=3000),
    Sub("jitter", JIT, jitter, quick=500, thorough=6000, nontrivial=lambda c: c["span"] > 0),
    Sub("blur", BLUR, blur, quick=500, thorough=6000),
    Sub("align", ALIGN, align, quick=120, thorough=1500, shards=2),
    Sub("recover", RECOVER, recover, quick=16, thorough=300),
    Sub("slits", SLIT, slits, quick=250, thorough=3000),
    Sub("drift", DRIFT, drift, quick=60, thorough=1500, nontrivial=lambda c: c["max"] > 0),
    Sub("bad", st.fixed_dictionaries({"m": st.sampled_from(["", "corner", "quadrant++", "QUAD"])}), bad_method, quick=4, thorough=8),
    Sub("maths", MATH, maths, quick=800, thorough=10000),
    Sub("coefs", MATH, coefs, quick=200, thorough=2000),
]
