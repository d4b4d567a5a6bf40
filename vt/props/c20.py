"""C20: phantoms and simulated degradations have the stated content and statistics."""
import os

import numpy as np
import scipy.ndimage as nd
import scipy.stats as ss
import tifffile
import tomopy
import tomopy.misc.phantom as ph

from vt.core import dims, Sub, st, data, call, close, same, expect, seeds, unchanged, rejects

RULE = "more than one voxel per axis; a non-zero strength or fraction and non-constant data"
ASSUMPTIONS = [
    "the images shipped in tomopy/data are the phantoms' content; resampling is cubic spline interpolation between pixel centres",
    "ellipsoids are centred in their own rotated axes (Euler angles z-x-z in degrees), coordinates -1..1 including both end voxels",
    "distributions are accepted at a significance of 1e-9 per case (random states are fixed, so a run never flickers)",
]

IMAGES = ("baboon", "barbara", "cameraman", "checkerboard", "lena", "peppers", "shepp2d")
KEEP = {}


def original(name):
    if name not in KEEP:
        KEEP[name] = tifffile.imread(os.path.join(ph.DATA_PATH, name + ".tif")).astype("f8")
    return KEEP[name]


def zoomed(im, size):
    """Cubic spline interpolation at the centres of the new pixels, zero outside, within the image's range."""
    at = [(np.arange(n) + 0.5) * (m / n) - 0.5 for n, m in zip(size, im.shape)]
    out = nd.map_coordinates(im, np.meshgrid(*at, indexing="ij"), order=3, mode="grid-constant", cval=0.0)
    return np.clip(out, im.min(), im.max())


IMAGE = st.fixed_dictionaries({
    "name": st.sampled_from(IMAGES), "size": st.one_of(st.integers(1, 90), st.tuples(st.integers(1, 90), st.integers(1, 90)).map(list),
                                                      st.sampled_from([None, 512, 511, 600])),
    "dtype": st.sampled_from([None, "float32", "float64"])})


def image(c):
    f, im = getattr(tomopy, c["name"]), original(c["name"])
    size = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    kw = {k: v for k, v in (("size", size), ("dtype", c["dtype"])) if v is not None}
    out = call(f, **kw)
    full = (512, 512) if size is None else size if isinstance(size, tuple) else (size, size)
    expect(out.shape == (1,) + full, "shape %s for %s", out.shape, full)
    expect(out.dtype == np.dtype(c["dtype"] or "float32"), "type %s", out.dtype)
    expect(out.min() >= min(0, im.min()) and out.max() <= im.max(), "range %g..%g, image %g..%g", out.min(), out.max(), im.min(), im.max())
    if full == im.shape:
        close(out[0], im, 1e-6, "phantom of the image's own size", scale=im.max())
        return
    # boundary treatment differs between interpolators; judge what lies four source pixels inside
    want = zoomed(im, full)
    inside = [((np.arange(n) + 0.5) * (m / n) - 0.5 >= 6) & ((np.arange(n) + 0.5) * (m / n) - 0.5 <= m - 7) for n, m in zip(full, im.shape)]
    mask = inside[0][:, None] & inside[1][None]
    if mask.any():
        close(np.clip(out[0], im.min(), None), want, 2e-3, "resampled image", scale=im.max(), mask=mask)
    same(out, call(f, **kw), "repeated")


TABLE = [  # the modified Shepp-Logan phantom (value, half axes, centre, angles)
    (1., .6900, .920, .810, 0., 0., 0., 0., 0., 0.), (-.8, .6624, .874, .780, 0., -.0184, 0., 0., 0., 0.),
    (-.2, .1100, .310, .220, .22, 0., 0., -18., 0., 10.), (-.2, .1600, .410, .280, -.22, 0., 0., 18., 0., 10.),
    (.1, .2100, .250, .410, 0., .35, -.15, 0., 0., 0.), (.1, .0460, .046, .050, 0., .1, .25, 0., 0., 0.),
    (.1, .0460, .046, .050, 0., -.1, .25, 0., 0., 0.), (.1, .0460, .023, .050, -.08, -.605, 0., 0., 0., 0.),
    (.1, .0230, .023, .020, 0., -.606, 0., 0., 0., 0.), (.1, .0230, .046, .020, .06, -.605, 0., 0., 0., 0.)]


def ellipsoids(size, rows):
    """Sum of the ellipsoids, and where no voxel lies on a surface."""
    ax = [np.linspace(-1, 1, n) if n > 1 else np.array([-1.]) for n in size]
    xyz = np.stack(np.meshgrid(*ax, indexing="ij"), -1)
    out, clear = np.zeros(size), np.ones(size, bool)

    def rz(t):
        return np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1]])

    def rx(t):
        return np.array([[1, 0, 0], [0, np.cos(t), np.sin(t)], [0, -np.sin(t), np.cos(t)]])
    for A, a, b, c, x0, y0, z0, phi, theta, psi in rows:
        R = rz(np.radians(psi)) @ rx(np.radians(theta)) @ rz(np.radians(phi))
        q = (((xyz @ R.T - [x0, y0, z0]) / [a, b, c]) ** 2).sum(-1)
        out += A * (q <= 1)
        clear &= np.abs(q - 1) > 1e-6 * (1 + 1 / min(a, b, c) ** 2)
    return out, clear


f1 = st.floats(-1, 1).map(lambda v: round(v, 3))
SHEPP = st.fixed_dictionaries({"size": st.one_of(st.integers(1, 28), st.tuples(*[st.integers(1, 34)] * 3).map(list)),
                               "dtype": st.sampled_from([None, "float32", "float64"])})
ELL = st.fixed_dictionaries({
    "size": st.tuples(*[st.integers(1, 14)] * 3).map(list), "dtype": st.sampled_from([None, "float32", "float64"]),
    "rows": st.lists(st.tuples(st.floats(-2, 2).map(lambda v: round(v, 2)), *[st.floats(0.05, 1.5).map(lambda v: round(v, 3))] * 3,
                               f1, f1, f1, *[st.floats(-180, 180).map(lambda v: round(v, 1))] * 3).map(list), max_size=4)})
NAMES = ("A", "a", "b", "c", "x0", "y0", "z0", "phi", "theta", "psi")


def shepp(c):
    size = tuple(c["size"]) if isinstance(c["size"], list) else c["size"]
    kw = {} if c["dtype"] is None else {"dtype": c["dtype"]}
    out = call(tomopy.shepp3d, size, **kw)
    full = size if isinstance(size, tuple) else (size,) * 3
    expect(out.shape == full, "shape %s for %s", out.shape, full)
    expect(out.dtype == np.dtype(c["dtype"] or "float32"), "type %s", out.dtype)
    # the volume's axes are z, y, x of the table, y and z pointing as the slices are drawn
    rows = [r[:7] + (90., 90., 90.) if r[7] == 0 and r[9] == 0 else r[:7] + ((-108., 90., 100.) if r[7] < 0 else (108., 90., 100.))
            for r in TABLE]
    want, clear = ellipsoids(full, rows)
    close(out, np.clip(want, 0, None), 1e-6, "Shepp-Logan phantom", scale=1.0, mask=clear)
    expect(out.min() >= 0 and out.max() <= 1 + 1e-6, "range %g..%g", out.min(), out.max())


def ell(c):
    kw = {} if c["dtype"] is None else {"dtype": c["dtype"]}
    params = [dict(zip(NAMES, r)) for r in c["rows"]]
    out = call(tomopy.phantom, tuple(c["size"]), params, **kw)
    expect(params == [dict(zip(NAMES, r)) for r in c["rows"]], "parameters modified")
    expect(out.dtype == np.dtype(c["dtype"] or "float32"), "type %s", out.dtype)
    want, clear = ellipsoids(tuple(c["size"]), c["rows"])
    expect(out.shape == want.shape, "shape %s", out.shape)
    close(out, want, 2e-6, "ellipsoids", scale=10.0, mask=clear)


TURN = st.one_of(st.none(), st.floats(-720, 720), st.integers(-8, 8).map(lambda k: 90.0 * k))
ANG = st.fixed_dictionaries({"n": st.integers(0, 400), "a": TURN, "b": TURN})


def angles(c):
    kw = {k: c[v] for k, v in (("ang1", "a"), ("ang2", "b")) if c[v] is not None}
    out = call(tomopy.angles, c["n"], **kw)
    a, b = 0.0 if c["a"] is None else c["a"], 180.0 if c["b"] is None else c["b"]
    expect(np.shape(out) == (c["n"],), "shape %s", np.shape(out))
    k = np.arange(c["n"])
    want = np.radians(a + (b - a) * k / max(c["n"] - 1, 1))
    close(out, want, 1e-12, "angles", scale=np.radians(abs(a) + abs(b) + 1))


def normal(x, mean, std, what):
    x = np.ravel(x)
    p = ss.kstest((x - mean) / std, "norm").pvalue
    expect(p > 1e-9, "%s is not normal with mean %g and deviation %g (mean %g, deviation %g)", what, mean, std, x.mean(), x.std())


def independent(x, what):
    """No repetition along any axis and no correlation of neighbours."""
    x = np.asarray(x, "f8")
    for ax in range(x.ndim):
        if x.shape[ax] > 1:
            y = np.moveaxis(x, ax, 0)
            a, b = y[:-1].ravel(), y[1:].ravel()
            if a.size > 30 and a.std() > 0 and b.std() > 0:
                r = np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std())
                expect(abs(r) * np.sqrt(a.size) < 8, "%s is correlated (%.3g) along axis %d", what, r, ax)


SIZE = dims((1, 40), (1, 30), (1, 30), long=(60, 260))
DEG = st.fixed_dictionaries({
    "what": st.sampled_from(["drift", "rings", "zingers", "salt", "gaussian", "poisson"]), "size": SIZE, "seed": seeds(),
    "kind": st.sampled_from(["uniform", "signed", "ints", "ones"]), "a": st.one_of(st.none(), st.sampled_from([0.0, 1.0]), st.floats(0.01, 1)),
    "b": st.one_of(st.none(), st.floats(-3, 60).map(lambda v: round(v, 2))), "p": st.one_of(st.none(), st.floats(2, 90)),
    "dtype": st.sampled_from(["f4", "f8"])})


def fraction(mask, p, what):
    n, k = mask.size, int(mask.sum())
    q = min(ss.binom.cdf(k, n, p), ss.binom.sf(k - 1, n, p))
    expect(q > 1e-10, "%s: %d of %d, stated fraction %g", what, k, n, p)
    for ax in range(3):
        s = mask.sum(axis=tuple(set(range(3)) - {ax}))
        m = mask.size // len(s)
        q = np.minimum(ss.binom.cdf(s, m, p), ss.binom.sf(s - 1, m, p))
        expect(q.min() > 1e-11, "%s: %d of %d in one plane of axis %d, stated fraction %g", what, s[q.argmin()], m, ax, p)
    if 0.2 < p < 0.8:
        independent(mask, what)


def degrade(c):
    t = data(tuple(c["size"]), c["seed"], "uniform" if c["kind"] == "ones" else c["kind"]).astype(c["dtype"])
    if c["kind"] == "ones":
        t[:] = 1
    what, a, b = c["what"], c["a"], c["b"]

    def run(func, x, **kw):
        np.random.seed(c["seed"] % 2 ** 31)
        out = call(func, x, **{k: v for k, v in kw.items() if v is not None})
        expect(out.shape == t.shape, "shape %s", out.shape)
        return out

    if what == "drift":
        with unchanged(tomo=t):
            out = run(tomopy.add_drift, t, amp=a, period=c["p"], mean=b)
        k = np.arange(len(t))
        g = (0.2 if a is None else a) * np.sin(2 * np.pi * k / (c["p"] or 50)) + (1 if b is None else b)
        g = g + k / max(len(t) - 1, 1)
        close(out, g[:, None, None] * t.astype("f8"), 1e-6, "drift", scale=np.abs(t).max() * (np.abs(g).max() + 1) + 1e-30)
    elif what == "rings":
        with unchanged(tomo=t):
            out = run(tomopy.add_rings, t, std=a)
            again = run(tomopy.add_rings, t, std=a)
        same(out, again, "same random state")
        ok = np.abs(t) > 1e-3 * np.abs(t).max()
        r = np.where(ok, out / np.where(ok, t, 1), np.nan)
        sens = np.nanmedian(np.where(ok.any(0), r, 1.0), axis=0)
        good = ok.any(0)
        close(out, t * sens, 1e-5, "rings: one sensitivity per detector pixel for all angles",
              scale=np.abs(t).max() * (1 + np.abs(sens).max()) + 1e-30, mask=np.broadcast_to(good, t.shape))
        std = 0.05 if a is None else a
        if std == 0:
            close(out, t, 1e-6, "rings of no deviation", scale=np.abs(t).max() + 1e-30)
        elif good.all():
            normal(sens, 1, std, "sensitivity")
            independent(sens[None], "sensitivity")
    elif what == "zingers":
        sat = None if b is None else b + 5000.5
        with unchanged(tomo=t):
            out = run(tomopy.add_zingers, t, f=a, sat=sat)
            again = run(tomopy.add_zingers, t, f=a, sat=sat)
        same(out, again, "same random state")
        expect(out.dtype == t.dtype, "type %s", out.dtype)
        hit = out != t
        same(out[hit], np.full(hit.sum(), 2 ** 16 if sat is None else sat, t.dtype), "zingers have the saturation value")
        fraction(hit, 0.01 if a is None else a, "zingers")
    elif what == "salt":
        out = run(tomopy.add_salt_pepper, t.copy(), prob=a, val=b)
        again = run(tomopy.add_salt_pepper, t.copy(), prob=a, val=b)
        same(out, again, "same random state")
        expect(out.dtype == t.dtype, "type %s", out.dtype)
        v = t.max() if b is None else t.dtype.type(b)
        hit = out != t
        same(out[hit], np.full(hit.sum(), v, t.dtype), "corrupted values")
        fraction_other(hit, t != v, 0.01 if a is None else a)
    elif what == "gaussian":
        mean = None if b is None else b / 10
        out = run(tomopy.add_gaussian, t.copy(), mean=mean, std=a)
        again = run(tomopy.add_gaussian, t.copy(), mean=mean, std=a)
        same(out, again, "same random state")
        std = 0.05 * t.max() if a is None else a
        noise = out.astype("f8") - t
        eps = 1e-6 * (np.abs(t).max() + abs(mean or 0) + 1)
        if std <= 1e-3 * np.abs(t).max():
            if std == 0:
                close(noise, np.full(t.shape, mean or 0.0), 1.0, "no deviation", scale=eps)
        else:
            normal(noise, mean or 0.0, std, "noise")
            independent(noise, "noise")
    else:
        lam = np.abs(t) * np.array([5.0 if a is None else 30 * a]).astype(t.dtype)
        lam = np.minimum(lam, 1e4).astype(lam.dtype)
        if c["b"] is not None and c["b"] > 35:           # bright beams
            lam = lam * lam.dtype.type(10 ** ((c["b"] - 35) / 5))
        with unchanged(tomo=lam):
            out = run(tomopy.add_poisson, lam)
            again = run(tomopy.add_poisson, lam)
        same(out, again, "same random state")
        expect(np.array_equal(out, np.round(out)) and out.min() >= 0, "counts are not whole numbers")
        expect((out[lam == 0] == 0).all(), "counts without any expected")
        z = out - lam.astype("f8")
        s = np.sqrt(lam.sum())
        if lam.sum() > 200:
            expect(abs(z.sum()) < 8 * s, "sum of counts off by %.3g deviations", z.sum() / s)
            v = lam > 1
            if v.sum() > 50:
                chi = (z[v] ** 2 / lam[v]).sum()
                var = (2 + 1 / lam[v]).sum()
                expect(abs(chi - v.sum()) < 9 * np.sqrt(var), "variance %.3g of the mean", chi / v.sum())
                independent(z / np.sqrt(np.maximum(lam, 1)), "noise")


def fraction_other(hit, other, p):
    """Values that already were the corrupted value cannot be told from corrupted ones."""
    if other.all():
        return fraction(hit, p, "salt and pepper")
    n, k = int(other.sum()), int(hit.sum())
    q = min(ss.binom.cdf(k, n, p), ss.binom.sf(k - 1, n, p)) if n else 1
    expect(q > 1e-10, "salt and pepper: %d of %d, stated fraction %g", k, n, p)


ASK = st.fixed_dictionaries({"k": st.integers(0, 2)})


def ask(c):
    t = np.ones((2, 3, 4), "f4")
    f, a = [(tomopy.fan_to_para, (t, 3., "arc")), (tomopy.para_to_fan, (t, 3., "line")), (tomopy.add_focal_spot_blur, (t, 1.))][c["k"]]
    rejects(NotImplementedError, f, *a)


SUBS = [
    Sub("image", IMAGE, image, quick=640, thorough=5120, shards=4, nontrivial=lambda c: c["size"] != 1),
    Sub("shepp", SHEPP, shepp, quick=640, thorough=5120, shards=2, nontrivial=lambda c: c["size"] != 1),
    Sub("ell", ELL, ell, quick=2000, thorough=16000, nontrivial=lambda c: len(c["rows"]) > 0 and min(c["size"]) > 1),
    Sub("angles", ANG, angles, quick=1200, thorough=9600, nontrivial=lambda c: c["n"] > 1),
    Sub("degrade", DEG, degrade, quick=4800, thorough=38400, shards=2, nontrivial=lambda c: np.prod(c["size"]) > 30),
    Sub("ask", ASK, ask, quick=12, thorough=96),
]
