"""C04: the Fourier reconstruction is linear filtered back projection."""
import numpy as np
import tomopy

from vt import gen, gridref
from vt.core import Sub, st, data, call, close, same, expect, seeds, unchanged, Skip

RULE = "a non-zero sinogram of at least 3 bins reconstructed with a filter that passes frequencies"
ASSUMPTIONS = [
    "the gridding kernel (prolate spheroidal, 4 cells, table of 512) is part of the documented "
    "method; the reference uses it in double precision",
    "tolerance 1e-4 of the image's range plus the effect of one kernel table index rounded the "
    "other way; agreement with the exact back projection is required up to the gridding error only",
]

GRID = st.one_of(st.none(), st.tuples(st.integers(1, 64), st.integers(1, 64)).map(list))
CASE = st.fixed_dictionaries({
    "ny": st.sampled_from([1, 2, 3, 4, 7]), "nt": st.integers(1, 10), "nx": st.one_of(st.integers(1, 24), st.integers(1, 24), st.sampled_from([32, 33, 47, 64, 65, 70])),
    "akind": st.sampled_from(gen.ANGLES), "ckind": st.sampled_from(gen.CENTERS),
    "kind": st.sampled_from(["uniform", "signed", "sparse", "spikes", "ints"]),
    "filter": st.sampled_from(gen.FILTERS),
    "fpar": st.sampled_from([None, [0.5, 8.0], [0.25, 4.0], [0.3, 2.0], [0.4], 0.45]),
    "grid": GRID, "seed": seeds(), "custom": st.booleans(),
})


def build(c):
    nx = c["nx"]
    sino = data((c["ny"], c["nt"], nx), c["seed"], c["kind"])
    theta = gen.angles(c["nt"], c["akind"], c["seed"])
    cen = gen.centers(c["ckind"], c["seed"], c["ny"], nx)
    pd = gridref.pdim(nx)
    gx, gy = c["grid"] or (nx, nx)
    return sino, theta, cen, min(gx, pd), min(gy, pd), pd


def run(sino, theta, cen, gx, gy, name=None, par=None, **kw):
    if name is not None:
        kw["filter_name"] = name
    if par is not None:
        kw["filter_par"] = par
    return call(tomopy.recon, sino, theta, center=cen, sinogram_order=True, algorithm="gridrec",
                num_gridx=gx, num_gridy=gy, ncore=1, **kw)


def fpar(c):
    p = np.atleast_1d(np.array(0.5 if c["fpar"] is None else c["fpar"], float)).tolist()
    return p + [0.5, 8.0][len(p):]


def cens(cen, ny, nx):
    return np.broadcast_to(np.asarray(nx / 2. if cen is None else cen, np.float32), (ny,))


def tilt(theta, c):
    """Angles on a grid axis put samples exactly on the rim of the kernel, where one
    rounding decides whether the (small) last weight counts."""
    return (theta + np.float32(0.0371)) if c["akind"] == "exact" else theta


def reference(c):
    sino, theta, cen, gx, gy, pd = build(c)
    theta = tilt(theta, c)
    if c["custom"]:
        shape = (c["nt"], pd // 2) if c["seed"] % 2 else (pd // 2,)
        filt = data(shape, c["seed"] + 1, "signed")
        name, par = ("custom2d" if len(shape) == 2 else "custom"), filt.ravel()
    else:
        filt = gridref.response(c["filter"], c["nx"], fpar(c))
        name, par = c["filter"], c["fpar"]
        if name == "shepp" and c["seed"] % 2:
            name = None                       # the default
    with unchanged(sino=sino, theta=theta):
        got = run(sino, theta, cen, gx, gy, name, par)
    expect(got.shape == (c["ny"], gx, gy), "shape %s", (got.shape,))
    ce = cens(cen, c["ny"], c["nx"])
    rs = [gridref.gridrec(sino[s], theta, ce[s], gx, gy, filt, bound=True) for s in range(c["ny"])]
    # two slices share one complex transform: rounding is relative to the larger
    want, lim = np.array([r[0] for r in rs]), np.max([r[1] for r in rs], 0)
    lim = lim + 1e-4 * np.abs(want).max() + 1e-20
    close(got / lim, want / lim, 1.0, "gridrec (in units of its rounding)", scale=1.0)


def relations(c):
    sino, theta, cen, gx, gy, pd = build(c)
    if c["seed"] % 8 == 7:
        theta = tilt(theta, c)
    name, par = c["filter"], c["fpar"]
    a = run(sino, theta, cen, gx, gy, name, par)
    scale = max(np.abs(a).max(), 1e-3 * np.abs(sino).max() / c["nt"])
    tol = 1e-3
    r = c["seed"] % 8
    if r == 0:      # linearity
        b = data(sino.shape, c["seed"] + 2, "signed")
        k = np.float32(1.75)
        ab = k * run(b, theta, cen, gx, gy, name, par)
        close(run(sino + k * b, theta, cen, gx, gy, name, par), a + ab, tol, "linearity",
              scale=scale + np.abs(ab).max() + np.abs(b).max() / c["nt"])
    elif r == 1:    # a named filter is its response
        filt = gridref.response(name, c["nx"], fpar(c)).astype(np.float32)
        close(run(sino, theta, cen, gx, gy, "custom", filt), a, tol, "custom filter", scale=scale)
        close(run(sino, theta, cen, gx, gy, "custom2d", np.tile(filt, c["nt"])), a, tol,
              "custom filter per angle", scale=scale)
    elif r == 2:    # a filter per projection acts on that projection
        f2 = np.tile(gridref.response(name, c["nx"], fpar(c)), (c["nt"], 1)).astype(np.float32)
        p = c["seed"] % c["nt"]
        f2[p] = 0
        s2 = sino.copy()
        s2[:, p] = 0
        close(run(sino, theta, cen, gx, gy, "custom2d", f2.ravel()),
              run(s2, theta, cen, gx, gy, name, par), tol, "projection filtered away", scale=scale)
    elif r == 3:    # permuted and repeated angles
        p = np.random.default_rng(c["seed"]).permutation(c["nt"])
        close(run(np.ascontiguousarray(sino[:, p]), theta[p], cen, gx, gy, name, par), a, tol,
              "permuted angles", scale=scale)
        close(run(np.concatenate([sino, sino], 1), np.concatenate([theta, theta]), cen, gx, gy,
                  name, par), a, tol, "every angle twice", scale=scale)
    elif r == 4:    # data and axis moved together
        k = 1 + c["seed"] % 5
        w = pd - k if c["nx"] + k > pd else c["nx"]
        s0 = np.zeros((c["ny"], c["nt"], pd), "f4")
        s1 = s0.copy()
        s0[..., :w] = sino[..., :w]
        s1[..., k:k + w] = sino[..., :w]
        ce = cens(cen, c["ny"], c["nx"]) + np.float32(0)
        close(run(s1, theta, ce + np.float32(k), gx, gy, name, par),
              run(s0, theta, ce, gx, gy, name, par), tol, "axis and data moved by %d" % k, scale=scale)
    elif r == 5:    # zero columns added on the right change nothing while the padding is the same
        s0 = np.zeros((c["ny"], c["nt"], pd), "f4")
        s0[..., :c["nx"]] = sino
        ce = cens(cen, c["ny"], c["nx"]) + np.float32(0)
        close(run(s0, theta, ce, gx, gy, name, par), run(sino, theta, ce, gx, gy, name, par),
              1e-5, "zero columns", scale=scale)
    elif r == 6:    # a smaller grid is the centre of the larger one
        bx, by = pd - (pd - gx) % 2, pd - (pd - gy) % 2
        if bx < 1 or by < 1:
            raise Skip()
        big = run(sino, theta, cen, bx, by, name, par)
        ox, oy = (bx - gx) // 2, (by - gy) // 2
        close(a, big[:, ox:ox + gx, oy:oy + gy], 1e-5, "centre of the larger grid", scale=scale)
    else:           # half a turn more, detector mirrored about the axis
        k = c["nx"] if c["seed"] % 3 else c["nx"] - 1
        ce = k / 2.
        s1 = np.zeros((c["ny"], c["nt"], pd), "f4")
        s1[..., :k + 1] = data((c["ny"], c["nt"], pd), c["seed"], c["kind"])[..., :k + 1]
        if k + 1 > pd:
            raise Skip()
        s2 = np.zeros_like(s1)
        s2[..., :k + 1] = s1[..., k::-1] if k + 1 < pd else s1[..., ::-1]
        gx, gy = min(gx, pd // 2), min(gy, pd // 2)
        a1 = run(s1, theta, ce, gx, gy, name, par)
        a2 = run(s2, (theta.astype(float) + np.pi).astype("f4"), ce, gx, gy, name, par)
        close(a2, a1, 2e-2, "half a turn and mirrored",
              scale=np.abs(a1).max() + 0.2 * np.abs(s1).max())


def backprojection(c):
    """Agreement with exact back projection inside the well gridded centre."""
    nx, nt = c["nx"] + 16, c["nt"] + 6
    theta = tilt(gen.angles(nt, c["akind"], c["seed"]), c)
    cen = nx / 2. + (c["seed"] % 7 - 3) * 0.37
    sino = data((1, nt, nx), c["seed"], c["kind"])
    filt = gridref.response(c["filter"], nx, fpar(c))
    g = max(3, int(0.6 * nx))
    a = run(sino, theta, cen, g, g, c["filter"], c["fpar"])[0].astype(float)
    b = 0.5 * gridref.fbp(sino[0], theta, cen, g, g, filt)
    rms = lambda v: np.sqrt((v * v).mean())
    if rms(b) < 1e-6 * np.abs(sino).max():
        raise Skip()
    k = (a * b).sum() / (b * b).sum()
    expect(0.8 < k < 1.9, "amplitude %.3f of the back projection", k)
    e = rms(a - k * b) / rms(k * b)
    expect(e < 0.5, "differs from back projection by %.3f (rms)", e)


# sizes of real scans: many angles, wide detectors, many slices
SIZES = st.one_of(
    st.fixed_dictionaries({"nt": st.integers(60, 400), "nx": st.integers(1, 40), "ny": st.sampled_from([1, 2])}),
    st.fixed_dictionaries({"nt": st.integers(1, 5), "nx": st.integers(71, 300), "ny": st.sampled_from([1, 2])}),
    st.fixed_dictionaries({"nt": st.integers(1, 5), "nx": st.integers(1, 20), "ny": st.integers(8, 40)}))
SCALE = CASE.flatmap(lambda c: SIZES.map(lambda d: dict(c, **d)))
SIZES2 = st.one_of(
    st.fixed_dictionaries({"nt": st.integers(60, 900), "nx": st.integers(20, 300), "ny": st.sampled_from([1, 2])}),
    st.fixed_dictionaries({"nt": st.integers(1, 40), "nx": st.integers(256, 1100), "ny": st.sampled_from([1, 2, 3])}))
SCALE2 = CASE.flatmap(lambda c: SIZES2.map(lambda d: dict(c, **d)))

NT = lambda c: c["nx"] >= 3
SUBS = [
    Sub("reference", CASE, reference, quick=2400, thorough=40000, shards=4, nontrivial=NT),
    Sub("scale", SCALE, reference, quick=40, thorough=600, shards=2, nontrivial=NT),
    Sub("sizes", SCALE2, relations, quick=60, thorough=900, shards=2, nontrivial=NT),
    Sub("relations", CASE, relations, quick=6000, thorough=120000, shards=2, nontrivial=NT),
    Sub("backprojection", CASE, backprojection, quick=1200, thorough=20000, shards=2),
]
