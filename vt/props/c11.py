"""C11: ring removal subtracts only bounded, concentric artifacts."""
import numpy as np
import tomopy

from vt.core import dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, KINDS, Skip

RULE = "a slice in which the reference finds a ring correction"
ASSUMPTIONS = [
    "the rotation centre lies inside the image (others are rejected)",
    "slices with a sampling position halfway between two pixels are judged only where the rounding "
    "of the present code is reproduced",
]
F = np.float32
PI = 3.14159265359


def iround(x):
    return np.where(x != 0, np.floor(np.asarray(x, "f8") + 0.5), 0).astype(int)


def median_zone(img, c0, c1, k):
    """Radial median of columns c0..c1-1; the axis continues on the opposite side."""
    h, w = img.shape
    if c1 <= c0:
        return np.zeros((h, 0), "f4")
    cols = np.arange(c0, c1)[:, None] + np.arange(-k, k + 1)[None]          # (c, 2k+1)
    rows = np.arange(h)
    opp = np.where(rows < h // 2, rows + h // 2, rows - h // 2)
    c = np.abs(cols)
    inside = c < w
    cc = np.where(inside, c, 0)
    here = img[rows[:, None, None], cc[None]]
    there = img[opp[:, None, None], cc[None]]
    v = np.where(cols[None] < 0, there, here)
    v = np.where(inside[None], v, F(0))
    return np.sort(v, axis=-1)[..., k]


def mean_zone(img, c0, c1, k, mode):
    h = img.shape[0]
    x = img[:, c0:c1].astype("f8")
    n = np.arange(-k, k + 1)
    rows = np.arange(h)
    r = rows[:, None] + n[None]
    starts = [0]
    if mode == "wrap":
        r = r % h
    else:
        half = h // 2
        starts = [0, half]
        lo = np.where(rows < half, 0, half)[:, None]
        hi = np.where(rows < half, half, h)[:, None]
        r = np.where(r < lo, 2 * lo - r, r)
        r = np.where(r >= hi, 2 * hi - r - 2, r)
    m = x[r].sum(1) / (2 * k + 1)
    keep = x != 0
    keep[starts] = True
    return np.where(keep, m, 0.0)


def reference(im, cx, cy, th, tmax, tmin, theta_min, rwidth, mode):
    h, w = im.shape
    cx, cy = F(cx), F(cy)
    max_r = min(int(cx + F(1)), int(cy + F(1)), int(F(w) - cx), int(F(h) - cy))
    pw = max_r
    ph = int(iround(F(2.0 * PI * max_r)))
    row = np.arange(ph)
    theta = (row.astype("f8") * 2.0 * PI / float(ph)).astype("f4")
    a = theta.astype("f8") + PI / float(ph)
    r = np.arange(pw).astype("f8")
    fx = (r[None] * np.cos(a)[:, None]).astype("f4")
    fy = (r[None] * np.sin(a)[:, None]).astype("f4")
    x, y = iround(fx + cx), iround(fy + cy)
    tie = any((np.abs((v + 0.5) % 1.0 - 0.0) < 2e-6 * max(h, w)).any() or
              (np.abs((v + 0.5) % 1.0 - 1.0) < 2e-6 * max(h, w)).any()
              for v in ((fx[:, 1:] + cx).astype("f8"), (fy[:, 1:] + cy).astype("f8")))
    pol = np.clip(im[y, x], F(tmin), F(tmax))
    m_azi = min(int(np.floor(float(ph) / 360.0 * theta_min)), ph // 2 - 1)
    m_rad = 2 * rwidth + 1
    z = [0, pw // 3, 2 * pw // 3, pw]
    kr = [m_rad // 3, 2 * m_rad // 3, m_rad]
    ka = [m_azi // 3, 2 * m_azi // 3, m_azi]
    med = np.concatenate([median_zone(pol, z[i], z[i + 1], kr[i]) for i in range(3)], axis=1)
    d = (pol - med).astype("f4")
    d[(d > F(th)) | (d < -F(th))] = 0
    ring = np.concatenate([mean_zone(d, z[i], z[i + 1], ka[i], mode) for i in range(3)], axis=1)
    yy, xx = np.arange(h).astype("f4") - cy, np.arange(w).astype("f4") - cx
    t = np.arctan2(yy[:, None].astype("f8"), xx[None].astype("f8") - PI / float(ph)).astype("f4")
    t = np.where(t < 0, (t.astype("f8") + 2.0 * PI).astype("f4"), t)
    pr = iround(((t * F(ph)).astype("f4").astype("f8") / (2.0 * PI)).astype("f4"))
    pr = np.where(pr == ph, 0, pr)
    f = (t.astype("f8") * ph / (2.0 * PI) + 0.5) % 1.0
    tie |= bool(((f < 1e-5) | (f > 1 - 1e-5)).any())
    pc = iround(np.sqrt(((yy * yy)[:, None] + (xx * xx)[None]).astype("f4")).astype("f4"))
    ok = (pr < ph) & (pc < pw)
    corr = np.where(ok, ring[np.where(ok, pr, 0), np.where(ok, pc, 0)], 0.0)
    return im.astype("f8") - corr, corr, tie


CASE = st.fixed_dictionaries({
    "n": dims((1, 4), (1, 26), (1, 26), long=(40, 90), odds=10), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "th": st.sampled_from([0.0, 0.1, 0.5, 1.0, 5.0, 300.0]),
    "tmax": st.sampled_from([0.3, 1.0, 5.0, 300.0]), "tmin": st.sampled_from([-100.0, -1.0, 0.0, 0.2]),
    "theta": st.sampled_from([0, 5, 30, 60, 90, 179]), "rw": st.sampled_from([0, 1, 2, 3, 5, 9, 30]),
    "mode": st.sampled_from(["WRAP", "REFLECT", "wrap", "reflect"]),
    "cen": st.sampled_from(["default", "x", "y", "both", "corner"]), "u": st.floats(0, 1), "v": st.floats(0, 1),
    "ncore": st.sampled_from([None, 1, 2, 3]), "nchunk": st.sampled_from([None, 1, 2]),
    "out": st.sampled_from(["none", "none", "none", "self", "F", "strided"]), "default": st.booleans()})


def centre(c):
    nz, ny, nx = c["n"]
    kw = {}
    cx, cy = (nx - 1) / 2, (ny - 1) / 2
    if c["cen"] in ("x", "both"):
        kw["center_x"] = cx = float(F(c["u"] * (nx - 1)))
    if c["cen"] in ("y", "both"):
        kw["center_y"] = cy = float(F(c["v"] * (ny - 1)))
    if c["cen"] == "corner":
        kw["center_x"] = cx = float([0, nx - 1][c["u"] > 0.5])
        kw["center_y"] = cy = float([0, ny - 1][c["v"] > 0.5])
    return kw, cx, cy


def formula(c):
    arr = data(tuple(c["n"]), c["seed"], c["kind"])
    kw, cx, cy = centre(c)
    if c["default"]:
        th, tmax, tmin, theta, rw, mode = 300.0, 300.0, -100.0, 30, 30, "WRAP"
    else:
        th, tmax, tmin, theta, rw, mode = c["th"], c["tmax"], c["tmin"], c["theta"], c["rw"], c["mode"]
        kw.update(thresh=th, thresh_max=tmax, thresh_min=tmin, theta_min=theta, rwidth=rw, int_mode=mode)
    orig = arr.copy()
    out = None
    if c["out"] == "self":
        out = arr
    elif c["out"] != "none":
        out = layout(np.full(arr.shape, 3, "f4"), c["out"])
    got = call(tomopy.remove_ring, arr, ncore=c["ncore"], nchunk=c["nchunk"], out=out, **kw)
    if out is not None:
        same(out, got, "output array")
    if out is not arr:
        same(arr, orig, "input")
    expect(got.shape == arr.shape, "shape %s", got.shape)
    span = float(np.abs(orig).max()) + abs(tmin) * (tmin < orig.min()) * 0
    for g, o in zip(got, orig):
        want, corr, tie = reference(o, cx, cy, th, tmax, tmin, theta, rw, mode.lower())
        if tie and np.abs(g - want).max() > 1e-6 * (span + np.abs(corr).max()):
            raise Skip()        # a sampling position halfway between pixels
        close(g, want, 2e-6, "slice after ring removal", scale=span + np.abs(corr).max())
        expect(np.abs(g.astype("f8") - o).max() <= th + 1e-5 * (span + th), "a correction above the threshold")


RING = st.fixed_dictionaries({
    "n": st.integers(24, 48), "seed": seeds(), "amp": st.sampled_from([-0.8, -0.3, 0.4, 1.0]),
    "rad": st.floats(0.45, 0.8), "u": st.floats(-0.1, 0.1), "v": st.floats(-0.1, 0.1),
    "level": st.sampled_from([0.0, 2.0]), "theta": st.sampled_from([30, 60]),
    "mode": st.sampled_from(["WRAP", "REFLECT"])})


def ring(c):
    """A one-pixel ring around the stated centre on a smooth object is reduced."""
    n = c["n"]
    cx, cy = (n - 1) / 2 + c["u"] * n, (n - 1) / 2 + c["v"] * n
    y, x = np.mgrid[:n, :n]
    rr = np.hypot(x - cx, y - cy)
    rmax = int(min(cx, cy, n - 1 - cx, n - 1 - cy))
    r0 = round(c["rad"] * rmax)
    base = c["level"] + 0.1 * np.sin(x / n * 3 + c["seed"] % 7) * np.cos(y / n * 2)
    on = np.floor(rr + 0.5) == r0
    img = (base + c["amp"] * on).astype("f4")
    got = call(tomopy.remove_ring, img[None].copy(), center_x=cx, center_y=cy, thresh=2.0, thresh_max=10.0,
               thresh_min=-10.0, theta_min=c["theta"], rwidth=3, int_mode=c["mode"])[0]
    left = np.abs(got - base)[on].mean()
    expect(left < 0.35 * abs(c["amp"]), "a ring of height %.2g is left at %.2g", c["amp"], left)
    away = (np.abs(rr - r0) > 2) & (rr < rmax - 9)
    if away.any():
        worst = np.abs(got - base)[away].max()
        expect(worst < 0.12, "pixels away from the ring changed by %.2g", worst)


CONST = st.fixed_dictionaries({
    "n": st.tuples(st.integers(1, 3), st.integers(10, 30), st.integers(10, 30)).map(list),
    "rw": st.integers(0, 1), "val": st.sampled_from([0.0, 1.0, -7.5, 250.0])})


def inner(c):
    """Away from the border (where the radial window leaves the image) a constant slice stays."""
    arr = np.full(tuple(c["n"]), c["val"], "f4")
    got = call(tomopy.remove_ring, arr, rwidth=c["rw"])
    n = min(c["n"][1:])
    y, x = np.mgrid[:c["n"][1], :c["n"][2]]
    rr = np.hypot(y - (c["n"][1] - 1) / 2, x - (c["n"][2] - 1) / 2)
    rmax = int((n + 1) / 2)
    keep = (rr < rmax - 2 * c["rw"] - 3) | (rr > rmax + 1)
    same(got[:, keep], arr[:, keep], "constant slice")


SUBS = [
    Sub("formula", CASE, formula, quick=9600, thorough=76800, shards=3,
        nontrivial=lambda c: c["kind"] != "const" and min(c["n"][1:]) > 3),
    Sub("ring", RING, ring, quick=1000, thorough=8000),
    Sub("inner", CONST, inner, quick=1000, thorough=8000),
]
