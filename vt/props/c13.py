"""C13: resampling, padding, trimming and stitching keep every sample in place."""
import numpy as np
import tomopy

from vt.core import far, dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, LAYOUTS, KINDS

RULE = "the result differs in size from the input"
ASSUMPTIONS = ["samples of an incomplete last bin are dropped by downsampling",
               "trimming: rows whose borders lie within 1e-6 of a column edge are not judged"]
DIMS = dims((1, 9), (1, 9), (1, 17))


SAMPLE = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "kind": st.sampled_from(KINDS), "level": st.integers(0, 4),
    "axis": st.integers(-3, 2), "lay": st.sampled_from(LAYOUTS), "type": st.sampled_from(["f4", "f8", "i4", "u1"]),
    "default": st.booleans()})


def sampling(c):
    n, L, ax = list(c["n"]), c["level"], c["axis"] % 3
    kw = {"level": L, "axis": c["axis"]}
    if c["default"]:
        kw, L, ax = {}, 1, 2
    n[ax] += 2 ** L - 1 if n[ax] < 2 ** L else 0
    v = data(tuple(n), c["seed"], c["kind"], "f8")
    if c["type"] not in ("f4", "f8"):
        v = np.round(np.abs(v) * 9) % 200
    a = layout(v.astype(c["type"]), c["lay"])
    x = np.moveaxis(np.asarray(a).astype("f4").astype("f8"), ax, -1)
    k = 2 ** L
    m = x.shape[-1] // k
    with unchanged(arr=a):
        down = call(tomopy.downsample, a, **kw)
        up = call(tomopy.upsample, a, **kw)
    want = x[..., :m * k].reshape(x.shape[:-1] + (m, k)).mean(-1)
    close(down, np.moveaxis(want, -1, ax), 1e-5, "downsample level %d axis %d" % (L, ax), scale=np.abs(x).max())
    same(up, np.moveaxis(np.repeat(x, k, -1), -1, ax).astype("f4"), "upsample level %d axis %d" % (L, ax))
    expect(down.dtype == up.dtype == np.float32, "element types %s %s", down.dtype, up.dtype)
    back = call(tomopy.downsample, up, **kw)
    close(back, np.asarray(a).astype("f4"), 1e-5, "downsample of upsample", scale=np.abs(x).max())


PAD = st.fixed_dictionaries({
    "n": st.lists(far(1, 9, 120, 20), min_size=1, max_size=4), "seed": seeds(), "axis": st.integers(-4, 3),
    "npad": st.one_of(st.none(), st.integers(0, 20)), "mode": st.sampled_from(["default", "constant", "edge"]),
    "val": st.sampled_from([None, 0, 1, 3.0, -2]), "ncore": st.sampled_from([None, 1, 2, 16]),
    "type": st.sampled_from(["f4", "f8", "i4", "i8", "bool", "c16", "c8", "u1", "u2", "i2", ">f4"]),
    "lay": st.sampled_from(LAYOUTS)})


def padding(c):
    n = tuple(c["n"])
    ax = c["axis"] % len(n)
    ax_arg = ax - len(n) if c["axis"] < 0 else ax
    v = data(n, c["seed"], "ints")
    if c["type"] in ("f4", "f8", ">f4"):
        v = v + 0.25
    if c["type"].startswith("c"):
        v = v * (1 + 2j)
    a = layout(v.astype(c["type"]), c["lay"])
    kw = {} if c["mode"] == "default" else {"mode": c["mode"]}
    val = 0
    if c["mode"] == "constant" and c["val"] is not None and not (c["type"][0] in "ub" and c["val"] < 0):
        kw["constant_values"] = val = c["val"]
    npad = c["npad"]
    if npad is not None:
        kw["npad"] = npad
    else:
        npad = int(np.ceil((n[ax] * np.sqrt(2) - n[ax]) / 2))
    with unchanged(arr=a):
        got = call(tomopy.pad, a, ax_arg, ncore=c["ncore"], **kw)
    idx = np.arange(-npad, n[ax] + npad)
    want = np.take(np.asarray(a), np.clip(idx, 0, n[ax] - 1), axis=ax)
    if c["mode"] != "edge":
        s = [slice(None)] * len(n)
        s[ax] = (idx < 0) | (idx >= n[ax])
        want[tuple(s)] = val
    same(got, want, "pad")
    expect(got.dtype == a.dtype, "element type %s, expected %s", got.dtype, a.dtype)
    expect(not np.shares_memory(got, a), "the result shares memory with the input")


STITCH = st.fixed_dictionaries({
    "n": dims((1, 6), (1, 4), (1, 12)), "seed": seeds(),
    "ov": st.integers(0, 12), "frac": st.sampled_from([0, 0, 0.3, -0.4]), "odd": st.booleans(),
    "rot": st.sampled_from(["default", "left", "right"]), "type": st.sampled_from(["f4", "f8"]),
    "old": st.booleans(), "kind": st.sampled_from(KINDS)})


def stitching(c):
    h, ny, nx = c["n"]
    ov = c["ov"] % (nx + 1)
    wide = data((h, ny, 2 * nx - ov), c["seed"], c["kind"], c["type"])
    rot = c["rot"]
    if rot == "right":
        first, second = wide[..., :nx], wide[..., nx - ov:][..., ::-1]
    else:
        first, second = wide[..., nx - ov:], wide[..., :nx][..., ::-1]
    scan = np.concatenate([first, second] + ([first[:1] * 0 - 99] if c["odd"] else []))
    kw = {} if rot == "default" else {"rotation": rot}
    if not (rot == "default" and ov == 0):
        kw["overlap"] = ov + c["frac"]
    f = tomopy.sino_360_t0_180 if c["old"] else tomopy.sino_360_to_180
    with unchanged(data=scan):
        got = call(f, scan, **kw)
    close(got, wide, 1e-6, "stitched sinogram (overlap %d, %s)" % (ov, rot))
    expect(got.dtype == wide.dtype, "element type %s", got.dtype)
    # inconsistent halves: each is kept outside the overlap, blended linearly inside
    s2 = scan.copy()
    s2[h:2 * h] += 1
    g2 = call(f, s2, **kw) - wide.astype("f8")
    w = np.full(1, 0.5) if ov == 1 else np.linspace(0, 1, ov)       # share of the far half
    add = np.zeros(2 * nx - ov)
    if rot == "right":
        add[nx:] = 1
        add[nx - ov:nx] = w
    else:
        add[:nx - ov] = 1
        add[nx - ov:nx] = w[::-1]
    close(g2, np.broadcast_to(add, g2.shape), 1e-5, "share of the second half", scale=1 + np.abs(wide).max())


TRIM = st.fixed_dictionaries({
    "n": DIMS, "seed": seeds(), "cen": st.floats(0, 1), "x": st.integers(-12, 12), "y": st.integers(-12, 12),
    "d": st.one_of(st.integers(1, 14), st.floats(1, 14)), "kind": st.sampled_from(KINDS)})


def trimming(c):
    nt, ny, nx = c["n"]
    a = data((nt, ny, nx), c["seed"], c["kind"])
    cen = c["cen"] * nx
    d = c["d"]
    with unchanged(data=a):
        got = call(tomopy.trim_sinogram, a, cen, c["x"], c["y"], d)
    expect(got.shape == (nt, ny, int(np.ceil(d))), "shape %s", got.shape)
    for m in range(nt):
        phi = m * np.pi / nt
        left = cen - d / 2 + c["y"] * np.cos(phi) + c["x"] * np.sin(phi)
        right = left + d
        if abs(left - round(left)) < 1e-6 or abs(right - round(right)) < 1e-6:
            continue
        i = int(np.clip(np.ceil(left), 0, nx))
        j = int(np.clip(np.floor(right), 0, nx))
        want = np.ones((ny, got.shape[2]), "f4")
        if j > i:
            want[:, :j - i] = a[m, :, i:j]
        same(got[m], want, "row %d of the trimmed sinogram" % m)


SUBS = [
    Sub("sampling", SAMPLE, sampling, quick=5000, thorough=60000, nontrivial=lambda c: c["level"] > 0),
    Sub("padding", PAD, padding, quick=6000, thorough=80000, nontrivial=lambda c: c["npad"] != 0),
    Sub("stitching", STITCH, stitching, quick=5000, thorough=60000, nontrivial=lambda c: c["ov"] > 0),
    Sub("trimming", TRIM, trimming, quick=4000, thorough=50000, nontrivial=lambda c: c["n"][0] > 1),
]
