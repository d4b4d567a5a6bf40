"""C21: the compiled code never touches memory outside its arrays."""
import os
import sys

import numpy as np
import tomopy

from vt import api, gen, guard
from vt.core import dims, Sub, st, data, call, same, expect, seeds, layout, LAYOUTS

RULE = "a call that reaches compiled code with arrays of more than one value"
ASSUMPTIONS = [
    "searched with the C code built for AddressSanitizer (heap, stack, globals; array bounds, shifts, division by zero) "
    "and every shared-memory array in a mapping of its own between inaccessible pages",
    "a request may be rejected by an exception: only what the compiled code does with the memory is judged here",
    "angles and rotation axes are finite numbers; data may hold NaN and infinities",
    "uninitialised memory: results are compared with malloc filling new blocks with two different bytes",
]


def quiet(f):
    """Rejection is fine; so are numbers that overflow.  A crash ends the process and is the violation."""
    sys.stdout.flush()
    keep, dev = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(dev, 1)
    try:
        with np.errstate(all="ignore"):
            return f()
    except Exception:
        return None
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(dev)


# ------------------------------------------------------------- any function

C_OPS = [n for n, o in api.OPS.items() if n.startswith(("recon", "project", "vector", "remove_outlier3d", "median_filter3d", "remove_ring",
                                                       "inpainter", "downsample", "upsample", "normalize_bg", "remove_stripe_sf",
                                                       "stripes_", "find_center", "remove_outlier", "remove_nan"))]
ANY = st.fixed_dictionaries({
    "op": st.sampled_from(C_OPS), "n": dims((1, 9), (1, 6), (1, 12)),
    "seed": seeds(), "opt": st.integers(0, 59), "ncore": st.sampled_from([1, 2, 5]), "lay": st.sampled_from(("C", "C") + tuple(LAYOUTS)),
    "bad": st.sampled_from([None, None, None, "nan", "inf", "huge", "zero"])})


def spoil(a, how, seed):
    if how and a.dtype.kind == "f" and a.size:
        r = np.random.default_rng(seed)
        with np.errstate(all="ignore"):
            v = {"nan": np.nan, "inf": np.inf, "huge": 3e38, "zero": 0.0}[how]
            a = a.copy()
            a[r.random(a.shape) < (1.0 if how == "zero" else 0.2)] = v
    return a


def anything(c):
    guard.guarded()
    o = api.OPS[c["op"]]

    def go():
        a = o.inputs(c)
        k = list(a)[0]
        a[k] = spoil(a[k], c["bad"], c["seed"])
        a = {n: layout(v, c["lay"]) for n, v in a.items()}
        return o.run(a, c)
    quiet(go)


# ----------------------------------------------------------- reconstruction

small = st.integers(1, 12)
REC = st.fixed_dictionaries({
    "alg": st.sampled_from(gen.ALGS), "nt": st.integers(1, 9), "ny": st.integers(1, 4), "nx": st.integers(1, 14),
    "akind": st.sampled_from(gen.ANGLES + ("wild", "axes")), "ckind": st.sampled_from(gen.CENTERS + ("far", "edge", "wild")),
    "seed": seeds(), "iters": st.integers(0, 3), "grid": st.one_of(st.none(), st.tuples(small, small).map(list)),
    "blocks": st.sampled_from([None, 0, 1, 2, 3, 9, 10]), "order": st.sampled_from([None, "perm", "reverse", "short", "long", "beyond", "negative"]),
    "init": st.sampled_from([None, None, "ok", "small", "flat"]), "reg": st.sampled_from([None, [0.3], [0.5, 0.1], [-1, 1e-3], []]),
    "regdata": st.booleans(), "bad": st.sampled_from([None, None, None, "nan", "inf", "huge", "zero"]), "ncore": st.sampled_from([1, 3]),
    "nchunk": st.sampled_from([None, 0, 1, 2]), "filter": st.sampled_from(gen.FILTERS + ("custom", "custom2d", "no such filter")),
    "fpar": st.sampled_from([None, [0.3, 3.0], [0.2], "short", "exact"])})


def recon(c):
    guard.guarded()
    nt, ny, nx, alg, seed = c["nt"], c["ny"], c["nx"], c["alg"], c["seed"]
    r = np.random.default_rng(seed)
    if c["akind"] == "wild":
        th = r.choice([0.0, 1e-7, 1e4, -1e4, 3.1415927, 6.2831855, -6.2831855, 1.5707964, 700.5], nt).astype("f4")
    elif c["akind"] == "axes":
        th = (np.arange(nt) * np.pi / 4 + r.choice([0, 1e-6, -1e-6], nt)).astype("f4")
    else:
        th = gen.angles(nt, c["akind"], seed)
    ck = c["ckind"]
    cen = {"far": lambda: float(r.choice([-3.0, -50.0, nx + 7.0, 4.0 * nx])), "edge": lambda: float(r.choice([0.0, nx, nx - 1, 0.5, nx - 0.5])),
           "wild": lambda: r.uniform(-2 * nx, 3 * nx, ny).astype("f4")}.get(ck, lambda: gen.centers(ck, seed, ny, nx))()
    t = spoil(data((nt, ny, nx), seed, "uniform"), c["bad"], seed)
    kw = {"num_iter": c["iters"]} if alg not in ("fbp", "gridrec") else {}
    gx, gy = c["grid"] or (nx, nx)
    if c["grid"]:
        kw["num_gridx"], kw["num_gridy"] = gx, gy
    if alg in gen.BLOCKS and c["blocks"] is not None:
        kw["num_block"] = c["blocks"]
        o = c["order"]
        if o:
            kw["ind_block"] = {"perm": r.permutation(nt), "reverse": np.arange(nt)[::-1], "short": np.arange(max(nt - 1, 0)),
                               "long": np.arange(nt + 2), "beyond": np.arange(nt) + 1, "negative": np.arange(nt) - 1}[o].astype("i4")
    if alg in gen.REG and c["reg"] is not None:
        kw["reg_par"] = c["reg"]
    if alg == "tikh" and c["regdata"]:
        kw["reg_data"] = data((ny, gx, gy) if seed % 3 else (ny, gx, max(gy - 1, 1)), seed, "uniform")
    if alg == "gridrec":
        if c["filter"].startswith("custom"):
            kw["filter_name"] = c["filter"]
            n = 1 << int(np.ceil(np.log2(max(nx, 2))))
            m = {"short": n // 2, "exact": n}.get(c["fpar"] if isinstance(c["fpar"], str) else "", n * 2)
            kw["filter_par"] = np.ones(m if c["filter"] == "custom" else (nt, m), "f4")
        else:
            kw["filter_name"] = c["filter"]
            if isinstance(c["fpar"], list):
                kw["filter_par"] = c["fpar"]
    if c["init"] and alg not in ("gridrec",):
        s = {"ok": (ny, gx, gy), "small": (ny, max(gx - 1, 1), gy), "flat": (gx, gy)}[c["init"]]
        kw["init_recon"] = data(s, seed + 1, "uniform")
    quiet(lambda: tomopy.recon(t, th, center=cen, algorithm=alg, ncore=c["ncore"], nchunk=c["nchunk"], **kw))
    quiet(lambda: tomopy.recon(np.swapaxes(t, 0, 1), th, center=cen, algorithm=alg, sinogram_order=True, ncore=c["ncore"], **kw))


# ------------------------------------------------- projection and the others

PRO = st.fixed_dictionaries({
    "what": st.sampled_from(["project", "project", "project2", "project3", "vector", "vector2", "vector3"]), "n": st.tuples(st.integers(1, 5), small, small).map(list),
    "nt": st.integers(1, 5), "akind": st.sampled_from(gen.ANGLES + ("wild",)), "ckind": st.sampled_from(["default", "scalar", "each", "far", "wild"]),
    "seed": seeds(), "pad": st.booleans(), "axes": st.tuples(*[st.integers(-1, 3)] * 3).map(list), "ncore": st.sampled_from([1, 3]),
    "cube": st.booleans(), "iters": st.integers(1, 2)})


def projections(c):
    guard.guarded()
    ny, nx, nz = c["n"]
    if c["cube"] or c["what"] in ("vector", "vector2", "vector3", "project3"):
        ny = nx = nz = c["n"][1]
    r = np.random.default_rng(c["seed"])
    if c["what"] == "vector":
        ny = c["n"][0]
    dx = nx
    th = gen.angles(c["nt"], c["akind"], c["seed"]) if c["akind"] != "wild" else \
        r.choice([0.0, 1e-7, 1e4, -1e4, 3.1415927, 6.2831855, 1.5707964], c["nt"]).astype("f4")
    cen = {"far": lambda: float(r.choice([-3.0, -50.0, dx + 7.0])), "wild": lambda: r.uniform(-2 * dx, 3 * dx, ny).astype("f4")}.get(
        c["ckind"], lambda: gen.centers(c["ckind"], c["seed"], ny, dx))()
    o = [data((ny, nx, nz), c["seed"] + k, "uniform") for k in range(3)]
    kw = dict(center=cen, pad=c["pad"])
    w = c["what"]
    if w == "project":
        quiet(lambda: tomopy.project(o[0], th, ncore=c["ncore"], **kw))
    elif w == "project2":
        quiet(lambda: tomopy.project2(o[0], o[1], th, **kw))
    elif w == "project3":
        quiet(lambda: tomopy.project3(*o, th, axis=c["axes"][0], **kw))
    else:
        d = [data((c["nt"], ny, nx), c["seed"] + k, "uniform") for k in range(3)]
        if w == "vector":
            quiet(lambda: tomopy.vector(d[0], th, center=cen, num_iter=c["iters"]))
        elif w == "vector2":
            quiet(lambda: tomopy.vector2(d[0], d[1], th, th[::-1], center1=cen, num_iter=c["iters"], axis1=c["axes"][0], axis2=c["axes"][1]))
        else:
            quiet(lambda: tomopy.vector3(*d, th, th[::-1], th, center2=cen, num_iter=c["iters"],
                                         **{"axis%d" % (k + 1): v for k, v in enumerate(c["axes"])}))


MISC = st.fixed_dictionaries({
    "what": st.sampled_from(["ring", "ring", "ring", "inpaint", "inpaint", "median3d", "outlier3d", "detect", "mask", "sf", "bg", "down", "up"]),
    "n": dims((1, 9), (1, 14), (1, 14)), "seed": seeds(), "bad": st.sampled_from([None, None, "nan", "inf", "zero"]),
    "k": st.integers(0, 11), "m": st.integers(0, 40), "axis": st.sampled_from([None, 0, 1, 2, -1]), "x": st.floats(-4, 18), "y": st.floats(-4, 18),
    "cen": st.booleans(), "thresh": st.sampled_from([0.0, 0.05, 0.3, 10.0]), "mode": st.booleans(), "ncore": st.sampled_from([1, 3]),
    "type": st.sampled_from(["f4", "u2"])})


def misc(c):
    guard.guarded()
    a = spoil(data(tuple(c["n"]), c["seed"], "uniform"), c["bad"], c["seed"])
    k, m, w, nc = c["k"], c["m"], c["what"], c["ncore"]
    if w == "ring":
        kw = {"center_x": c["x"], "center_y": c["y"]} if c["cen"] else {}
        f = lambda: tomopy.remove_ring(a, thresh=c["thresh"], thresh_max=0.9, thresh_min=0.1, rwidth=k * 2, theta_min=m * 5,  # noqa: E731
                                       int_mode=("WRAP", "REFLECT")[c["mode"]], ncore=nc, nchunk=(None, 1, 3)[k % 3], **kw)
    elif w == "inpaint":
        msk = np.random.default_rng(c["seed"]).random(a.shape) < (0.02 + m / 40)
        f = lambda: tomopy.inpainter_morph(a, msk, size=k, iterations=m % 4, inpainting_type=("mean", "median", "random")[m % 3],  # noqa: E731
                                           axis=c["axis"], ncore=nc)
    elif w in ("median3d", "outlier3d"):
        b = a if c["type"] == "f4" else (np.nan_to_num(a, posinf=3, neginf=0) * 1000).astype("u2")
        g = tomopy.median_filter3d if w == "median3d" else lambda *x, **y: tomopy.remove_outlier3d(x[0], c["thresh"], **y)
        f = lambda: g(b, size=k, ncore=nc)  # noqa: E731
    elif w == "detect":
        f = lambda: tomopy.prep.stripe.stripes_detect3d(a, size=k, radius=m % 9, ncore=nc)  # noqa: E731
    elif w == "mask":
        f = lambda: tomopy.prep.stripe.stripes_mask3d(a, threshold=c["thresh"] + 0.3, min_stripe_length=k, min_stripe_depth=m % 12,  # noqa: E731
                                                      min_stripe_width=m % 7, sensitivity_perc=m * 3.0, ncore=nc)
    elif w == "sf":
        f = lambda: tomopy.remove_stripe_sf(a, size=k, ncore=1)  # noqa: E731
    elif w == "bg":
        f = lambda: tomopy.normalize_bg(a, air=m % 16, ncore=1)  # noqa: E731
    else:
        g = tomopy.downsample if w == "down" else tomopy.upsample
        f = lambda: g(a, level=k % 5, axis=2 if c["axis"] is None else c["axis"])  # noqa: E731
    quiet(f)


# ------------------------------------------------------ uninitialised memory

UNI = api.cases([n for n in C_OPS if not api.OPS[n].procs], ncores=(1, 2))


def uninit(c):
    o = api.OPS[c["op"]]
    res = []
    for byte in (0xFF, 0x3F):              # NaN and 0.747 as single precision
        try:
            guard.fill(byte)
            res.append(api.results(call(o.run, {k: v.copy() for k, v in o.inputs(c).items()}, c)))
        finally:
            guard.fill(0)
    expect(len(res[0]) == len(res[1]), "number of results")
    for x, y in zip(*res):
        same(x, y, "%s with other contents of fresh memory" % c["op"])


nt_any = lambda c: c["n"][0] * c["n"][1] * c["n"][2] > 1  # noqa: E731
SUBS = [
    Sub("anything", ANY, anything, quick=1800, thorough=40000, shards=2, asan=True, nontrivial=nt_any),
    Sub("recon", REC, recon, quick=3000, thorough=60000, shards=3, asan=True, nontrivial=lambda c: c["nx"] > 1),
    Sub("projections", PRO, projections, quick=1200, thorough=20000, shards=1, asan=True, nontrivial=lambda c: c["n"][1] > 1),
    Sub("misc", MISC, misc, quick=2000, thorough=40000, shards=2, asan=True, nontrivial=nt_any),
    Sub("uninit", UNI, uninit, quick=600, thorough=10000, shards=1, nontrivial=nt_any),
]
