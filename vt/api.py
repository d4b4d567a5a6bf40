"""Every public processing function with generated arguments: one entry per function,
used by the properties that hold for all of them (layout, state, memory, cores).

An operation has inputs(p) -> {name: float32 array} and run(a, p) -> result (array or
tuple).  p: {"n": [k1, k2, k3], "seed": int, "opt": int, "ncore": int}."""
import numpy as np
import tomopy

from vt import gen
from vt.core import data, st, seeds

FL = ("f4", "f8", ">f4")
NUM = FL + ("u1", "u2", "i4", "i8")
OPS = {}


class Op:
    def __init__(self, name, inputs, run, types, inplace, tol, procs, cost):
        self.name, self.inputs, self.run = name, inputs, run
        self.types = types              # element types of the first array
        self.inplace = inplace          # arrays the function works on in place
        self.tol = tol
        self.procs = procs              # distributes over processes
        self.cost = cost                # draws per unit of budget (slow ones less)
        self.jumps = False              # thresholds or ranks decided by the last bit
        self.width = len(inputs({"n": [5, 5, 5], "seed": 0, "opt": 0, "ncore": 1}))


def op(name, inputs, types=FL, inplace=(), tol=1e-5, procs=False, cost=1, jumps=False):
    def deco(f):
        OPS[name] = Op(name, inputs, f, types, inplace, tol, procs, cost)
        OPS[name].jumps = jumps
        return f
    return deco


def shape(p):
    return tuple(p["n"])


def one(kind="uniform", key="arr", add=0.0, mul=1.0):
    def f(p):
        return {key: (data(shape(p), p["seed"], kind) * np.float32(mul) + np.float32(add))}
    return f


def tomo_in(p):
    nt, ny, nx = shape(p)
    th = gen.angles(nt, gen.ANGLES[p["opt"] % 4], p["seed"])
    if p["opt"] % 5 == 4:       # angles in any element type
        th = (np.arange(nt) + 1 + 43 * (p["seed"] % 3 == 1) + 99991 * (p["seed"] % 3 == 2)).astype("f4")
    return {"tomo": data((nt, ny, nx), p["seed"], "ints") + np.float32(1), "theta": th,
            "center": gen.centers("each", p["seed"], ny, nx)}


for _alg in gen.ALGS:
    def _recon(a, p, alg=_alg):
        kw = {}
        nt, ny, nx = shape(p)
        if alg not in ("fbp", "gridrec"):
            kw["num_iter"] = 1 + p["opt"] % 3
        if alg in gen.BLOCKS and p["opt"] % 2:
            kw["num_block"] = 1 + p["opt"] % nt
        if alg in gen.REG and p["opt"] % 3 == 1:
            kw["reg_par"] = [0.1, 0.5]
        if alg == "gridrec":
            kw["filter_name"] = gen.FILTERS[p["opt"] % len(gen.FILTERS)]
        cen = gen.centers(gen.CENTERS[p["opt"] % 6], p["seed"], ny, nx)
        if p["seed"] % 2:
            cen = a["center"]
        if p["opt"] % 2 and alg != "gridrec":
            kw["num_gridx"], kw["num_gridy"] = 2 + p["opt"] % 9, 2 + p["seed"] % 9
        return tomopy.recon(a["tomo"], a["theta"], center=cen, algorithm=alg, ncore=p["ncore"],
                            **kw)
    op("recon-" + _alg, tomo_in, NUM, tol=1e-4)(_recon)


@op("recon-sinograms", tomo_in, NUM, tol=1e-4)
def _(a, p):
    t = a["tomo"]
    return tomopy.recon(t, gen.angles(t.shape[1], "half", p["seed"]), sinogram_order=True,
                        algorithm=("sirt", "gridrec", "art", "tv")[p["opt"] % 4], ncore=p["ncore"])


def init_in(p):
    d = tomo_in(p)
    nt, ny, nx = shape(p)
    d["init"] = data((ny, nx, nx), p["seed"] + 3, "ints") + np.float32(1)
    return d


@op("recon-init", init_in, NUM, inplace=("init",), tol=1e-4)
def _(a, p):
    return tomopy.recon(a["tomo"], a["theta"], algorithm=("mlem", "sirt", "art", "osem")[p["opt"] % 4],
                        init_recon=a["init"], num_iter=2, ncore=p["ncore"])


@op("recon-tikh-data", init_in, NUM, tol=1e-4)
def _(a, p):
    return tomopy.recon(a["tomo"], a["theta"], algorithm="tikh", reg_data=a["init"],
                        reg_par=[0.1, 0.3], num_iter=2, ncore=p["ncore"])


def obj_in(p):
    return {"obj": data(shape(p), p["seed"], "ints"),
            "theta": gen.angles(2 + p["opt"] % 4, "full", p["seed"])}


@op("project", obj_in, NUM, procs=True)
def _(a, p):
    o = a["obj"]
    return tomopy.project(o, a["theta"], pad=bool(p["opt"] % 2), emission=bool(p["opt"] % 3),
                          sinogram_order=bool(p["opt"] % 5 < 2), ncore=p["ncore"])


def cube_in(p):
    n = p["n"][0]
    s = (n, n, n)
    return {k: data(s, p["seed"] + i, "ints") for i, k in enumerate(("x", "y", "z"))} | {
        "theta": gen.angles(2 + p["opt"] % 4, "full", p["seed"])}


@op("project2", cube_in, NUM)
def _(a, p):
    return tomopy.project2(a["x"], a["y"], a["theta"], pad=bool(p["opt"] % 2), ncore=p["ncore"])


@op("project3", cube_in, NUM)
def _(a, p):
    return tomopy.project3(a["x"], a["y"], a["z"], a["theta"], axis=p["opt"] % 3, pad=False)


def vec_in(p):
    nt, n = p["n"][0], p["n"][1]
    return {k: data((nt, n, n), p["seed"] + i, "ints") for i, k in enumerate(("x", "y", "z"))} | {
        "theta": gen.angles(nt, "full", p["seed"])}


@op("vector", vec_in, NUM, tol=1e-4)
def _(a, p):
    return tomopy.vector(a["x"], a["theta"], num_iter=2)


@op("vector2", vec_in, NUM, tol=1e-4)
def _(a, p):
    return tomopy.vector2(a["x"], a["y"], a["theta"], a["theta"], num_iter=2)


@op("vector3", vec_in, NUM, tol=1e-4)
def _(a, p):
    return tomopy.vector3(a["x"], a["y"], a["z"], a["theta"], a["theta"], a["theta"], num_iter=2)


# ------------------------------------------------------------------ misc/corr

@op("gaussian_filter", one("ints"), NUM)
def _(a, p):
    return tomopy.gaussian_filter(a["arr"], sigma=0.5 + p["opt"] % 3, order=p["opt"] % 2,
                                  axis=p["opt"] % 3, ncore=p["ncore"])


@op("median_filter", one("ints"), NUM)
def _(a, p):
    return tomopy.median_filter(a["arr"], size=1 + p["opt"] % 4, axis=p["opt"] % 3, ncore=p["ncore"])


@op("sobel_filter", one("ints"), NUM)
def _(a, p):
    return tomopy.sobel_filter(a["arr"], axis=p["opt"] % 3, ncore=p["ncore"])


@op("remove_outlier", one("ints"), NUM)
def _(a, p):
    return tomopy.remove_outlier(a["arr"], 1 + p["opt"] % 3, size=2 + p["opt"] % 3,
                                 axis=p["opt"] % 3, ncore=p["ncore"])


@op("remove_outlier1d", one("ints"), NUM)
def _(a, p):
    return tomopy.remove_outlier1d(a["arr"], 1 + p["opt"] % 3, size=2 + p["opt"] % 3,
                                   axis=p["opt"] % 3, ncore=p["ncore"])


@op("median_filter3d", one("ints"), NUM)
def _(a, p):
    return tomopy.median_filter3d(a["arr"], size=3 + 2 * (p["opt"] % 2), ncore=p["ncore"])


@op("remove_outlier3d", one("ints"), NUM)
def _(a, p):
    return tomopy.remove_outlier3d(a["arr"], 1 + p["opt"] % 3, size=3 + 2 * (p["opt"] % 2),
                                   ncore=p["ncore"])


@op("remove_nan", one("ints"), NUM, inplace=("arr",))
def _(a, p):
    return tomopy.remove_nan(a["arr"], val=2.0, ncore=p["ncore"])


@op("remove_neg", one("ints", add=-2), FL + ("i4", "i8"), inplace=("arr",))
def _(a, p):
    return tomopy.remove_neg(a["arr"], val=3.0, ncore=p["ncore"])


@op("adjust_range", one("ints"), NUM, inplace=("arr",))
def _(a, p):
    return tomopy.adjust_range(a["arr"], dmin=1, dmax=3)


@op("circ_mask", one("ints"), NUM, inplace=("arr",))
def _(a, p):
    return tomopy.circ_mask(a["arr"], axis=p["opt"] % 3, ratio=0.9, val=4.0, ncore=p["ncore"])


@op("remove_ring", one("ints"), NUM)
def _(a, p):
    return tomopy.remove_ring(a["arr"], thresh=1.0 + p["opt"] % 3, thresh_max=5.0, thresh_min=-1.0,
                              rwidth=1 + p["opt"] % 6, theta_min=10 + p["opt"],
                              int_mode=("WRAP", "REFLECT")[p["opt"] % 2], ncore=p["ncore"])


def nonfinite_in(p):
    a = data(shape(p), p["seed"], "ints")
    a[tuple(np.random.default_rng(p["seed"]).integers(0, s) for s in a.shape)] = np.nan
    return {"arr": a}


@op("median_filter_nonfinite", nonfinite_in, FL, inplace=("arr",))
def _(a, p):
    return tomopy.misc.corr.median_filter_nonfinite(a["arr"], size=3)


def mask_in(p):
    m = np.random.default_rng(p["seed"] + 1).random(shape(p)) < 0.3
    return {"arr": data(shape(p), p["seed"], "ints"), "mask": m}


@op("inpainter_morph", mask_in, NUM)
def _(a, p):
    return tomopy.inpainter_morph(a["arr"], a["mask"], size=2 + p["opt"] % 3, iterations=p["opt"] % 3,
                                  inpainting_type=("mean", "median")[p["opt"] % 2],
                                  axis=(None, 0, 1, 2)[p["opt"] % 4], ncore=p["ncore"])


@op("enhance_projs_aps_1id", one("uniform", add=1), ("f4", "f8"), tol=1e-4, cost=8, procs=True)
def _(a, p):
    return tomopy.misc.corr.enhance_projs_aps_1id(a["arr"], median_ks=3, ncore=p["ncore"])


# ---------------------------------------------------------------- misc/morph

@op("pad", one("ints"), NUM)
def _(a, p):
    return tomopy.pad(a["arr"], axis=p["opt"] % 3, npad=(None, 0, 1, 3)[p["opt"] % 4],
                      mode=("constant", "edge")[p["opt"] % 2], ncore=p["ncore"])


@op("downsample", one("ints"), NUM)
def _(a, p):
    return tomopy.downsample(a["arr"], level=p["opt"] % 2, axis=p["opt"] % 3)


@op("upsample", one("ints"), NUM)
def _(a, p):
    return tomopy.upsample(a["arr"], level=p["opt"] % 3, axis=p["opt"] % 3)


@op("trim_sinogram", one("ints"), NUM)
def _(a, p):
    nx = p["n"][2]
    return tomopy.trim_sinogram(a["arr"], nx / 2, 1, -1, nx // 2)


@op("sino_360_to_180", one("ints"), FL)
def _(a, p):
    return tomopy.sino_360_to_180(a["arr"], overlap=p["opt"] % p["n"][2],
                                  rotation=("left", "right")[p["opt"] % 2])


# ------------------------------------------------------------ prep/normalize

def norm_in(p):
    nt, ny, nx = shape(p)
    return {"arr": data((nt, ny, nx), p["seed"], "ints") + np.float32(3),
            "flat": data((4, ny, nx), p["seed"] + 1, "ints") + np.float32(8),
            "dark": data((3, ny, nx), p["seed"] + 2, "ints")}


@op("normalize", norm_in, NUM)
def _(a, p):
    return tomopy.normalize(a["arr"], a["flat"], a["dark"], cutoff=(None, 0.7)[p["opt"] % 2],
                            averaging=("mean", "median")[p["opt"] % 3 == 0], ncore=p["ncore"])


@op("normalize_nf", norm_in, NUM)
def _(a, p):
    return tomopy.normalize_nf(a["arr"], a["flat"], a["dark"], [0, p["n"][0] - 1],
                               cutoff=(None, 0.7)[p["opt"] % 2], ncore=p["ncore"])


@op("normalize_bg", one("ints", add=1), NUM, procs=True)
def _(a, p):
    return tomopy.normalize_bg(a["arr"], air=1 + p["opt"] % p["n"][2], ncore=p["ncore"])


@op("normalize_roi", one("ints", add=1), NUM, procs=True)
def _(a, p):
    return tomopy.normalize_roi(a["arr"], roi=[0, 0, 2, 2], ncore=p["ncore"])


@op("minus_log", one("ints", add=1), NUM)
def _(a, p):
    return tomopy.minus_log(a["arr"], ncore=p["ncore"])


@op("retrieve_phase", one("uniform", add=1), FL, tol=1e-4, procs=True)
def _(a, p):
    return tomopy.retrieve_phase(a["arr"], pixel_size=1e-4 * (1 + p["opt"] % 5), dist=5 + p["opt"],
                                 energy=20, alpha=1e-3, pad=bool(p["opt"] % 2), ncore=p["ncore"])


# --------------------------------------------------------------- prep/stripe

def _stripe(name, fn, kw, add=1.0, tol=2e-4, types=FL, jumps=False):
    @op(name, lambda p: {"tomo": data((max(p["n"][0], 12), p["n"][1], max(p["n"][2], 12)),
                                      p["seed"], "uniform") + np.float32(add)},
        types, tol=tol, procs=True, jumps=jumps)
    def _(a, p):
        return fn(a["tomo"], ncore=p["ncore"], **kw(p))


_stripe("remove_stripe_fw", tomopy.remove_stripe_fw,
        lambda p: dict(level=1 + p["opt"] % 2, wname=("db5", "haar")[p["opt"] % 2],
                       pad=bool(p["opt"] % 3)))
_stripe("remove_stripe_ti", tomopy.remove_stripe_ti,
        lambda p: dict(nblock=p["opt"] % 3, alpha=1.5), tol=5e-3)
_stripe("remove_stripe_sf", tomopy.remove_stripe_sf, lambda p: dict(size=1 + p["opt"] % 6),
        types=FL)
_stripe("remove_stripe_based_sorting", tomopy.remove_stripe_based_sorting,
        lambda p: dict(size=(None, 3, 5)[p["opt"] % 3], dim=1 + p["opt"] % 2))
_stripe("remove_stripe_based_filtering", tomopy.remove_stripe_based_filtering,
        lambda p: dict(sigma=3, size=5, dim=1), tol=3e-3, jumps=True)
_stripe("remove_stripe_based_fitting", tomopy.remove_stripe_based_fitting,
        lambda p: dict(order=1 + p["opt"] % 3, sigma=(5, 20)), tol=3e-3)
_stripe("remove_large_stripe", tomopy.remove_large_stripe,
        lambda p: dict(snr=3, size=5, norm=bool(p["opt"] % 2)), jumps=True)
_stripe("remove_dead_stripe", tomopy.remove_dead_stripe,
        lambda p: dict(snr=3, size=5, norm=bool(p["opt"] % 2)), jumps=True)
_stripe("remove_all_stripe", tomopy.remove_all_stripe,
        lambda p: dict(snr=3, la_size=5, sm_size=3), jumps=True)
_stripe("remove_stripe_based_interpolation", tomopy.remove_stripe_based_interpolation,
        lambda p: dict(snr=3, size=5, norm=bool(p["opt"] % 2)), jumps=True)


@op("stripes_detect3d", one("uniform"), NUM, tol=1e-4)
def _(a, p):
    return tomopy.prep.stripe.stripes_detect3d(a["arr"], size=1 + p["opt"] % (p["n"][0] // 2),
                                               radius=1 + p["opt"] % 3, ncore=p["ncore"])


@op("stripes_mask3d", one("uniform"), FL)
def _(a, p):
    nt, ny, nx = shape(p)
    return tomopy.prep.stripe.stripes_mask3d(
        a["arr"], threshold=0.6, min_stripe_length=1 + p["opt"] % (nt - 1),
        min_stripe_depth=p["opt"] % ny, min_stripe_width=1 + p["opt"] % (nx - 1),
        sensitivity_perc=10 + p["opt"], ncore=p["ncore"])


# ------------------------------------------------------------ prep/alignment

@op("distortion_correction_proj", one("uniform"), FL, tol=1e-4, procs=True)
def _(a, p):
    return tomopy.prep.alignment.distortion_correction_proj(
        a["arr"], p["n"][2] / 2, p["n"][1] / 2, [1.0, 1e-2, 1e-3], ncore=p["ncore"])


@op("distortion_correction_sino", one("uniform"), FL, tol=1e-4)
def _(a, p):
    return tomopy.prep.alignment.distortion_correction_sino(
        a["arr"], p["opt"] % p["n"][1], p["n"][2] / 2, p["n"][1] / 2, [1.0, 1e-2, 1e-3])


@op("blur_edges", one("uniform"), ("f4", "f8"))
def _(a, p):
    return tomopy.prep.alignment.blur_edges(a["arr"], 0.1, 0.9)


@op("shift_images", one("uniform"), ("f4", "f8"), inplace=("arr",), tol=1e-3)
def _(a, p):
    n = p["n"][0]
    return tomopy.prep.alignment.shift_images(a["arr"], np.full(n, 1.25), np.full(n, -0.5))


# ----------------------------------------------------------- recon/rotation

@op("find_center_vo", lambda p: {"tomo": data((12, 2, 16), p["seed"], "uniform")}, FL, tol=1e-6,
    procs=True, cost=6)
def _(a, p):
    return np.float64(tomopy.find_center_vo(a["tomo"], ind=0, smin=-4, smax=4, ncore=p["ncore"]))


@op("find_center_pc", lambda p: {"a": data((8, 12), p["seed"], "uniform"),
                                 "b": data((8, 12), p["seed"] + 1, "uniform")}, ("f4", "f8"), tol=1e-6)
def _(a, p):
    return np.float64(tomopy.find_center_pc(a["a"], a["b"], tol=0.5))


@op("find_center", tomo_in, NUM, tol=1e-6)
def _(a, p):
    return tomopy.find_center(a["tomo"], a["theta"], tol=1.0)


@op("mask_empty_slice", one("ints", add=1), ("f4", "f8"))
def _(a, p):
    return tomopy.mask_empty_slice(a["arr"])


# --------------------------------------------------------------------- sim

@op("propagate_tie", lambda p: {"mu": data(shape(p), p["seed"], "uniform"),
                                "delta": data(shape(p), p["seed"] + 1, "uniform")}, NUM, tol=1e-3)
def _(a, p):
    return tomopy.propagate_tie(a["mu"], a["delta"], 0.5, 2.0)


@op("calc_intensity", lambda p: {"probe": data((3, 3), p["seed"], "uniform"),
                                 "proj": data((7, 8), p["seed"] + 1, "uniform")}, FL, tol=1e-4)
def _(a, p):
    return tomopy.calc_intensity(a["probe"], a["proj"], mode=("near", "far")[p["opt"] % 2])


@op("add_drift", one("uniform"), FL)
def _(a, p):
    return tomopy.add_drift(a["arr"])


def _rng(name, fn, inplace=(), types=FL):
    @op(name, one("uniform", add=1), types, inplace=inplace)
    def _(a, p):
        np.random.seed(p["seed"] % 1000)
        return fn(a["arr"])


_rng("add_rings", tomopy.add_rings)
_rng("add_zingers", tomopy.add_zingers)
_rng("add_gaussian", tomopy.add_gaussian, ("arr",))
_rng("add_salt_pepper", tomopy.add_salt_pepper, ("arr",))
_rng("add_poisson", tomopy.add_poisson)
_rng("add_noise", tomopy.prep.alignment.add_noise)


def cases(names=None, ncores=(1, 2, 3)):
    names = [n for n in (names or OPS)]
    w = [n for n in names for _ in range(max(1, 8 // OPS[n].cost))]
    return st.fixed_dictionaries({
        "op": st.sampled_from(w),
        "n": st.tuples(st.integers(4, 8), st.integers(3, 6), st.integers(5, 11)).map(list),
        "seed": seeds(), "opt": st.integers(0, 59), "ncore": st.sampled_from(list(ncores)),
    })


def results(r):
    r = r if isinstance(r, tuple) else (r,)
    return [np.asarray(x) for x in r]
