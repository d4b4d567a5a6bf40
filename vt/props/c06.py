"""C06: invalid requests are rejected and leave nothing behind."""
import os

import numexpr as ne
import numpy as np
import tomopy
from tomopy.prep import alignment, stripe
from tomopy.misc import corr
from tomopy.util import mproc

from vt import api, gen
from vt.core import Sub, st, data, call, close, same, expect, seeds, rejects, Violation

RULE = "an invalid or failing request together with a probe call before and after it"
ASSUMPTIONS = [
    "any exception counts as a rejection where the documentation names none; where it names "
    "ValueError (or NotImplementedError) this is required",
    "state: environment variables, numexpr threads, floating point error handling, working folder "
    "and the result of an arbitrary valid call",
]

INVALID = []


def bad(exc=Exception):
    def deco(f):
        INVALID.append((f.__name__, exc, f))
        return f
    return deco


def tomo(c):
    return data(tuple(c["n"]), c["seed"], "ints") + np.float32(1)


def th(n, c):
    return gen.angles(n, "half", c["seed"])


def rec(c, t, theta=None, **kw):
    return tomopy.recon(t, th(t.shape[0], c) if theta is None else theta, ncore=c["ncore"], **kw)


IT = [a for a in gen.ALGS if a not in ("gridrec", "fbp")]


@bad(ValueError)
def unknown_algorithm(c, t):
    return rec(c, t, algorithm=("sart", "", "Art", "fbp2", "c_art")[c["k"] % 5])


@bad(ValueError)
def algorithm_of_wrong_type(c, t):
    return rec(c, t, algorithm=(5, None, [1])[c["k"] % 3])


@bad(ValueError)
def unknown_option(c, t):
    return rec(c, t, algorithm=gen.ALGS[c["k"] % 14], **{("num_iters", "foo", "blocks")[c["k"] % 3]: 1})


@bad(ValueError)
def option_of_another_algorithm(c, t):
    a, o = [("art", "num_block"), ("sirt", "reg_par"), ("gridrec", "num_iter"), ("fbp", "num_iter"),
            ("mlem", "ind_block"), ("tv", "num_block"), ("osem", "filter_name"), ("grad", "reg_data"),
            ("bart", "filter_par")][c["k"] % 9]
    return rec(c, t, algorithm=a, **{o: 1})


@bad(ValueError)
def number_of_angles(c, t):
    n = t.shape[0] + (1, -1, 3, 2)[c["k"] % 4]
    return rec(c, t, th(n, c), algorithm=gen.ALGS[c["k"] % 14])


@bad(ValueError)
def number_of_axes(c, t):
    n = t.shape[1] + (1, 2, -1)[c["k"] % 3]
    return rec(c, t, center=np.full(n, 4.0), algorithm=gen.ALGS[c["k"] % 14])


@bad(ValueError)
def number_of_block_indices(c, t):
    n = t.shape[0] + (1, -1)[c["k"] % 2]
    return rec(c, t, algorithm=gen.BLOCKS[c["k"] % 4], num_block=2, ind_block=np.arange(n))


@bad(ValueError)
def block_index_out_of_range(c, t):
    i = np.arange(t.shape[0])
    i[c["k"] % i.size] = (t.shape[0], -1, 10**6)[c["k"] % 3]
    return rec(c, t, algorithm=gen.BLOCKS[c["k"] % 4], num_block=2, ind_block=i)


@bad(ValueError)
def no_blocks(c, t):
    return rec(c, t, algorithm=gen.BLOCKS[c["k"] % 4], num_block=(0, -1)[c["k"] % 2])


@bad(ValueError)
def initial_guess_shape(c, t):
    s = [t.shape[1], t.shape[2], t.shape[2]]
    s[c["k"] % 3] += 1
    return rec(c, t, algorithm=IT[c["k"] % len(IT)], init_recon=np.ones(s, "f4"))


@bad(ValueError)
def initial_guess_other_grid(c, t):
    s = [t.shape[1], t.shape[2], t.shape[2]]
    return rec(c, t, algorithm=IT[c["k"] % len(IT)], num_gridx=s[1] + 2, init_recon=np.ones(s, "f4"))


@bad(ValueError)
def reference_shape(c, t):
    return rec(c, t, algorithm="tikh", reg_data=np.ones((t.shape[1], t.shape[2] + 1, t.shape[2]), "f4"))


@bad(ValueError)
def gridrec_grid_too_large(c, t):
    return rec(c, t, algorithm="gridrec", **{("num_gridx", "num_gridy")[c["k"] % 2]: 17 + 16})


@bad(ValueError)
def custom_filter_too_short(c, t):
    n = 8 if c["k"] % 2 else 8 * t.shape[0]
    return rec(c, t, algorithm="gridrec", filter_name=("custom2d", "custom")[c["k"] % 2],
               filter_par=np.ones(n - 1, "f4"))


@bad()
def flat_data(c, t):
    return rec(c, t[0], algorithm=gen.ALGS[c["k"] % 14])


@bad(ValueError)
def project_axes(c, t):
    return tomopy.project(t, th(3, c), center=np.full(t.shape[0] + (1, -1, 2)[c["k"] % 3], 4.0))


@bad(ValueError)
def project2_axes(c, t):
    n = t.shape[2]
    v = np.ones((n, n, n), "f4")
    return tomopy.project2(v, v, th(3, c), center=np.full(n + 1, 4.0))


@bad(ValueError)
def project3_axes(c, t):
    n = t.shape[2]
    v = np.ones((n, n, n), "f4")
    return tomopy.project3(v, v, v, th(3, c), center=np.full(n - 1, 4.0), axis=c["k"] % 3)


@bad(ValueError)
def vector_angles(c, t):
    return tomopy.vector(t, th(t.shape[0] + 1 - 2 * (c["k"] % 2), c))


@bad(ValueError)
def vector_axes(c, t):
    return tomopy.vector(t, th(t.shape[0], c), center=np.full(t.shape[1] + 1, 4.0))


@bad(ValueError)
def vector_sizes(c, t):
    n = t.shape[2]
    a = np.ones((4, n, n), "f4")
    b = np.ones((4, n, n) if c["k"] % 2 else (5, n, n), "f4")
    tb = th(b.shape[0] + (c["k"] % 2), c)
    if c["k"] % 4 < 2:
        return tomopy.vector2(a, b, th(4, c), tb)
    return tomopy.vector3(a, a, b, th(4, c), th(4, c), tb)


@bad(ValueError)
def vector_not_square(c, t):
    a = np.ones((4, t.shape[2] + 1, t.shape[2]), "f4")
    if c["k"] % 2:
        return tomopy.vector2(a, a, th(4, c), th(4, c))
    return tomopy.vector3(a, a, a, th(4, c), th(4, c), th(4, c))


@bad(ValueError)
def pad_mode(c, t):
    return tomopy.pad(t, axis=c["k"] % 3, mode=("reflect", "wrap", 3, "")[c["k"] % 4])


@bad(ValueError)
def pad_option(c, t):
    if c["k"] % 2:
        return tomopy.pad(t, axis=0, mode="edge", constant_values=1)
    return tomopy.pad(t, axis=0, mode="constant", foo=1)


@bad(ValueError)
def stitch_side(c, t):
    return tomopy.sino_360_to_180(t, overlap=2, rotation=("up", "Left", "")[c["k"] % 3])


@bad(ValueError)
def averaging(c, t):
    f = data((4,) + t.shape[1:], 3, "ints") + np.float32(9)
    m = ("max", "", "Mean")[c["k"] % 3]
    if c["k"] % 2:
        return tomopy.normalize(t, f, f[:1] * 0, averaging=m)
    return tomopy.normalize_nf(t, f, f[:1] * 0, [0, 2], averaging=m)


@bad()
def flat_shape(c, t):
    f = np.ones((2, t.shape[1] + 1, t.shape[2]), "f4")
    return tomopy.normalize(t, f, f * 0)


@bad(ValueError)
def air(c, t):
    return tomopy.normalize_bg(t, air=(0, -1, t.shape[2] + 1, 10**6)[c["k"] % 4], ncore=c["ncore"])


@bad(ValueError)
def ring_mode(c, t):
    return tomopy.remove_ring(t, int_mode=("WARP", "", "mirror")[c["k"] % 3])


@bad(ValueError)
def ring_angle(c, t):
    return tomopy.remove_ring(t, theta_min=(180, -1, 360)[c["k"] % 3])


@bad(ValueError)
def ring_center(c, t):
    o, d = ("center_x", "center_y")[c["k"] % 2], t.shape[2 - c["k"] % 2]
    return tomopy.remove_ring(t, **{o: (-1, d + 0.5, 1e6, d, d - 0.9, -0.1)[c["k"] // 2 % 6]})


@bad(ValueError)
def median3d_dimensions(c, t):
    f = [tomopy.median_filter3d, lambda a: tomopy.remove_outlier3d(a, 1)][c["k"] % 2]
    return f([t[0], t[None], t[:, :0], t[:0], t[:, :, :0]][c["k"] // 2 % 5])


@bad(ValueError)
def inpainter_mask_type(c, t):
    return tomopy.inpainter_morph(t, np.zeros(t.shape, ("u1", "f4", "i4")[c["k"] % 3]))


@bad(ValueError)
def inpainter_mask_shape(c, t):
    s = list(t.shape)
    s[c["k"] % 3] += (1, -1)[c["k"] % 2]
    return tomopy.inpainter_morph(t, np.zeros(s, bool), axis=(None, 0, 1, 2)[c["k"] % 4])


@bad(ValueError)
def inpainter_type(c, t):
    return tomopy.inpainter_morph(t, t > 2, inpainting_type=("max", "", "Mean")[c["k"] % 3])


@bad(ValueError)
def inpainter_axis(c, t):
    if c["k"] % 2:
        return tomopy.inpainter_morph(t[0], t[0] > 2, axis=c["k"] % 3)
    return tomopy.inpainter_morph(t, t > 2, axis=(-1, 3, 7)[c["k"] % 3])


@bad(ValueError)
def nonfinite_kernel(c, t):
    t = t.copy()
    t[c["k"] % t.shape[0], :3, :3] = (np.nan, np.inf, -np.inf)[c["k"] % 3]
    return corr.median_filter_nonfinite(t, size=1 if c["k"] % 2 else 3)


@bad(ValueError)
def detect_size(c, t):
    return stripe.stripes_detect3d(t, size=(0, -1, t.shape[0] // 2 + 1)[c["k"] % 3])


@bad(ValueError)
def detect_dimensions(c, t):
    return stripe.stripes_detect3d([t[0], t[:, :0]][c["k"] % 2], size=1)


@bad(ValueError)
def mask_arguments(c, t):
    nt, ny, nx = t.shape
    d = dict(min_stripe_length=2, min_stripe_depth=1, min_stripe_width=2, sensitivity_perc=50.0)
    d.update([{"min_stripe_length": 0}, {"min_stripe_length": nt}, {"min_stripe_length": -2},
              {"min_stripe_depth": -1}, {"min_stripe_depth": ny}, {"min_stripe_width": 0},
              {"min_stripe_width": nx}, {"sensitivity_perc": 0.0}, {"sensitivity_perc": 100.5},
              {"sensitivity_perc": -3.0}][c["k"] % 10])
    return stripe.stripes_mask3d(t, **d)


@bad(NotImplementedError)
def not_implemented(c, t):
    k = c["k"] % 4
    if k == 0:
        return tomopy.fan_to_para(t, 1.0, "arc")
    if k == 1:
        return tomopy.para_to_fan(t, 1.0, "arc")
    if k == 2:
        return tomopy.sim.project.add_focal_spot_blur(t, 1.0)
    return alignment.find_slits_corners_aps_1id(np.ones((60, 60)), method="none")


@bad()
def wrong_axis(c, t):
    a = (3, 5, -4)[c["k"] % 3]
    f = [tomopy.gaussian_filter, tomopy.median_filter, tomopy.sobel_filter,
         lambda x, axis: tomopy.remove_outlier(x, 1, axis=axis),
         lambda x, axis: tomopy.remove_outlier1d(x, 1, axis=axis),
         lambda x, axis: tomopy.circ_mask(x.copy(), axis=axis),
         lambda x, axis: tomopy.pad(x, axis=axis),
         lambda x, axis: tomopy.downsample(x, axis=axis),
         lambda x, axis: tomopy.upsample(x, axis=axis),
         lambda x, axis: mproc.distribute_jobs(x, np.negative, axis=axis, ncore=c["ncore"])]
    return f[c["k"] // 3 % len(f)](t, axis=a)


@bad()
def filter_argument(c, t):
    if c["k"] % 2:
        return tomopy.gaussian_filter(t, sigma=(1, 2, 3, 4), ncore=c["ncore"])
    return tomopy.median_filter(t, size=0, ncore=c["ncore"])


@bad()
def intensity_mode(c, t):
    return tomopy.calc_intensity(np.ones((3, 3)), np.ones((6, 6)), mode="middle")


@bad()
def missing_file(c, t):
    return alignment.load_distortion_coefs("/nonexistent/coefficients.txt")


class Boom(Exception):
    pass


def _boom(t, cen, recon, theta, **kw):
    recon[...] = 7
    raise Boom()


def _half(t, cen, recon, theta, **kw):
    if cen[0] > 3:
        raise Boom()
    recon[...] = 7


@bad(Boom)
def failing_algorithm(c, t):
    return rec(c, t, algorithm=_boom, nchunk=(None, 1)[c["k"] % 2])


@bad(Boom)
def failing_chunk(c, t):
    cen = np.ones(t.shape[1])
    cen[c["k"] % cen.size] = 4
    return rec(c, t, algorithm=_half, center=cen, nchunk=1)


def _boomjob(a, k):
    if k % 2 or a.flat[0] > 0:
        raise Boom()


@bad(Boom)
def failing_job(c, t):
    return mproc.distribute_jobs(t, _boomjob, axis=c["k"] % 3, args=(c["k"],), ncore=c["ncore"],
                                 nchunk=(None, 0, 1, 2)[c["k"] % 4])


@bad()
def failing_stripe_job(c, t):
    return tomopy.remove_stripe_fw(t, level=1, wname="nosuchwavelet", ncore=c["ncore"])


@bad()
def failing_phase_job(c, t):
    return tomopy.prep.alignment.distortion_correction_proj(t, 1, 1, ["x"], ncore=c["ncore"])


NAMES = [n for n, _, _ in INVALID]
SLOWPROC = ("failing_job", "failing_stripe_job", "failing_phase_job", "wrong_axis")
PROBES = [n for n in api.OPS if api.OPS[n].cost == 1 and not api.OPS[n].procs]
NS = st.tuples(st.integers(4, 7), st.integers(3, 5), st.integers(5, 10)).map(list)


class State:
    def __init__(self):
        self.env = dict(os.environ)
        self.ne = ne.set_num_threads(ne.get_num_threads()) if hasattr(ne, "get_num_threads") else None
        self.err = np.geterr()
        self.cwd = os.getcwd()

    def check(self, what):
        now = dict(os.environ)
        for k in set(now) | set(self.env):
            expect(now.get(k) == self.env.get(k), "%s: environment variable %s changed from %r to %r",
                   what, k, self.env.get(k), now.get(k))
        expect(np.geterr() == self.err, "%s: floating point error handling changed", what)
        expect(os.getcwd() == self.cwd, "%s: working folder changed", what)
        if self.ne is not None:
            expect(ne.set_num_threads(self.ne) == self.ne, "%s: numexpr threads changed", what)


def run_bad(c):
    name, exc, f = INVALID[NAMES.index(c["bad"])]
    t = tomo(c)
    t0 = t.copy()
    try:
        rejects(exc, f, c, t)
    except Violation as e:
        raise Violation("%s: %s" % (name, e))
    same(t, t0, "%s: data after the rejected call" % name)


def probe(p):
    o = api.OPS[p["op"]]
    return api.results(call(o.run, o.inputs(p), p))


def after(p, want, what):
    o = api.OPS[p["op"]]
    for g, w in zip(probe(p), want):
        close(g, w, min(o.tol, 1e-5), "%s after %s" % (p["op"], what))


CASE = st.fixed_dictionaries({"bad": st.sampled_from(NAMES), "n": NS, "seed": seeds(),
                              "k": st.integers(0, 59), "ncore": st.sampled_from([1, 2, 3]),
                              "probe": api.cases(PROBES)})


def rejected(c):
    s = State()
    want = probe(c["probe"])
    s.check(c["probe"]["op"])
    run_bad(c)
    s.check(c["bad"])
    after(c["probe"], want, c["bad"])
    s.check("the probe after " + c["bad"])


# ------------------------------------------------------------------ histories

STEP = st.one_of(
    api.cases().map(lambda p: {"ok": p}),
    st.fixed_dictionaries({"bad": st.sampled_from(NAMES), "n": NS, "seed": seeds(),
                           "k": st.integers(0, 59), "ncore": st.sampled_from([1, 2, 3])}))
HIST = st.fixed_dictionaries({
    "steps": st.lists(STEP, min_size=2, max_size=12),
    "threads": st.sampled_from([None, None, "1", "2", "8"])})


def history(c):
    """Valid, invalid and failing calls in any order: every valid call gives at its second
    execution what it gave at its first, and the environment stays as the user set it."""
    old = os.environ.pop("TOMOPY_PYTHON_THREADS", None)
    if c["threads"]:
        os.environ["TOMOPY_PYTHON_THREADS"] = c["threads"]
    try:
        s = State()
        first = []
        for x in c["steps"]:
            if "ok" in x:
                first.append((x["ok"], probe(x["ok"])))
                s.check(x["ok"]["op"])
            else:
                run_bad(x)
                s.check(x["bad"])
        for p, want in first[::-1]:
            after(p, want, "the history")
            s.check(p["op"])
    finally:
        os.environ.pop("TOMOPY_PYTHON_THREADS", None)
        if old is not None:
            os.environ["TOMOPY_PYTHON_THREADS"] = old


SUBS = [
    Sub("rejected", CASE, rejected, quick=6000, thorough=48000, shards=4),
    Sub("history", HIST, history, quick=640, thorough=6000, shards=4,
        nontrivial=lambda c: any("ok" in x for x in c["steps"]) and any("bad" in x for x in c["steps"])),
]
