"""C03: iterative solvers perform exactly their documented update."""
import numpy as np
import tomopy

from vt import gen, ref, solvers
from vt.core import Sub, st, data, call, close, same, expect, seeds, unchanged, Skip

RULE = ("a reconstruction of at least 2x2 pixels from at least two rays that cross the grid, "
        "compared with the reference solver")
ASSUMPTIONS = [
    "angles are moved until no ray passes within 0.021 px of a corner of the grid, where single "
    "precision decides whether the ray touches it",
    "tolerance 1e-4 of the image's range plus 100 times the change of the reference under a "
    "1e-6 perturbation of matrix and data; cases where that exceeds 5% are outside the domain",
    "penalised likelihood is defined on grids of at least 2x2 pixels",
]


def clear_angles(nx, ny, dx, theta, cen):
    """Angles moved in small steps until every ray is unambiguous; with the matrix."""
    th = np.array(theta, np.float32)
    rows = []
    for p in range(len(th)):
        for k in range(60):
            A, M = ref.matrix(nx, ny, dx, th[p:p + 1], cen, trim=False)
            if M.min() > 0.021:
                break
            t = float(th[p]) + 0.0137 * (k + 1) * (1 if k % 2 else -1)
            q = np.round(t / (np.pi / 2)) * (np.pi / 2)
            if abs(t - q) < 0.03:
                t = q + 0.031
            th[p] = t
        else:
            raise Skip()
        rows.append(A)
    return th, np.concatenate(rows)


CASE = st.fixed_dictionaries({
    "alg": st.sampled_from(solvers.ALGS), "nt": st.integers(1, 8), "nx": st.integers(2, 10),
    "grid": st.one_of(st.none(), st.tuples(st.integers(2, 10), st.integers(2, 10)).map(list)),
    "akind": st.sampled_from(gen.ANGLES), "ckind": st.sampled_from(["default", "scalar", "integer"]),
    "kind": st.sampled_from(["uniform", "spikes", "sparse", "ints", "signed", "consistent"]),
    "seed": seeds(), "iters": st.integers(1, 5),
    "blocks": st.sampled_from([0, 1, 2, 3, 4, 50]),
    "reg": st.sampled_from([None, [0.5], [0.5, 0.1], [0.02, 2.0], [0.1, 0.01], [-1.0], [-1.0, 0.3], 0.3]),
    "init": st.sampled_from(["default", "random"]),
    "regdata": st.sampled_from(["image", "scalar", "default"]),
})


def build(c):
    nt, dx, alg = c["nt"], c["nx"], c["alg"]
    gx, gy = c["grid"] or (dx, dx)
    cen = gen.centers(c["ckind"], c["seed"], 1, dx)
    ce = np.float32(dx / 2. if cen is None else cen)
    if ref.nudge_unclear(dx, ce, gx, gy):
        raise Skip()
    theta, A = clear_angles(gx, gy, dx, gen.angles(nt, c["akind"], c["seed"]), ce)
    if c["kind"] == "consistent":
        d = (A @ data((gx * gy,), c["seed"] + 4, "uniform")).astype(np.float32)
    else:
        d = data((nt * dx,), c["seed"], c["kind"])
    if alg in gen.POSITIVE:
        d = np.abs(d)
    kw = {}
    if c["grid"]:
        kw["num_gridx"], kw["num_gridy"] = gx, gy
    if alg != "fbp":
        kw["num_iter"] = c["iters"]
    if alg in gen.BLOCKS and c["blocks"]:
        kw["num_block"] = min(c["blocks"], nt)
        kw["ind_block"] = np.random.default_rng(c["seed"] + 5).permutation(nt).astype(np.int32)
    if alg in gen.REG and c["reg"] is not None:
        reg = c["reg"]
        if alg not in ("grad", "tikh"):
            reg = np.abs(reg).tolist()
        kw["reg_par"] = reg
    init = None
    if c["init"] == "random":
        init = data((1, gx, gy), c["seed"] + 6, "uniform") + np.float32(0.05)
    x0 = (init if init is not None else np.full((1, gx, gy), np.float32(1e-6))).astype(np.float64)[0].ravel()
    rd = None
    if alg == "tikh":
        if c["regdata"] == "image":
            kw["reg_data"] = data((1, gx, gy), c["seed"] + 7, "signed")
            rd = kw["reg_data"][0].ravel().astype(float)
        elif c["regdata"] == "scalar":
            kw["reg_data"] = 0.75
            rd = np.full(gx * gy, 0.75)
        else:
            rd = np.zeros(gx * gy)
    return theta, A, d, cen, kw, init, x0, rd, (gx, gy)


def reference(c, A, d, x0, kw, rd, shape):
    """-> (image, absolute tolerance)"""
    d = d.astype(np.float64)
    want = solvers.solve(c["alg"], A, d, x0, kw, shape, c["nt"], c["nx"], rd)
    auto = c["alg"] in ("grad", "tikh") and np.ravel(kw.get("reg_par", 1))[0] < 0
    dev = 0.0
    for k in range(5 if auto else 1):
        rng = np.random.default_rng(k + 1)
        A2 = A * (1 + 1e-6 * rng.normal(size=A.shape)) + 1e-6 * (A > 0) * rng.normal(size=A.shape)
        d2 = d * (1 + 1e-6 * rng.normal(size=d.shape))
        x2 = x0 * (1 + 1e-6 * rng.normal(size=x0.shape))
        pert = solvers.solve(c["alg"], A2, d2, x2, kw, shape, c["nt"], c["nx"], rd)
        if not (np.isfinite(want).all() and np.isfinite(pert).all()):
            raise Skip()
        dev = max(dev, np.abs(pert - want).max())
    scale = max(np.abs(want).max(), 1e-12)
    if scale > 1e25:            # diverging: beyond single precision on the way
        raise Skip()
    tol = 1e-4 * scale + 100 * dev
    if auto:
        tol *= 20       # the automatic step is a quotient of small differences
    if tol > 0.05 * scale:
        raise Skip()
    return want, tol


def run(c, theta, d, cen, kw, init):
    tomo = d.reshape(c["nt"], 1, c["nx"])
    k = {a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in kw.items()}
    return call(tomopy.recon, tomo.copy(), theta.copy(), center=cen, algorithm=c["alg"],
                init_recon=None if init is None else init.copy(), ncore=1, **k)


def update(c):
    theta, A, d, cen, kw, init, x0, rd, shape = build(c)
    want, tol = reference(c, A, d, x0, kw, rd, shape)
    got = run(c, theta, d, cen, kw, init)
    expect(got.shape == (1,) + tuple(shape), "shape %s", (got.shape,))
    close(got[0].ravel(), want, tol, "%s after %d iterations" % (c["alg"], c["iters"]), scale=1.0)


def resume(c):
    """k iterations, then m more from the result, equal k+m iterations."""
    if c["alg"] in ("tv", "fbp") or (c["alg"] in ("grad", "tikh") and
                                     np.ravel(c["reg"] or 1)[0] < 0):
        c = dict(c, alg="bart")
    theta, A, d, cen, kw, init, x0, rd, shape = build(c)
    want, tol = reference(c, A, d, x0, kw, rd, shape)
    k = max(1, c["iters"] // 2)
    full = run(c, theta, d, cen, kw, init)
    part = run(c, theta, d, cen, dict(kw, num_iter=k), init)
    if c["iters"] > k:
        part = run(c, theta, d, cen, dict(kw, num_iter=c["iters"] - k), part)
    close(part, full, tol, "continued run", scale=1.0)


def order(c):
    """The order of the angles (with their data) does not matter to the simultaneous
    methods; turning everything by half a turn and mirroring the detector does not either."""
    c = dict(c, alg=["sirt", "mlem", "pml_quad", "pml_hybrid", "grad", "tikh", "tv", "fbp"][c["seed"] % 8],
             blocks=0)
    theta, A, d, cen, kw, init, x0, rd, shape = build(c)
    want, tol = reference(c, A, d, x0, kw, rd, shape)
    p = np.random.default_rng(c["seed"]).permutation(c["nt"])
    a = run(c, theta, d, cen, kw, init)
    b = run(c, theta[p], d.reshape(c["nt"], c["nx"])[p].ravel(), cen, kw, init)
    close(b, a, tol, "permuted angles", scale=1.0)


def many(c):
    """Many iterations, in one run and in two."""
    if c["alg"] in ("grad", "tikh") and np.ravel(c["reg"] or 1)[0] < 0:
        c = dict(c, iters=min(c["iters"], 6))     # near convergence the automatic step is noise
    update(c)
    if c["alg"] not in ("tv", "fbp"):
        resume(c)


def case(**k):
    return CASE.flatmap(lambda c: st.fixed_dictionaries(k).map(lambda d: dict(c, **d)))


MANY = case(iters=st.sampled_from([6, 9, 12, 17, 25, 40, 64]))
LONG = case(nt=st.integers(41, 400), nx=st.integers(2, 5), iters=st.just(1), blocks=st.sampled_from([0, 3, 16, 60]))
WIDE = case(nt=st.integers(1, 3), nx=st.integers(41, 150), iters=st.just(1),
            grid=st.one_of(st.none(), st.tuples(st.integers(2, 8), st.integers(41, 150)).map(list)))
BIG = case(nt=st.integers(9, 40), nx=st.integers(11, 40), iters=st.integers(1, 2),
           blocks=st.sampled_from([0, 2, 5, 7, 16]),
           grid=st.one_of(st.none(), st.tuples(st.integers(11, 40), st.integers(11, 40)).map(list)))
NT = lambda c: c["nx"] >= 2 and c["nt"] * c["nx"] >= 2
SUBS = [
    Sub("update", CASE, update, quick=24000, thorough=400000, shards=6, nontrivial=NT),
    Sub("resume", CASE, resume, quick=3000, thorough=40000, shards=1,
        nontrivial=lambda c: c["iters"] > 1),
    Sub("many", MANY, many, quick=700, thorough=20000, shards=2, nontrivial=NT),
    Sub("big", BIG, update, quick=300, thorough=8000, shards=2, nontrivial=NT),
    Sub("long", LONG, update, quick=40, thorough=1200, shards=2, nontrivial=NT),
    Sub("wide", WIDE, update, quick=40, thorough=1200, shards=2, nontrivial=NT),
    Sub("order", CASE, order, quick=3000, thorough=40000, shards=1,
        nontrivial=lambda c: c["nt"] > 1),
]
