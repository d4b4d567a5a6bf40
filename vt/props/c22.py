"""C22: iterative reconstructions improve their objective and keep its constraints."""
import numpy as np
import tomopy

from vt import gen
from vt.core import far, Sub, st, data, call, close, expect, seeds, Skip, Violation

RULE = "at least two angles and two iterations, an object that is not empty"
ASSUMPTIONS = [
    "the forward operator is tomopy.project (decided by C02), the sensitivity its adjoint, the unfiltered back projection (C03)",
    "art, bart and sirt: no ray shorter than 0.02 px within the grid, whose length they divide by",
    "single precision: objectives may worsen by 1e-5 of their size, fixed points drift by 2e-4 of the largest value",
    "only Kaczmarz's method (art) is claimed never to move away from a solution; the simultaneous methods of tomopy "
    "divide by the sum of squares of a ray and can move away for short rays",
]

GEO = {"nt": st.integers(1, 14), "ny": st.integers(1, 3), "n": st.integers(2, 28), "akind": st.sampled_from(gen.ANGLES),
       "ckind": st.sampled_from(gen.CENTERS), "seed": seeds(), "ncore": st.sampled_from([1, 3])}


class Scan:
    def __init__(self, c, kind="uniform"):
        self.c, self.n, self.ny = c, c["n"], c["ny"]
        self.th = gen.angles(c["nt"], c["akind"], c["seed"])
        self.cen = gen.centers(c["ckind"], c["seed"], self.ny, self.n)
        n = self.n
        if c["akind"] == "exact":
            # rays along the grid's border are within or without it by rounding
            f = (0.5 - np.atleast_1d(n / 2. if self.cen is None else self.cen) + n / 2.) % 1
            if (np.minimum(f, 1 - f) < 0.03).any():
                raise Skip()
        else:
            self.th = self.th + np.float32(c.get("turn", 0.0))
        if kind == "constant":
            o = np.broadcast_to(1 + data((self.ny, 1, 1), c["seed"], "uniform"), (self.ny, n, n)).copy()
        else:
            o = np.abs(data((self.ny, n, n), c["seed"], kind)) + np.float32(0.05)
        self.obj = o.astype("f4")
        self.y = self.fwd(self.obj)

    def fwd(self, x):
        return call(tomopy.project, x.astype("f4"), self.th, center=self.cen, pad=False, ncore=1).copy()

    def rec(self, y, alg, init=None, **kw):
        return call(tomopy.recon, y.copy(), self.th, center=self.cen, algorithm=alg, ncore=self.c["ncore"],
                    init_recon=None if init is None else init.astype("f4"), **kw).copy()

    def adj(self, y):
        return self.rec(y, "fbp", np.zeros((self.ny, self.n, self.n), "f4"))

    def bound(self):
        """An upper bound of the squared norm of the operator."""
        return float(self.adj(np.ones_like(self.y)).max() * self.fwd(np.ones_like(self.obj)).max()) + 1e-12

    def grazing(self):
        """Rays that only graze the grid: the methods divide by their tiny length."""
        length = self.fwd(np.ones_like(self.obj))
        if ((length > 0) & (length < 0.02)).any():
            raise Skip()

    def r(self):
        return 1 / np.sqrt(self.n * len(self.th) / 2.0)


# -------------------------------------------------------------- fixed points

FIX = st.fixed_dictionaries(dict(GEO, **{
    "alg": st.sampled_from(["art", "bart", "sirt", "mlem", "osem", "grad", "tikh", "tv", "pml_quad", "pml_hybrid", "ospml_quad", "ospml_hybrid"]),
    "iters": far(1, 12, 60), "blocks": st.sampled_from([1, 2, 3, 7]), "kind": st.sampled_from(["uniform", "sparse", "ints"]),
    "reg": st.sampled_from([0.02, 0.3, 1.5])}))


def fixed(c):
    alg = c["alg"]
    s = Scan(c, "constant" if alg in gen.PML or alg == "tv" else c["kind"])
    kw = {"num_iter": c["iters"]}
    if alg in gen.BLOCKS and c["blocks"] > 1:
        kw["num_block"] = min(c["blocks"], c["nt"])
        kw["ind_block"] = np.random.default_rng(c["seed"]).permutation(c["nt"]).astype("i4")
    if alg in gen.PML:
        kw["reg_par"] = [c["reg"], 0.5]
    if alg == "tv":
        kw["reg_par"] = [c["reg"]]
    if alg in ("grad", "tikh"):
        kw["reg_par"] = [0.4 / (s.r() ** 2 * s.bound() + c["reg"]), c["reg"]]
        if alg == "tikh":
            kw["reg_data"] = s.obj / np.float32(s.r())
    if alg in ("art", "bart", "sirt"):
        s.grazing()
    top = np.abs(s.obj).max()
    out = s.rec(s.y, alg, s.obj, **kw)
    close(out, s.obj, 2e-4 * (1 + c["iters"]) ** 0.5, "%s from the solution" % alg, scale=top)


# -------------------------------------------------- expectation maximisation

EM = st.fixed_dictionaries(dict(GEO, **{
    "alg": st.sampled_from(["mlem", "mlem", "osem"]), "iters": far(2, 8, 40), "blocks": st.integers(1, 4),
    "data": st.sampled_from(["consistent", "noisy", "any", "zeros"]), "init": st.sampled_from(["default", "random"])}))


def em(c):
    s = Scan(c, "sparse")
    r = np.random.default_rng(c["seed"] + 3)
    if c["data"] == "consistent":
        y = s.y
    elif c["data"] == "noisy":
        y = r.poisson(np.maximum(s.y, 0) * 3).astype("f4")
    else:
        y = np.abs(data(s.y.shape, c["seed"], "uniform")).astype("f4")
        if c["data"] == "zeros":
            y[r.random(y.shape) < 0.6] = 0
    kw = {}
    if c["alg"] == "osem":
        kw = {"num_block": min(c["blocks"], c["nt"]), "ind_block": r.permutation(c["nt"]).astype("i4")}
    sens = s.adj(np.ones_like(y)).astype("f8")
    x = None if c["init"] == "default" else data(s.obj.shape, c["seed"] + 9, "uniform") + np.float32(0.1)
    whole = s.rec(y, c["alg"], x, num_iter=c["iters"], **kw)
    last = None
    for k in range(c["iters"]):
        x = s.rec(y, c["alg"], x, num_iter=1, **kw)
        expect(np.isfinite(x).all() and x.min() >= 0, "%s: smallest value %g after %d iterations", c["alg"], x.min(), k + 1)
        if c["alg"] != "mlem":
            continue
        p = s.fwd(x).astype("f8")
        for j in range(s.ny):
            seen = s.fwd(np.ones_like(s.obj))[:, j] > 1e-3
            Y, P = y[:, j].astype("f8")[seen], p[:, j][seen]
            total = (sens[j] * x[j]).sum()
            # a ray through a part of the grid that has become empty cannot be fitted
            if P.size and P.min() > 1e-6 * P.max():
                close(total, y[:, j][seen].sum(), 2e-4, "total counts of slice %d after %d iterations" % (j, k + 1),
                      scale=y[:, j].sum() + 1e-30)
                like = (Y * np.log(P) - P).sum()
                if last is not None and j in last:
                    expect(like >= last[j] - 1e-5 * (np.abs(Y * np.log(P)).sum() + P.sum()), "likelihood fell from %g to %g", last[j], like)
                last = last or {}
                last[j] = like
            elif last:
                last.pop(j, None)
    close(x, whole, 1e-3, "one iteration at a time", scale=np.abs(whole).max() + 1e-30)


# ---------------------------------------------------------------- algebraic

ALG = st.fixed_dictionaries(dict(GEO, **{"iters": far(2, 8, 40), "kind": st.sampled_from(["uniform", "sparse", "ints"]),
                                         "init": st.sampled_from(["zero", "random", "far"])}))


def kaczmarz(c):
    s = Scan(c, c["kind"])
    s.grazing()
    x = {"zero": np.zeros_like(s.obj), "random": data(s.obj.shape, c["seed"] + 1, "uniform"),
         "far": 100 * data(s.obj.shape, c["seed"] + 1, "signed")}[c["init"]].astype("f4")
    d = [np.linalg.norm(x[j].astype("f8") - s.obj[j]) for j in range(s.ny)]
    for k in range(c["iters"]):
        x = s.rec(s.y, "art", x, num_iter=1)
        for j in range(s.ny):
            e = np.linalg.norm(x[j].astype("f8") - s.obj[j])
            expect(e <= d[j] + 1e-4 * (np.linalg.norm(s.obj[j]) + np.linalg.norm(x[j])), "distance to the solution grew from %g to %g", d[j], e)
            d[j] = e


# ------------------------------------------------------------------ descent

DES = st.fixed_dictionaries(dict(GEO, **{"alg": st.sampled_from(["grad", "tikh"]), "iters": st.integers(2, 7), "step": st.sampled_from([1.0, 0.5, 0.1]),
                                         "reg": st.sampled_from([0.0, 0.01, 0.5, 3.0]), "data": st.sampled_from(["consistent", "any", "signed"]),
                                         "ref": st.sampled_from([None, "scalar", "image"])}))


def descent(c):
    s = Scan(c)
    y = s.y if c["data"] == "consistent" else data(s.y.shape, c["seed"], "uniform" if c["data"] == "any" else "signed")
    r = s.r()
    lam = c["reg"] if c["alg"] == "tikh" else 0.0
    kw = {"reg_par": [c["step"] / (r * r * s.bound() + lam), lam]}
    ref = np.zeros_like(s.obj)
    if c["alg"] == "tikh" and c["ref"]:
        kw["reg_data"] = 0.7 if c["ref"] == "scalar" else data(s.obj.shape, c["seed"] + 2, "uniform")
        ref = ref + np.float32(kw["reg_data"]) if c["ref"] == "scalar" else kw["reg_data"]

    def objective(x, j, p):
        return ((p[:, j].astype("f8") - y[:, j]) ** 2).sum() + lam * ((x[j].astype("f8") / r - ref[j]) ** 2).sum()
    x = data(s.obj.shape, c["seed"] + 1, "uniform").astype("f4")
    p = s.fwd(x)
    f = [objective(x, j, p) for j in range(s.ny)]
    base = [objective(0 * x, j, 0 * p) + v for j, v in enumerate(f)]
    for k in range(c["iters"]):
        x = s.rec(y, c["alg"], x, num_iter=1, **kw)
        p = s.fwd(x)
        for j in range(s.ny):
            g = objective(x, j, p)
            expect(g <= f[j] + 1e-5 * base[j], "objective of %s rose from %g to %g", c["alg"], f[j], g)
            f[j] = g


# -------------------------------------------------------- scaling and order

HOM = st.fixed_dictionaries(dict(GEO, **{
    "alg": st.sampled_from(["art", "bart", "sirt", "mlem", "osem", "fbp", "gridrec", "grad", "tikh"]), "iters": st.integers(1, 6),
    "blocks": st.integers(1, 3), "k": st.sampled_from([-9, -1, 1, 3, 12]), "auto": st.booleans()}))


def scaled(c):
    s, alg = Scan(c), c["alg"]
    if alg in ("art", "bart", "sirt"):
        s.grazing()
    y = np.abs(data(s.y.shape, c["seed"], "uniform")).astype("f4") + np.float32(0.01)
    a = np.float32(2.0 ** c["k"])
    kw, init = {}, np.zeros_like(s.obj)
    if alg not in ("fbp", "gridrec"):
        kw["num_iter"] = c["iters"]
    if alg in gen.BLOCKS:
        kw["num_block"] = min(c["blocks"], c["nt"])
    if alg in ("grad", "tikh"):
        kw["reg_par"] = [-1.0 if c["auto"] else 0.1, 0.2]
    if alg in ("mlem", "osem"):
        init = init + 1
    if alg == "gridrec":
        init = None
    # (osem leaves a pixel alone while no ray of the block crosses it, so its guess has to scale along)
    other = init * a if alg == "osem" else init
    one, two = s.rec(y, alg, init, **kw), s.rec(y * a, alg, other, **kw)
    if alg in ("mlem", "osem"):
        # what no ray crosses keeps its initial value
        keep = s.adj(np.ones_like(y)) == 0
        expect((one[keep] == 1).all() and (two[keep] == other[keep]).all(), "pixels without rays changed")
        one, two = np.where(keep, 0, one), np.where(keep, 0, two)
    tol = 1e-3 if alg in ("grad", "tikh") and c["auto"] else 2e-5
    close(two / a, one, tol, "%s of scaled data" % alg, scale=np.abs(one).max() + 1e-20)


PERM = st.fixed_dictionaries(dict(GEO, **{
    "alg": st.sampled_from(["sirt", "mlem", "fbp", "grad", "tikh", "tv", "pml_quad", "pml_hybrid", "gridrec"]), "iters": st.integers(1, 4),
    "perm": st.integers(0, 10 ** 6)}))


def permuted(c):
    """The order in which the projections are listed does not matter."""
    s, alg = Scan(c), c["alg"]
    if alg == "sirt":
        s.grazing()
    y = s.y
    o = np.random.default_rng(c["perm"]).permutation(c["nt"])
    kw = {} if alg in ("fbp", "gridrec") else {"num_iter": c["iters"]}
    if alg == "grad" or alg == "tikh":
        kw["reg_par"] = [0.4 / (s.r() ** 2 * s.bound() + 0.1), 0.1]
    elif alg in gen.REG:
        kw["reg_par"] = [0.1, 0.5]
    one = s.rec(y, alg, None, **kw)
    s.th, y = s.th[o], y[o]
    two = s.rec(y, alg, None, **kw)
    close(two, one, 2e-4, "%s with the projections in another order" % alg, scale=np.abs(one).max() + 1e-20)


def again(f):
    """A ray that meets a corner of the grid within rounding is crossed differently by different routines:
    what fails has to fail at slightly turned angles, too."""
    def g(c):
        try:
            return f(c)
        except Violation:
            if c["akind"] == "exact":
                raise
        for t in (0.0011, -0.0017):
            try:
                f(dict(c, turn=t))
                return
            except Skip:
                pass
        f(c)
    return g


nt = lambda c: c["nt"] > 1  # noqa: E731
SUBS = [
    Sub("fixed", FIX, again(fixed), quick=500, thorough=10000, shards=2, nontrivial=nt),
    Sub("em", EM, again(em), quick=220, thorough=5000, shards=4, nontrivial=nt),
    Sub("kaczmarz", ALG, again(kaczmarz), quick=250, thorough=4000, nontrivial=nt),
    Sub("descent", DES, again(descent), quick=220, thorough=5000, shards=3, nontrivial=nt),
    Sub("scaled", HOM, again(scaled), quick=400, thorough=6000, nontrivial=nt),
    Sub("permuted", PERM, again(permuted), quick=400, thorough=6000, nontrivial=nt),
]
