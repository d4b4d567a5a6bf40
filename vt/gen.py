"""Generators and builders shared by the reconstruction properties.

A case is plain JSON; the functions here turn it into arrays."""
import numpy as np

from vt.core import st, data, Skip, seeds

ALGS = ("art", "bart", "fbp", "gridrec", "mlem", "osem", "ospml_hybrid", "ospml_quad",
        "pml_hybrid", "pml_quad", "sirt", "tv", "grad", "tikh")
BLOCKS = ("bart", "osem", "ospml_hybrid", "ospml_quad")
PML = ("ospml_hybrid", "ospml_quad", "pml_hybrid", "pml_quad")
REG = PML + ("tv", "grad", "tikh")
POSITIVE = ("mlem", "osem") + PML      # defined for non-negative data
FILTERS = ("none", "shepp", "cosine", "hann", "hamming", "ramlak", "parzen", "butterworth")

ANGLES = ("half", "full", "random", "reversed", "repeated", "exact", "degenerate")


def angles(n, kind, seed):
    """float32 angles; never closer than 0.02 rad to a grid axis unless exactly on it
    (to float precision), where single-precision geometry is well defined."""
    rng = np.random.default_rng(seed + 77)
    if kind == "half":
        th = np.arange(n) * np.pi / n + 0.05 + 0.1 * rng.random()
    elif kind == "full":
        th = np.arange(n) * 2 * np.pi / n + 0.03 + 0.1 * rng.random()
    elif kind == "random":
        th = rng.uniform(-7, 7, n)
    elif kind == "reversed":
        th = (np.arange(n) * np.pi / n)[::-1] + 0.04
    elif kind == "repeated":
        th = rng.choice(rng.uniform(0, np.pi, max(1, n // 2)), n)
    elif kind == "exact":
        th = np.arange(n) * np.pi / 2 - np.pi * rng.integers(0, 2)
    else:
        th = np.full(n, rng.uniform(0, np.pi))
    th = np.asarray(th, np.float64)
    if kind != "exact":
        q = np.round(th / (np.pi / 2)) * (np.pi / 2)
        near = np.abs(th - q) < 0.03
        th[near] = q[near] + 0.03 + 0.05 * rng.random(int(near.sum()))
    return th.astype(np.float32)


def options(draw_alg, o, nt, seed):
    """Keyword arguments of recon for the algorithm from the drawn numbers."""
    kw = {}
    alg = draw_alg
    if alg in ("fbp",):
        if o.get("grid"):
            kw["num_gridx"], kw["num_gridy"] = o["grid"]
        return kw
    if o.get("grid"):
        kw["num_gridx"], kw["num_gridy"] = o["grid"]
    if alg == "gridrec":
        kw["filter_name"] = o["filter"]
        if o["filter"] == "butterworth" and o.get("fpar"):
            kw["filter_par"] = o["fpar"]
        return kw
    kw["num_iter"] = o["iters"]
    if alg in BLOCKS and o.get("blocks"):
        kw["num_block"] = max(1, min(o["blocks"], nt))
        rng = np.random.default_rng(seed + 5)
        kw["ind_block"] = rng.permutation(nt).astype(np.int32)
    if alg in REG and o.get("reg") is not None:
        kw["reg_par"] = o["reg"]
    return kw


def opts():
    return st.fixed_dictionaries({
        "iters": st.integers(1, 4),
        "blocks": st.sampled_from([0, 1, 2, 3, 5, 50]),
        "reg": st.sampled_from([None, [0.5, 0.1], [0.01, 2.0], [1.0, 0.5], [0.05, 0.2]]),
        "filter": st.sampled_from(FILTERS),
        "fpar": st.sampled_from([None, [0.2, 4.0], [0.4, 2.0]]),
        "grid": st.one_of(st.none(), st.tuples(st.integers(2, 14), st.integers(2, 14)).map(list)),
    })


def centers(kind, seed, ny, dx):
    """None, a scalar or one centre per slice (inside the detector)."""
    rng = np.random.default_rng(seed + 11)
    if kind == "default":
        return None
    if kind == "scalar":
        return float(np.round(dx / 2 + rng.uniform(-0.35, 0.35) * dx, 2) + 0.003)
    if kind == "integer":
        return int(dx // 2 + rng.integers(-1, 2))
    c = np.round(dx / 2 + rng.uniform(-0.35, 0.35, ny) * dx, 2) + 0.003
    if kind == "pairs":
        c = np.repeat(c, 2)[:ny]
    if kind == "pattern":       # two positions in any order
        c = c[rng.integers(0, min(2, ny), ny)]
    return c.astype(np.float32)


CENTERS = ("default", "scalar", "integer", "each", "pairs", "pattern")
