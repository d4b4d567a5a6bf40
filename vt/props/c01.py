"""C01: every slice is reconstructed as if it were alone."""
import os

import numpy as np
import tomopy

from vt import gen
from vt.core import far, Sub, st, data, call, close, same, expect, seeds, unchanged

RULE = ("a stack of at least 2 slices reconstructed in at least 2 different divisions of the work")
ASSUMPTIONS = ["float32 results of the same slice are compared bit for bit, gridrec (which "
               "transforms slices in pairs) within 2e-5 of the stack's range",
               "accelerated (OpenCV/CUDA) variants are not part of this build"]

CASE = st.fixed_dictionaries({
    "alg": st.sampled_from(gen.ALGS + ("gridrec", "gridrec", "tikh")),
    "ny": far(1, 9, 70, 25), "nt": far(1, 9, 60, 25), "nx": far(2, 13, 40, 25),
    "akind": st.sampled_from(gen.ANGLES), "ckind": st.sampled_from(gen.CENTERS),
    "kind": st.sampled_from(["uniform", "spikes", "sparse", "ints"]),
    "seed": seeds(), "o": gen.opts(),
    "ncore": st.sampled_from([1, 2, 3, 4, 7, 8, 16, None]),
    "nchunk": st.sampled_from([None, None, 0, 1, 2, 3, 4, 20]),
    "order": st.booleans(), "init": st.booleans(), "limit": st.sampled_from([None, None, "1", "3"]),
})


def build(c):
    ny, nt, nx = c["ny"], c["nt"], c["nx"]
    sino = data((ny, nt, nx), c["seed"], c["kind"]) + np.float32(0.01)
    # slices of very different magnitude and content
    sino *= (1 + 3 * (np.arange(ny) % 3)).astype(np.float32)[:, None, None]
    theta = gen.angles(nt, c["akind"], c["seed"])
    cen = gen.centers(c["ckind"], c["seed"], ny, nx)
    kw = gen.options(c["alg"], c["o"], nt, c["seed"])
    if c["alg"] == "gridrec" and "num_gridx" in kw:
        m = 1 << max(4, int(np.ceil(np.log2(nx))))
        kw["num_gridx"] = kw["num_gridy"] = min(kw["num_gridx"], m)
    gx, gy = int(kw.get("num_gridx", nx)), int(kw.get("num_gridy", nx))
    init = None
    if c["init"] and c["alg"] not in ("gridrec",):
        init = data((ny, gx, gy), c["seed"] + 1, "uniform") + np.float32(0.1)
    reg = None
    if c["alg"] == "tikh":
        reg = data((ny, gx, gy), c["seed"] + 2, "uniform")
    return sino, theta, cen, kw, init, reg


def run(c, sino, theta, cen, kw, init, reg, sl=None, ncore=1, nchunk=None, order=True):
    if sl is not None:
        sino = sino[sl:sl + 1]
        init = None if init is None else init[sl:sl + 1]
        reg = None if reg is None else reg[sl:sl + 1]
        if isinstance(cen, np.ndarray):
            cen = cen[sl:sl + 1]
    kw = dict(kw)
    if reg is not None:
        kw["reg_data"] = reg.copy()
    if isinstance(cen, np.ndarray):
        cen = cen.copy()
    tomo = sino.copy() if order else np.ascontiguousarray(np.swapaxes(sino, 0, 1))
    return call(tomopy.recon, tomo, theta.copy(), center=cen, sinogram_order=order,
                algorithm=c["alg"], init_recon=None if init is None else init.copy(),
                ncore=ncore, nchunk=nchunk, **kw)


def division(c):
    parts = build(c)
    sino, theta, cen, kw, init, reg = parts
    before = os.environ.get("TOMOPY_PYTHON_THREADS")
    if c["limit"]:
        os.environ["TOMOPY_PYTHON_THREADS"] = c["limit"]
    try:
        full = run(c, *parts, ncore=c["ncore"], nchunk=c["nchunk"], order=c["order"])
        expect(os.environ.get("TOMOPY_PYTHON_THREADS") == c["limit"],
               "recon changed the thread limit of the environment")
    finally:
        os.environ.pop("TOMOPY_PYTHON_THREADS", None)
        if before is not None:
            os.environ["TOMOPY_PYTHON_THREADS"] = before
    gx, gy = int(kw.get("num_gridx", c["nx"])), int(kw.get("num_gridy", c["nx"]))
    expect(full.shape == (c["ny"], gx, gy), "shape %s", (full.shape,))
    alone = np.concatenate([run(c, *parts, sl=i) for i in range(c["ny"])])
    other = run(c, *parts, ncore=1, nchunk=None, order=not c["order"])
    if c["alg"] == "gridrec":
        s = max(np.abs(alone).max(), 1e-20)
        close(full, alone, 1.5e-4, "stack vs slices alone", scale=s)
        close(other, alone, 1.5e-4, "one chunk vs slices alone", scale=s)
        again = run(c, *parts, ncore=c["ncore"], nchunk=c["nchunk"], order=c["order"])
        same(again, full, "repeated reconstruction")
    else:
        same(full, alone, "stack vs slices alone")
        same(other, alone, "one chunk vs slices alone")


def permutation(c):
    """Reordering the slices (with their axes) reorders the result."""
    parts = build(c)
    sino, theta, cen, kw, init, reg = parts
    p = np.random.default_rng(c["seed"] + 3).permutation(c["ny"])
    a = run(c, *parts, ncore=c["ncore"], nchunk=c["nchunk"])
    q = [sino[p], theta, cen[p] if isinstance(cen, np.ndarray) else cen, kw,
         None if init is None else init[p], None if reg is None else reg[p]]
    b = run(c, *q, ncore=c["ncore"], nchunk=c["nchunk"])
    if c["alg"] == "gridrec":
        close(b, a[p], 1.5e-4, "permuted slices", scale=max(np.abs(a).max(), 1e-20))
    else:
        same(b, a[p], "permuted slices")


def callable_alg(c):
    """A user's algorithm sees every slice exactly once, with its own axis."""
    ny, nt, nx = c["ny"], c["nt"], c["nx"]
    sino = data((ny, nt, nx), c["seed"], "uniform")
    theta = gen.angles(nt, c["akind"], c["seed"])
    cen = gen.centers(c["ckind"], c["seed"], ny, nx)

    def alg(tomo, center, recon, th, **kw):
        t = tomo if tomo.ndim == 3 else tomo[None]
        r = recon if recon.ndim == 3 else recon[None]
        ce = np.atleast_1d(center)
        assert len(t) == len(r) == len(ce), "parts of different length"
        for i in range(len(t)):
            r[i] += t[i].sum() + ce[i] + th.sum() + kw["options"].get("k", 0)

    k = c["o"]["iters"]
    got = call(tomopy.recon, sino if c["order"] else np.swapaxes(sino, 0, 1), theta, center=cen,
               sinogram_order=c["order"], algorithm=alg, ncore=c["ncore"], nchunk=c["nchunk"],
               options={"k": k}, init_recon=np.zeros((ny, nx, nx), "f4") if c["init"] else None)
    ce = np.broadcast_to(np.asarray(nx / 2. if cen is None else cen, dtype=np.float32), (ny,))
    want = np.array([sino[i].sum(dtype=np.float64) for i in range(ny)]) + ce + theta.sum() + k
    close(got, np.broadcast_to(want[:, None, None], (ny, nx, nx)), 1e-5, "callable algorithm",
          scale=np.abs(theta).sum() + np.abs(sino).sum(dtype=np.float64) + np.abs(ce).max())


def threads(c):
    """Larger slices, many threads: shared scratch state would show as a difference."""
    ny, nt, nx = 16, c["nt"], c["nx"]
    sino = data((ny, nt, nx), c["seed"], "uniform") + np.float32(0.01)
    theta = gen.angles(nt, "half", c["seed"])
    cen = gen.centers(c["ckind"], c["seed"], ny, nx)
    kw = gen.options(c["alg"], dict(c["o"], grid=None), nt, c["seed"])
    a = call(tomopy.recon, sino, theta, center=cen, sinogram_order=True, algorithm=c["alg"],
             ncore=1, nchunk=c["nchunk"], **kw)
    b = call(tomopy.recon, sino, theta, center=cen, sinogram_order=True, algorithm=c["alg"],
             ncore=8, nchunk=c["nchunk"], **kw)
    if c["alg"] == "gridrec":
        close(b, a, 1.5e-4, "8 threads vs 1")
    else:
        same(b, a, "8 threads vs 1")


THREADS = st.fixed_dictionaries({
    "alg": st.sampled_from(gen.ALGS), "nt": st.integers(8, 24), "nx": st.integers(16, 40),
    "ckind": st.sampled_from(gen.CENTERS), "seed": seeds(), "o": gen.opts(),
    "nchunk": st.sampled_from([0, 1, 2, 3])})

WIDE = CASE.flatmap(lambda c: st.one_of(
    st.fixed_dictionaries({"ny": st.integers(2, 5), "nt": st.integers(61, 500), "nx": st.integers(2, 16)}),
    st.fixed_dictionaries({"ny": st.integers(2, 5), "nt": st.integers(1, 20), "nx": st.integers(41, 300)}),
    st.fixed_dictionaries({"ny": st.integers(71, 400), "nt": st.integers(1, 3), "nx": st.integers(2, 5)})
    ).map(lambda d: dict(c, o=dict(c["o"], iters=1), **d)))
NT = lambda c: c["ny"] > 1 and (c["ncore"] != 1 or c["nchunk"] is not None)

SUBS = [
    Sub("division", CASE, division, quick=12000, thorough=300000, shards=5, nontrivial=NT),
    Sub("wide", WIDE, division, quick=80, thorough=2500, shards=1, nontrivial=NT),
    Sub("permutation", CASE, permutation, quick=2000, thorough=40000, shards=1, nontrivial=NT),
    Sub("callable", CASE, callable_alg, quick=600, thorough=10000, shards=1, nontrivial=NT),
    Sub("threads", THREADS, threads, quick=240, thorough=6000, shards=1),
]
