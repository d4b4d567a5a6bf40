"""C19: vector tomography projects and reconstructs each component in its axes."""
import os
import sys

import numpy as np
import tomopy

from vt import gen, ref
from vt.core import far, Sub, st, data, call, close, same, expect, seeds, unchanged, rejects, layout, LAYOUTS, Skip

RULE = "at least two voxels per slice, an angle at which both components contribute, non-zero data"
ASSUMPTIONS = [
    "rays run towards the detector's side with the direction (-cos, -sin) of the angle, as in the present code",
    "angles are moved until no ray passes within 0.021 px of a corner of the grid; rays as in C02",
    "reconstruction compared to 1e-4 of the largest value plus 100 times the reference's change under 1e-6 perturbation",
]


def planes(f, axis, s):
    """The two components of slice s in the plane of the axis, indexed [x, y]; views."""
    x, y, z = f
    if axis == 0:
        return x[s], y[s]
    if axis == 1:
        return y[:, :, s].T, z[:, :, s].T
    return x[:, s, :].T, z[:, s, :].T


def directions(theta, dx):
    t = np.repeat(np.asarray(theta, np.float32).astype("f8"), dx)
    return -np.cos(t), -np.sin(t)


PROJ = st.fixed_dictionaries({
    "ny": far(1, 4, 30), "nx": far(1, 9, 30), "nz": far(1, 9, 30), "nt": far(1, 6, 40),
    "axis": st.sampled_from([None, 0, 1, 2]), "akind": st.sampled_from(gen.ANGLES),
    "ckind": st.sampled_from(gen.CENTERS), "kind": st.sampled_from(["uniform", "signed", "sparse", "ints"]),
    "seed": seeds(), "pad": st.booleans(), "emission": st.booleans(), "order": st.booleans(),
    "layout": st.sampled_from(LAYOUTS), "ncore": st.sampled_from([None, 1, 3])})


def project(c):
    axis = c["axis"]
    n = (c["ny"], c["nx"], c["nz"]) if axis in (None, 0) else (c["nx"],) * 3
    f = [data(n, c["seed"] + k, c["kind"]) * np.float32(0.1 if not c["emission"] else 1) for k in range(3)]
    th = gen.angles(c["nt"], c["akind"], c["seed"])
    ny, nx, nz = n
    dx = int(np.ceil((np.sqrt(nx * nx + nz * nz) + 2) / 2.) * 2) if c["pad"] else nx
    cen = gen.centers(c["ckind"], c["seed"], ny, dx)
    kw = dict(center=cen, emission=c["emission"], pad=c["pad"], sinogram_order=c["order"], ncore=c["ncore"])
    a = [layout(v, c["layout"]) for v in f]
    with unchanged(x=a[0], y=a[1], z=a[2], theta=th):
        if axis is None:
            got = call(tomopy.project2, a[0], a[1], th, **kw)
        else:
            got = call(tomopy.project3, *a, th, axis=axis, **kw)
    shape = (ny, len(th), dx) if c["order"] else (len(th), ny, dx)
    expect(got.shape == shape, "shape %s, expected %s", got.shape, shape)
    if not c["order"]:
        got = np.swapaxes(got, 0, 1)
    ce = np.broadcast_to(np.asarray(dx / 2. if cen is None else cen, np.float32), (ny,))
    vx, vy = directions(th, dx)
    for s in range(ny):
        if ref.nudge_unclear(dx, ce[s], nx, nz):
            continue
        A, M = ref.matrix(nx, nz, dx, th, ce[s], trim=False)
        u, v = planes([b.astype("f8") for b in f], axis or 0, s)
        want = vx * (A @ u.ravel()) + vy * (A @ v.ravel())
        scale = (np.abs(u).max() + np.abs(v).max()) * np.hypot(nx, nz)
        if not c["emission"]:
            want = np.exp(-want)
            scale = max(1.0, want.max(), scale)
        close(got[s].ravel(), want, 2e-5, "projection of slice %d about axis %s" % (s, axis), scale=scale, mask=M > 0.021)
        expect(np.isfinite(got[s]).all(), "not finite")


REC = st.fixed_dictionaries({
    "sets": st.sampled_from([1, 1, 2, 3]), "ny": far(1, 4, 12), "n": st.integers(2, 8), "nt": far(1, 6, 16),
    "akind": st.sampled_from(gen.ANGLES), "ckind": st.sampled_from(gen.CENTERS), "seed": seeds(),
    "kind": st.sampled_from(["signed", "uniform", "sparse", "consistent"]), "iters": far(1, 3, 12),
    "axes": st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2)).map(list)),
    "layout": st.sampled_from(LAYOUTS)})


def clear(n, theta, centres):
    """Angles moved until no ray about any of the axes passes near a corner; the matrix of each axis."""
    th = np.array(theta, np.float32)
    rows = {v: [] for v in centres}
    for p in range(len(th)):
        for k in range(80):
            both = {v: ref.matrix(n, n, n, th[p:p + 1], np.float32(v), trim=False) for v in centres}
            if all(M.min() > 0.021 for _, M in both.values()):
                break
            t = float(theta[p]) + 0.0137 * (k + 1) * (1 if k % 2 else -1)
            q = np.round(t / (np.pi / 2)) * (np.pi / 2)
            th[p] = q + 0.031 if abs(t - q) < 0.03 else t
        else:
            raise Skip()
        for v in centres:
            rows[v].append(both[v][0])
    return th, {v: np.concatenate(r) for v, r in rows.items()}


def setup(c):
    n, k = c["n"], c["sets"]
    ny = c["ny"] if k == 1 else n
    axes = {1: [0], 2: [1, 2], 3: [0, 1, 2]}[k] if c["axes"] is None or k == 1 else c["axes"][:k]
    field = [data((ny, n, n), c["seed"] + j, "signed").astype("f8") for j in range(3)]
    sets = []
    for j in range(k):
        cen = gen.centers(c["ckind"], c["seed"] + j, ny, n)
        ce = np.broadcast_to(np.asarray(n / 2. if cen is None else cen, np.float32), (ny,))
        if any(ref.nudge_unclear(n, v, n, n) for v in set(map(float, ce))):
            raise Skip()
        th = gen.angles(c["nt"], c["akind"], c["seed"] + 11 * j)
        th, mats = clear(n, th, sorted(set(map(float, ce))))
        A = [mats[float(v)] for v in ce]
        if c["kind"] == "consistent":
            vx, vy = directions(th, n)
            d = np.stack([vx * (A[s] @ planes(field, axes[j], s)[0].ravel())
                          + vy * (A[s] @ planes(field, axes[j], s)[1].ravel()) for s in range(ny)]).reshape(ny, c["nt"], n)
        else:
            d = data((ny, c["nt"], n), c["seed"] + 5 + j, c["kind"])
        sets.append((d.astype("f4"), th, cen, A, axes[j]))
    return sets, ny, axes


def solve(sets, ny, n, iters, eps=0.0, seed=0):
    r = np.random.default_rng(seed)
    f = [np.zeros((ny, n, n)) for _ in range(3)]
    for _ in range(iters):
        for d, th, _, mats, axis in sets:
            vx, vy = directions(th, n)
            for s in range(ny):
                A = mats[s] * (1 + eps * r.normal(size=mats[s].shape)) if eps else mats[s]
                u, v = planes(f, axis, s)
                res = d[s].ravel().astype("f8") * (1 + eps * r.normal(size=d[s].size)) \
                    - vx * (A @ u.ravel()) - vy * (A @ v.ravel())
                L2, col = (A ** 2).sum(1), A.sum(0)
                up = np.where(L2 > 0, res / np.where(L2 > 0, L2, 1), 0)
                for w, t in ((u, vx), (v, vy)):
                    w += np.where(col > 0, (A.T @ (up * t)) / np.where(col > 0, col, 1), 0).reshape(n, n)
    return f


def muted(f, *a, **k):
    """The compiled code prints its iterations."""
    sys.stdout.flush()
    keep, dev = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(dev, 1)
        return call(f, *a, **k)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(dev)


def run(c, sets, axes, iters=None):
    tomo = [np.swapaxes(s[0], 0, 1) for s in sets]
    tomo = [layout(t, c["layout"]) for t in tomo]
    th, cen = [s[1] for s in sets], [s[2] for s in sets]
    k = {"num_iter": iters or c["iters"]}
    if len(sets) > 1 and c["axes"] is not None:
        k.update({"axis%d" % (j + 1): a for j, a in enumerate(axes)})
    with unchanged(**{"tomo%d" % j: t for j, t in enumerate(tomo)}):
        if len(sets) == 1:
            return muted(tomopy.vector, tomo[0], th[0], center=cen[0], **k)
        f = tomopy.vector2 if len(sets) == 2 else tomopy.vector3
        k.update({"center%d" % (j + 1): v for j, v in enumerate(cen)})
        return muted(f, *tomo, *th, **k)


def update(c):
    sets, ny, axes = setup(c)
    n = c["n"]
    got = run(c, sets, axes)
    want = solve(sets, ny, n, c["iters"])
    other = solve(sets, ny, n, c["iters"], 1e-6, c["seed"])
    slack = max(np.abs(a - b).max() for a, b in zip(want, other))
    top = max(np.abs(w).max() for w in want)
    if 100 * slack > 0.05 * max(top, 1e-30) or not np.isfinite(top):
        raise Skip()
    for j, (g, w) in enumerate(zip(got, want[:len(got)])):
        close(g, w, 1.0, "component %d" % (j + 1), scale=1e-4 * top + 100 * slack)
        # what no ray crosses keeps its initial value exactly
        same(g[w == 0][np.abs(other[j][w == 0]) == 0], np.zeros(((w == 0) & (other[j] == 0)).sum(), "f4"), "untouched voxels")


ASK = st.fixed_dictionaries({"n": st.integers(2, 5), "nt": st.integers(1, 4), "what": st.sampled_from(
    ["axis", "shape", "angles", "cube", "size", "project2"]), "k": st.integers(2, 3), "j": st.integers(0, 2), "v": st.sampled_from([-1, 3, 7])})


def ask(c):
    n, nt, k = c["n"], c["nt"], c["k"]
    f = tomopy.vector2 if k == 2 else tomopy.vector3
    t = [np.ones((nt, n, n), "f4") for _ in range(k)]
    th = [tomopy.angles(nt) + 0.1 for _ in range(k)]
    j = c["j"] % k
    obj = [np.ones((n, n, n), "f4") for _ in range(3)]
    if c["what"] == "axis":
        rejects(ValueError, f, *t, *th, **{"axis%d" % (j + 1): c["v"]})
        rejects(ValueError, tomopy.project3, *obj, th[0], axis=c["v"])
    elif c["what"] == "shape":
        obj[c["j"]] = np.ones((n, n, n + 1), "f4")
        rejects(ValueError, tomopy.project3, *obj, th[0], axis=0)
    elif c["what"] == "project2":
        obj[c["j"] % 2] = np.ones((n, n - 1, n), "f4")
        rejects(ValueError, tomopy.project2, obj[0], obj[1], th[0])
    elif c["what"] == "angles":
        th[j] = np.append(th[j], 0.3)
        rejects(ValueError, f, *t, *th)
    elif c["what"] == "cube":
        rejects(ValueError, tomopy.project3, *[o[:-1] for o in obj], th[0], axis=1 + c["j"] % 2)
        rejects(ValueError, f, *[v[:, :-1] for v in t], *th)
    else:
        t[j] = np.ones((nt, n + 1, n + 1), "f4")
        rejects(ValueError, f, *t, *th)


SUBS = [
    Sub("project", PROJ, project, quick=1500, thorough=25000, shards=3, nontrivial=lambda c: c["nx"] > 1),
    Sub("update", REC, update, quick=900, thorough=15000, shards=4, nontrivial=lambda c: c["nt"] > 1),
    Sub("ask", ASK, ask, quick=150, thorough=1000),
]
