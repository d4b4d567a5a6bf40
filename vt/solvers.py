"""Dense float64 reference implementations of the iterative solvers.

A is the system matrix (rays x pixels), d the data of one slice (rays, ordered
angle by angle), x the initial image (flat, nx*ny)."""
import numpy as np


def _div(a, b):
    out = np.zeros_like(a)
    np.divide(a, b, out=out, where=b != 0)
    return out


def art(A, d, x, iters, **k):
    n2 = (A * A).sum(1)
    x = x.copy()
    for _ in range(iters):
        for r in range(len(A)):
            if n2[r]:
                x += (d[r] - A[r] @ x) / n2[r] * A[r]
    return x


def blocks(nt, dx, num_block, ind):
    """Rows of A in each block."""
    if num_block <= 1:
        return [np.arange(nt * dx)]
    size, rem = divmod(nt, num_block)
    out, e = [], 0
    for b in range(num_block):
        s, e = e, e + size + (b < rem)
        out.append(np.concatenate([np.arange(p * dx, (p + 1) * dx) for p in ind[s:e]])
                   if e > s else np.zeros(0, int))
    return out


def bart(A, d, x, iters, rows, **k):
    x = x.copy()
    n2 = (A * A).sum(1)
    for _ in range(iters):
        for R in rows:
            B = A[R]
            u = B.T @ _div(d[R] - B @ x, n2[R])
            x += _div(u, B.sum(0))
    return x


def osem(A, d, x, iters, rows, **k):
    x = x.copy()
    for _ in range(iters):
        for R in rows:
            B = A[R]
            c = B.sum(0)
            f = _div(B.T @ _div(d[R], B @ x), c)
            x = np.where(c != 0, x * f, x)
    return x


def fbp(A, d, x, **k):
    return x + A.T @ d


def _neigh(nx, ny):
    """Lists (pixel, neighbour, weight), weights normalised per pixel."""
    P, Q, W = [], [], []
    for i in range(nx):
        for j in range(ny):
            nb = []
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    if (a or b) and 0 <= i + a < nx and 0 <= j + b < ny:
                        nb.append(((i + a) * ny + j + b, 1 / np.sqrt(2) if a and b else 1.0))
            t = sum(w for _, w in nb)
            for q, w in nb:
                P.append(i * ny + j)
                Q.append(q)
                W.append(w / t)
    return np.array(P), np.array(Q), np.array(W)


def ospml(A, d, x, iters, rows, reg, shape, hybrid, **k):
    x = x.copy()
    P, Q, W = _neigh(*shape)
    for _ in range(iters):
        for R in rows:
            B = A[R]
            E = -x * (B.T @ _div(d[R], B @ x))
            w = 2 * reg[0] * W
            if hybrid:
                w = w / (1 + np.abs((x[P] - x[Q]) / reg[1]))
            F = np.bincount(P, w, len(x))
            G = -np.bincount(P, w * (x[P] + x[Q]), len(x)) + B.sum(0)
            root = np.sqrt(np.maximum(G * G - 8 * E * F, 0))
            pos = G > 0
            x = np.where(pos, -2 * E / np.where(pos, G + root, 1),
                         (-G + root) / (4 * np.where(F != 0, F, 1)))
    return x


def grad(A, d, x, iters, reg, nt, dx, tikh=None, **k):
    r = 1 / np.sqrt(dx * nt / 2.0)
    x = x / r
    x0 = x.copy()
    g0 = np.zeros_like(x)
    for i in range(iters):
        g = 2 * r * (A.T @ (r * (A @ x) - d))
        if tikh is not None:
            g = g + 2 * reg[1] * (x - tikh)
        if reg[0] < 0:
            dg = g - g0
            # (near convergence the step is rounding noise)
            lam = 1e-3 if i == 0 else ((x - x0) @ dg) / max(dg @ dg, 1e-300)
        else:
            lam = reg[0]
        g0, x0 = g, x
        x = x - lam * g
    return x * r


def tv(A, d, x, iters, reg, nt, dx, shape, **k):
    r = 1 / np.sqrt(dx * nt / 2.0)
    c = 0.35
    lam = reg[0]
    nx, ny = shape
    x = (x / r).reshape(shape)
    u = x.copy()
    px, py = np.zeros(shape), np.zeros(shape)
    q = np.zeros(len(d))
    I = np.s_[:nx - 1, :ny - 1]
    for _ in range(iters):
        px[I] += c * (x[:-1, 1:] - x[:-1, :-1])
        py[I] += c * (x[1:, :-1] - x[:-1, :-1])
        m = np.maximum(1, np.sqrt(px**2 + py**2) / lam)
        px, py = px / m, py / m
        q = (q + c * r * (A @ x.ravel()) - c * d) / (1 + c)
        adj = (r * (A.T @ q)).reshape(shape)
        old = u.copy()
        div = px.copy()
        div[:, 1:] -= px[:, :-1]
        div += py
        div[1:, :] -= py[:-1, :]
        u = u - c * adj + c * div
        x = 2 * u - old
    return x.ravel() * r


def solve(alg, A, d, x, kw, shape, nt, dx, reg_data=None):
    it = int(kw.get("num_iter", 1))
    reg = np.ones(10)
    if kw.get("reg_par") is not None:
        v = np.atleast_1d(np.asarray(kw["reg_par"], np.float32)).astype(float)
        reg[:v.size] = v
    nb = int(kw.get("num_block", 1))
    rows = blocks(nt, dx, nb, kw.get("ind_block", np.arange(nt)))
    one = blocks(nt, dx, 1, None)
    with np.errstate(all="ignore"):
        if alg == "art":
            return art(A, d, x, it)
        if alg == "bart":
            return bart(A, d, x, it, rows)
        if alg == "sirt":
            return bart(A, d, x, it, one)
        if alg == "osem":
            return osem(A, d, x, it, rows)
        if alg == "mlem":
            return osem(A, d, x, it, one)
        if alg == "fbp":
            return fbp(A, d, x)
        if alg in ("ospml_hybrid", "ospml_quad"):
            return ospml(A, d, x, it, rows, reg, shape, alg.endswith("hybrid"))
        if alg in ("pml_hybrid", "pml_quad"):
            return ospml(A, d, x, it, one, reg, shape, alg.endswith("hybrid"))
        if alg == "grad":
            return grad(A, d, x, it, reg, nt, dx)
        if alg == "tikh":
            return grad(A, d, x, it, reg, nt, dx, tikh=reg_data)
        if alg == "tv":
            return tv(A, d, x, it, reg, nt, dx, shape)
    raise ValueError(alg)


ALGS = ("art", "bart", "sirt", "osem", "mlem", "fbp", "ospml_hybrid", "ospml_quad", "pml_hybrid",
        "pml_quad", "grad", "tikh", "tv")
