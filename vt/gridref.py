"""float64 reference of the Fourier gridding reconstruction (Dowd et al. 1999)."""
import numpy as np
from numpy.polynomial import legendre as L

COEFS = [57.67616, -89.31343, 41.67596, -10.53599, 1.662374, -0.1780527, 0.01372983,
         -0.7963169e-3, 0.3593372e-4, -0.1295941e-5, 0.3817796e-7]
C, LAMBDA, LTBL, SPAN = 7.0, 0.99998546, 512, 4


def pdim(dx):
    p = 16
    while p < dx:
        p *= 2
    return p


def response(name, dx, par=(0.5, 8.0)):
    """Filter response at the non-negative frequencies of the padded detector."""
    pd = pdim(dx)
    j = np.arange(pd // 2)
    x = j / pd
    a, b = (list(par) + [8.0])[:2]
    if name == "none":
        return np.ones_like(x)
    r = 2 * x
    if name == "ramlak":
        return r
    if name == "shepp":
        return r * np.sinc(x)
    if name == "cosine":
        return r * np.cos(np.pi * x)
    if name == "hann":
        return r * 0.5 * (1 + np.cos(2 * np.pi * x / a))
    if name == "hamming":
        return r * (0.54 + 0.46 * np.cos(2 * np.pi * x / a))
    if name == "parzen":
        return r * (1 - x / a)**3
    if name == "butterworth":
        return r / (1 + (x / a)**(2 * b))
    raise ValueError(name)


def _tables(pd):
    co = np.zeros(21)
    co[::2] = COEFS
    w = L.legval(np.arange(LTBL + 1) / LTBL, co)
    w = w / w[0]
    m = pd // 2 - 1
    norm = np.sqrt(np.pi / 2 / C / LAMBDA) / 1.2
    i = np.arange(-m, m + 2)
    idx = np.minimum(np.round(np.abs(i) * (LTBL / (m + 0.5))).astype(int), LTBL)
    winv = norm * (-1.0)**np.abs(i) / w[idx]
    return w, winv          # winv[k]: k = 0..pd-1, centre at pd/2-1


def gridrec(sino, theta, center, gx, gy, filt, bound=False):
    """sino (nt, dx); filt (pd/2,) or (nt, pd/2).  With bound also what one kernel table
    index rounded the other way changes at each pixel."""
    nt, dx = sino.shape
    pd = pdim(dx)
    h = pd // 2
    theta = np.asarray(theta, np.float32)
    cs, sn = np.cos(theta), np.sin(theta)          # single precision like the grid indices
    w, winv = _tables(pd)
    F = np.fft.ifft(sino.astype(np.float64), pd, axis=1) * pd
    j = np.arange(h)
    ph = np.exp(-2j * np.pi * j * float(np.float32(center)) / pd) * np.pi / pd / nt
    filt = np.broadcast_to(filt, (nt, h))
    H = np.zeros((pd, pd), complex)
    reach = int(C / np.pi)
    spc = 2 * LTBL // SPAN
    for p in range(nt):
        A = filt[p] * ph
        for k in range(1, h):
            U = float(np.float32(np.float32(k) * cs[p]) + np.float32(h))
            V = float(np.float32(np.float32(k) * sn[p]) + np.float32(h))
            iu = np.arange(max(1, int(np.ceil(U - reach))), min(pd - 1, int(np.floor(U + reach))) + 1)
            iv = np.arange(max(1, int(np.ceil(V - reach))), min(pd - 1, int(np.floor(V + reach))) + 1)
            wu = w[np.floor(np.abs(U - iu) * spc + 0.5).astype(int)]
            wv = w[np.floor(np.abs(V - iv) * spc + 0.5).astype(int)]
            W = np.outer(wu, wv)
            H[np.ix_(iu, iv)] += W * (A[k] * F[p, k])
            H[np.ix_(pd - iu, pd - iv)] += W * (np.conj(A[k]) * F[p, pd - k])
    img = np.fft.fft2(H)
    padx, pady = (pd - gx) // 2, (pd - gy) // 2
    ju = np.arange(gy) + pady
    kv = np.arange(gx) + padx
    out = img[np.ix_((ju + h) % pd, (kv + h) % pd)].real * np.outer(winv[ju], winv[kv])
    if bound:
        big = np.abs(filt * ph * F[:, :h]).max()
        return out.T[::-1], (np.abs(np.outer(winv[ju], winv[kv])) * big * 0.02).T[::-1]
    return out.T[::-1]           # (gx rows, gy columns)


def fbp(sino, theta, center, gx, gy, filt):
    """Exact evaluation of what gridding approximates: each projection is filtered in
    the padded Fourier domain and back projected as a trigonometric polynomial."""
    nt, dx = sino.shape
    pd = pdim(dx)
    h = pd // 2
    F = np.fft.fft(sino.astype(np.float64), pd, axis=1)
    filt = np.broadcast_to(filt, (nt, h))
    x = h - (np.arange(gx)[::-1] + (pd - gx) // 2)      # row -> coordinate
    y = np.arange(gy) + (pd - gy) // 2 - h
    out = np.zeros((gx, gy))
    k = np.arange(1, h)
    for p, th in enumerate(np.asarray(theta, np.float64)):
        t = (y[None, :] * np.cos(th) - x[:, None] * np.sin(th)) + center
        e = np.exp(2j * np.pi * t[..., None] * k / pd)
        out += 2 * (e * (filt[p, 1:] * F[p, 1:h])).real.sum(-1)
    return out * np.pi / pd / nt
