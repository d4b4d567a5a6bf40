"""Double-precision models of the stripe filters, one sinogram (angle, column) at a time."""
import numpy as np
import pywt
from scipy.signal import savgol_filter


class Unclear(Exception):
    """A decision (rank, threshold) that single precision could take either way."""


def windows(a, sizes, mode="symmetric"):
    p = np.pad(a, [(s // 2, s - 1 - s // 2) for s in sizes], mode=mode)
    return np.lib.stride_tricks.sliding_window_view(p, sizes).reshape(a.shape + (-1,))


def median(a, *sizes):
    w = windows(a, sizes)
    return np.sort(w, -1)[..., w.shape[-1] // 2]


def gap(a, eps):
    """Ranks along the angles must be clear."""
    s = np.sort(a, 0)
    if len(s) > 1 and eps and np.diff(s, axis=0).min() < eps * np.abs(a).max():
        raise Unclear()


def sf(s, size):
    av = s.mean(0)
    n = len(av)
    k = np.clip(np.arange(n)[:, None] + np.arange(size) - size // 2, 0, n - 1)
    return s - (av - av[k].mean(1))


def conv(h, n):
    """HtH of the valid convolution with h."""
    H = np.zeros((n - len(h) + 1, n))
    for i in range(len(H)):
        H[i, i:i + len(h)] = h
    return H.T @ H


def ti(s, nblock, alpha):
    n, c = s.shape
    step = n if nblock == 0 else int(n / nblock)
    d = []
    for h in ([1, -1], [-1, 2, -1]):
        A = conv(np.array(h, float), c)
        o = s.copy()
        for k in range(0, n, step):
            b = s[k:k + step]
            t = b.sum(1)
            rng = t.max() - t.min()
            if rng == 0:
                continue
            reg = 1 / (2 * rng)
            o[k:k + step] += np.linalg.solve(A + reg * np.eye(c), -A @ b.mean(0))
        d.append(o)
    p = d[0] * d[1]
    return np.sqrt(p + alpha * abs(p.min()))


def fw(s, level, wname, sigma, pad):
    n, c = s.shape
    N = n + n // 8 if pad else n
    x0 = (N - n) // 2
    x = np.zeros((N, c))
    x[x0:x0 + n] = s
    det = []
    for _ in range(level):
        x, d = pywt.dwt2(x, wname)
        det.append(list(d))
    for d in det:
        m = d[1].shape[0]
        k = np.arange(m)
        # damping of frequency index f - m//2, offset by half a bin
        f = np.fft.fftshift(k)          # order in which the centred window meets the spectrum
        y = k - m / 2 + 0.5
        damp = np.empty(m)
        damp[f] = 1 - np.exp(-y ** 2 / (2 * sigma ** 2))
        d[1] = np.fft.ifft(np.fft.fft(d[1], axis=0) * damp[:, None], axis=0).real
    for d in det[::-1]:
        x = pywt.idwt2((x[:d[0].shape[0], :d[0].shape[1]], tuple(d)), wname)
    return x[x0:x0 + n, :c]


def default_size(c):
    return 21 if c > 2000 else max(5, int(0.01 * c))


def sorting(s, size, dim, eps):
    gap(s, eps)
    size = size or default_size(s.shape[1])
    order = np.argsort(s, axis=0, kind="stable")
    srt = np.take_along_axis(s, order, 0)
    m = median(srt, 1, size) if dim == 1 else median(srt, size, size)
    out = np.empty_like(s)
    np.put_along_axis(out, order, m, 0)
    return out


def filtering(s, sigma, size, dim, eps):
    n = len(s)
    pad = min(150, int(0.1 * n))
    p = np.pad(s, ((pad, pad), (0, 0)), mode="reflect") if pad else s
    N = n + 2 * pad
    k = np.arange(N)
    w = np.exp(-0.5 * ((k - (N - 1) / 2) / sigma) ** 2)
    sign = (-1.0) ** k
    E = np.exp(-2j * np.pi * np.outer(k, k) / N)
    T = (sign[:, None] * (np.conj(E) / N @ (w[:, None] * E)) * sign[None]).real
    smooth = (T @ p)[pad:N - pad]
    return sorting(smooth, size, dim, eps) + (s - smooth)


def fitting(s, order, sigma):
    n, c = s.shape
    m = n if n % 2 else n - 1
    order = min(order, m - 1)
    fit = savgol_filter(s, m, order, axis=0, mode="mirror")
    pad = min(150, int(0.1 * n))
    q = np.pad(fit, ((0, 0), (pad, pad)), mode="edge")
    q = np.concatenate([np.repeat(q.mean(0)[None], pad, 0), q, np.repeat(q.mean(0)[None], pad, 0)])
    h, w = q.shape
    x, y = np.arange(w) - (w - 1) / 2, np.arange(h) - (h - 1) / 2
    win = np.exp(-(x[None] ** 2 / (2 * sigma[0] ** 2) + y[:, None] ** 2 / (2 * sigma[1] ** 2)))
    sign = (-1.0) ** (np.arange(w)[None] + np.arange(h)[:, None])
    Ey = np.exp(-2j * np.pi * np.outer(np.arange(h), np.arange(h)) / h)
    Ex = np.exp(-2j * np.pi * np.outer(np.arange(w), np.arange(w)) / w)
    F = Ey @ (q * sign) @ Ex
    sm = ((np.conj(Ey) @ (F * win) @ np.conj(Ex)) / (h * w) * sign).real[pad:h - pad, pad:w - pad]
    return s / fit * (sm * fit.mean() / sm.mean())


def detect(v, snr, eps):
    """Columns whose factor leaves the line fitted to the middle of the sorted factors."""
    n = len(v)
    s = np.sort(v)[::-1]
    x = np.arange(n, dtype=float)
    k = int(0.25 * n)
    a, b = np.polyfit(x[k:-k - 1], s[k:-k - 1], 1)
    end = b + a * x[-1]
    noise = max(abs(end - b), 1e-6)
    if eps and noise < 100 * eps:
        raise Unclear()
    m = np.zeros(n, bool)
    up, down = abs(s[0] - b) / noise, abs(s[-1] - end) / noise
    e = max(eps, 1e-9) / noise * 50 + 1e-9
    if min(abs(up - snr), abs(down - snr)) < e:
        raise Unclear()
    if up >= snr:
        t = b + noise * snr * 0.5
        m |= v > t
        if np.abs(v - t).min() < e * noise:
            raise Unclear()
    if down >= snr:
        t = end - noise * snr * 0.5
        m |= v <= t
        if np.abs(v - t).min() < e * noise:
            raise Unclear()
    return m


def grow(m):
    g = m.copy()
    g[1:] |= m[:-1]
    g[:-1] |= m[1:]
    return g


def factor(s, size, drop):
    n = len(s)
    drop = min(max(drop, 0.0), 0.8)
    k = int(0.5 * drop * n)
    srt = np.sort(s, 0)
    sm = median(srt, 1, size)
    a, b = srt[k:n - k].mean(0), sm[k:n - k].mean(0)
    if min(np.abs(a).min(), np.abs(b).min()) < 0.01 * np.abs(s).max() and (a != 0).any():
        raise Unclear()     # a quotient of means that almost vanish
    return np.where(b != 0, a / np.where(b != 0, b, 1), 1.0), sm


def large(s, snr, size, drop, norm, eps):
    f, sm = factor(s, size, drop)
    m = grow(detect(f, snr, eps))
    if norm:
        s = s / f
    out = s.copy()
    if m.any():
        gap(s[:, m], eps)
        r = np.argsort(np.argsort(s, 0, kind="stable"), 0)
        out[:, m] = np.take_along_axis(sm, r, 0)[:, m]
    return out


def bridge(s, m):
    """Columns in m linearly interpolated over the others (two at each end are kept)."""
    m = m.copy()
    m[:2] = m[-2:] = False
    x = np.arange(s.shape[1])
    out = s.copy()
    if m.any():
        out[:, m] = np.stack([np.interp(x[m], x[~m], r[~m]) for r in s])
    return out


def dead(s, snr, size, norm, eps):
    sm = windows(s, (10, 1)).mean(-1)
    d = np.abs(s - sm).sum(0)
    b = median(d, size)
    f = np.where(b != 0, d / np.where(b != 0, b, 1), 1.0)
    out = bridge(s, grow(detect(f, snr, eps)))
    return large(out, snr, size, 0.1, True, eps) if norm else out


def everything(s, snr, la, small, dim, eps):
    return sorting(dead(s, snr, la, True, eps), small, dim, eps)


def interpolation(s, snr, size, drop, norm, eps):
    f, _ = factor(s, size, drop)
    m = grow(detect(f, snr, eps))
    return bridge(s / f if norm else s, m)
