"""Independent float64 reference models (no code shared with tomopy)."""
import numpy as np


def _fracs(dx, center, nx, ny):
    c = float(np.float32(center))
    v = np.array([(dx - 1) * 0.5 - c, 0.5 - c + nx * 0.5, 0.5 - c + ny * 0.5])
    return v - np.floor(v)


def axis_offset(dx, center, nx, ny):
    """Signed distance of detector bin 0's ray from the rotation axis; the forward
    model keeps rays off the grid lines (and off half bins) by a 0.01 px nudge."""
    off = 0.5 - float(np.float32(center))
    if (_fracs(dx, center, nx, ny) < np.float32(0.01)).any():
        off += 0.01
    return off


def nudge_unclear(dx, center, nx, ny, eps=2e-5):
    f = _fracs(dx, center, nx, ny)
    return bool((np.abs(f - 0.01) < eps).any() or (f > 1 - eps).any())


def ray(nx, ny, off, th, trim=None):
    """Pixels and lengths of the ray {t*(cos,sin) + off*(-sin,cos)} in the nx x ny
    unit-pixel grid centred on the axis.  -> (idx, length, margin): margin is the
    distance of the nearest crossing to the boundary rule (small = ambiguous)."""
    c, s = np.cos(th), np.sin(th)
    if abs(c) < 1e-6:
        c = 0.0
    if abs(s) < 1e-6:
        s = 0.0
    gx = np.arange(nx + 1) - nx / 2.0
    gy = np.arange(ny + 1) - ny / 2.0
    ts = []
    margin = np.inf
    cut = 0.01 if trim else 0.0
    if c != 0.0:
        t = (gx + off * s) / c
        y = t * s + off * c
        m = np.minimum(y - gy[0], gy[-1] - y) - cut
        margin = min(margin, np.abs(m).min())
        ts.append(t[m >= 0])
    else:
        x = -off * s
        margin = min(margin, np.abs(gx - x).min())
    if s != 0.0:
        t = (gy - off * c) / s
        x = t * c - off * s
        m = np.minimum(x - gx[0], gx[-1] - x) - cut
        margin = min(margin, np.abs(m).min())
        ts.append(t[m >= 0])
    else:
        y = off * c
        margin = min(margin, np.abs(gy - y).min())
    t = np.sort(np.concatenate(ts)) if ts else np.zeros(0)
    if t.size < 2:
        return np.zeros(0, int), np.zeros(0), margin
    L = np.diff(t)
    mid = 0.5 * (t[1:] + t[:-1])
    ix = np.floor(mid * c - off * s + nx / 2.0).astype(int)
    iy = np.floor(mid * s + off * c + ny / 2.0).astype(int)
    ok = (ix >= 0) & (ix < nx) & (iy >= 0) & (iy < ny)
    return (iy + ix * ny)[ok], L[ok], margin


def matrix(nx, ny, dx, theta, center, trim=True, shift=0.0):
    """Dense system matrix (len(theta)*dx, nx*ny) and per-ray margins."""
    theta = np.asarray(theta, np.float32).astype(np.float64)
    A = np.zeros((len(theta) * dx, nx * ny))
    M = np.zeros(len(theta) * dx)
    off0 = axis_offset(dx, center, nx, ny) + shift
    for p, th in enumerate(theta):
        for d in range(dx):
            i, L, m = ray(nx, ny, off0 + d, th, trim)
            np.add.at(A[p * dx + d], i, L)
            M[p * dx + d] = m
    return A, M
