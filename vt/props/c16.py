"""C16: phase retrieval and propagation apply their linear optics exactly."""
import numpy as np
import tomopy

from vt.core import far, dims, Sub, st, data, call, close, same, expect, seeds, unchanged, layout, KINDS, LAYOUTS

RULE = "the filter (or propagation distance) is not trivial: it changes the drawn data by more than rounding"
ASSUMPTIONS = [
    "frequency grid of the present code: N equally spaced values from -1/2 to 1/2 per pixel, zero frequency at N//2",
    "phase retrieval in single precision: 2e-5 of the data's largest magnitude",
]
HBAR, C = 6.58211928e-19, 299792458e2


def phase_model(x, pix, dist, energy, alpha, pad):
    lam = 2 * np.pi * HBAR * C / energy
    n, ny, nz = x.shape
    p = [0, 0]
    if pad:
        p = [int((2.0 ** np.ceil(np.log2(d + np.ceil(np.pi * lam * dist / pix ** 2))) - d) / 2) for d in (ny, nz)]

    def freq(m):
        return np.linspace(-0.5, 0.5, m) / pix if m > 1 else np.zeros(1)
    w2 = np.add.outer(freq(ny + 2 * p[0]) ** 2, freq(nz + 2 * p[1]) ** 2)
    h = 1 / (lam * dist * w2 / (4 * np.pi) + alpha)
    h = np.fft.ifftshift(h / h.max())
    a = np.pad(x.astype("f8"), ((0, 0), (p[0],) * 2, (p[1],) * 2), mode="edge")
    r = np.fft.ifft2(np.fft.fft2(a) * h).real
    return r[:, p[0]:p[0] + ny, p[1]:p[1] + nz]


def border(c):
    """The pad width is a ceil of a ceil: keep away from the jumps, where rounding decides."""
    lam = 2 * np.pi * HBAR * C / c["energy"]
    f = np.pi * lam * c["dist"] / c["pix"] ** 2
    return abs(f - round(f)) < 1e-6 * max(f, 1)


PHASE = st.fixed_dictionaries({
    "n": dims((1, 5), (1, 12), (1, 12)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "pix": st.sampled_from([1e-4, 6.5e-5, 2e-4, 1e-3]),
    "dist": st.sampled_from([0.1, 1.0, 5.0, 10.0, 50.0]), "energy": st.sampled_from([5.0, 12.4, 20.0, 60.0]),
    "alpha": st.sampled_from([1e-3, 1e-4, 1e-2, 1.0]), "pad": st.booleans(), "ncore": st.sampled_from([1, 1, 1, 2, 3]),
    "nchunk": st.sampled_from([None, 1, 2]), "layout": st.sampled_from(LAYOUTS)})


def phase(c):
    if border(c):
        c = dict(c, dist=c["dist"] * 1.01)
    x = data(c["n"], c["seed"], c["kind"])
    a = layout(x, c["layout"])
    kw = dict(pixel_size=c["pix"], dist=c["dist"], energy=c["energy"], alpha=c["alpha"], pad=c["pad"])
    if c["layout"].startswith("shared"):          # worked on in place
        got = call(tomopy.retrieve_phase, a, ncore=c["ncore"], nchunk=c["nchunk"], **kw)
    else:
        with unchanged(tomo=a):
            got = call(tomopy.retrieve_phase, a, ncore=c["ncore"], nchunk=c["nchunk"], **kw)
    want = phase_model(x, c["pix"], c["dist"], c["energy"], c["alpha"], c["pad"])
    close(got, want, 2e-5, "phase", scale=np.abs(x).max())


def phase_default(c):
    x = data(c["n"], c["seed"], c["kind"])
    kw = {k: v for k, v in (("pixel_size", c["pix"]), ("dist", c["dist"]), ("energy", c["energy"]),
                            ("alpha", c["alpha"])) if c["use"] % 2 and not c["use"] % 3}
    if c["use"] == 0:
        kw = dict(pad=False)
    full = dict(pixel_size=1e-4, dist=50.0, energy=20.0, alpha=1e-3, pad=True)
    full.update(kw)
    got = call(tomopy.retrieve_phase, x, ncore=1, **kw)
    close(got, phase_model(x, full["pixel_size"], full["dist"], full["energy"], full["alpha"], full["pad"]), 2e-5,
          "default phase", scale=np.abs(x).max())


RELATE = PHASE.map(lambda c: dict(c, dist=min(c["dist"], 3.0), pix=max(c["pix"], 1e-4)))


def relations(c):
    """Constants, linearity, slices alone, point reflection, and (without padding) circular shifts."""
    if border(c):
        c = dict(c, dist=c["dist"] * 1.01)
    kw = dict(pixel_size=c["pix"], dist=c["dist"], energy=c["energy"], alpha=c["alpha"], pad=c["pad"], ncore=1)
    x = data(c["n"], c["seed"], c["kind"])
    y = data(c["n"], c["seed"] + 3, "signed")
    s = np.abs(x).max() + np.abs(y).max()
    f = lambda a, **k: call(tomopy.retrieve_phase, np.ascontiguousarray(a), **dict(kw, **k))
    fx = f(x)
    close(f(np.full(c["n"], 3.25, "f4")), np.full(c["n"], 3.25), 1e-5, "a constant")
    close(f(x * np.float32(2) - y), 2.0 * fx - f(y), 4e-5, "linearity", scale=3 * s)
    close(f(x[:, ::-1, ::-1]), fx[:, ::-1, ::-1], 4e-5, "point reflection", scale=s)
    for i in range(len(x)):
        same(f(x[i:i + 1])[0], fx[i], "projection %d alone" % i)
    if not c["pad"]:
        r = np.random.default_rng(c["seed"])
        sh = (int(r.integers(-5, 6)), int(r.integers(-5, 6)))
        close(f(np.roll(x, sh, (1, 2))), np.roll(fx, sh, (1, 2)), 4e-5, "circular shift", scale=s)


TIE = st.fixed_dictionaries({
    "n": dims((1, 4), (2, 9), (2, 9)), "seed": seeds(),
    "kind": st.sampled_from(KINDS), "pix": st.sampled_from([1e-4, 0.01, 1.0, 2.5]), "dist": st.sampled_from([0.0, 1e-6, 0.5, 20.0]),
    "type": st.sampled_from(["f4", "f8"])})


def grad(a, h, axis):
    """Central differences, one-sided at the ends."""
    a = np.moveaxis(a, axis, 0)
    g = np.empty_like(a)
    g[1:-1] = (a[2:] - a[:-2]) / (2 * h)
    g[0], g[-1] = (a[1] - a[0]) / h, (a[-1] - a[-2]) / h
    return np.moveaxis(g, 0, axis)


def tie(c):
    mu = data(c["n"], c["seed"], c["kind"]).astype(c["type"])
    de = data(c["n"], c["seed"] + 1, "smooth").astype(c["type"])
    with unchanged(mu=mu, delta=de):
        got = call(tomopy.propagate_tie, mu, de, c["pix"], c["dist"])
    i1, d = np.exp(-mu.astype("f8")), de.astype("f8")
    h = c["pix"]
    lap = grad(i1 * grad(d, h, 1), h, 1) + grad(i1 * grad(d, h, 2), h, 2)
    want = i1 + c["dist"] * lap
    tol = 1e-12 if c["type"] == "f8" else 1e-5
    close(got, want, tol, "intensity", scale=np.abs(i1).max() + c["dist"] * np.abs(d).max() / h ** 2 * np.abs(i1).max() * 4)
    one = call(tomopy.propagate_tie, mu[:1], de[:1], c["pix"], c["dist"])
    same(got[:1], one, "projection alone")


PROBE = st.fixed_dictionaries({
    "nx": far(2, 12, 60), "ny": far(2, 12, 60), "fwhm": st.sampled_from([None, 1.0, 2.5, 7.0]),
    "center": st.one_of(st.none(), st.tuples(st.integers(-3, 14), st.integers(-3, 14)).map(list)),
    "max": st.sampled_from([None, 1, 5, 1e4]), "seed": seeds(), "px": st.integers(1, 20), "py": st.integers(1, 20),
    "sx": st.one_of(st.none(), st.integers(1, 9)), "sy": st.one_of(st.none(), st.integers(1, 9)),
    "mode": st.sampled_from(["near", "far", None]), "complex": st.booleans()})


def probe(c):
    nx, ny = c["nx"], c["ny"]
    kw = {k: c[k] for k in ("fwhm", "center") if c[k] is not None}
    if c["max"] is not None:
        kw["max_int"] = c["max"]
    p = call(tomopy.probe_gauss, nx, ny, **kw)
    c = dict(c, max=1 if c["max"] is None else c["max"])
    fwhm = c["fwhm"] or max(nx, ny) // 2
    x0, y0 = c["center"] or (nx // 2, ny // 2)
    i, j = np.mgrid[:nx, :ny]
    want = c["max"] * 2.0 ** (-4 * ((i - x0 + .5) ** 2 + (j - y0 + .5) ** 2) / fwhm ** 2)
    close(p, want, 1e-12, "probe", scale=c["max"])
    if nx % 2 == 0 and ny % 2 == 0 and c["center"] is None:
        close(p, p[::-1, ::-1], 1e-12, "probe symmetry")
    img = data((c["px"], c["py"]), c["seed"]).astype("f8") + 0.1
    if c["complex"]:
        img = np.exp(1j * img)
    kw = {k: v for k, v in (("shift_x", c["sx"]), ("shift_y", c["sy"]), ("mode", c["mode"])) if v is not None}
    sx, sy = c["sx"] or nx // 2, c["sy"] or ny // 2
    at = [(a, b) for a in range(0, c["px"] - nx + 1, sx) for b in range(0, c["py"] - ny + 1, sy)]
    if not at:
        if c["mode"] != "far":
            r = call(tomopy.calc_intensity, p, img, **kw)
            expect(np.size(r) == 0, "images although the probe does not fit")
        return
    with unchanged(probe=p, image=img):
        got = call(tomopy.calc_intensity, p, img, **kw)
    expect(got.shape == (len(at), nx, ny), "shape %s, expected %d images", got.shape, len(at))
    f1, f2 = np.fft.fftfreq(nx), np.fft.fftfreq(ny)
    for g, (a, b) in zip(got, at):
        psi = p * img[a:a + nx, b:b + ny]
        if c["mode"] == "far":
            u = np.exp(-2j * np.pi * np.outer((np.arange(nx) - nx // 2) / nx, np.arange(nx)))
            v = np.exp(-2j * np.pi * np.outer((np.arange(ny) - ny // 2) / ny, np.arange(ny)))
            want = np.abs(u @ psi @ v.T) ** 2
            close(g.sum(), (np.abs(psi) ** 2).sum() * nx * ny, 1e-9, "energy")
        else:
            want = np.abs(psi) ** 2
        close(g, want, 1e-9, "image at %d, %d" % (a, b))


SUBS = [
    Sub("phase", PHASE, phase, quick=900, thorough=12000, shards=3,
        nontrivial=lambda c: c["kind"] != "const" and max(c["n"][1:]) > 1),
    Sub("defaults", st.fixed_dictionaries({
        "n": dims((1, 2), (1, 9), (1, 9)), "seed": seeds(),
        "kind": st.sampled_from(KINDS), "use": st.integers(0, 9), "pix": st.just(2e-4), "dist": st.just(11.0),
        "energy": st.just(9.0), "alpha": st.just(2e-2)}), phase_default, quick=120, thorough=1000),
    Sub("relations", RELATE, relations, quick=400, thorough=5000, shards=2,
        nontrivial=lambda c: c["kind"] != "const" and max(c["n"][1:]) > 1),
    Sub("tie", TIE, tie, quick=800, thorough=10000, nontrivial=lambda c: c["dist"] > 0),
    Sub("probe", PROBE, probe, quick=800, thorough=10000,
        nontrivial=lambda c: c["px"] >= c["nx"] and c["py"] >= c["ny"]),
]
