"""C02: simulated projections are the exact ray sums of the object."""
import numpy as np
import tomopy

from vt import gen, ref
from vt.core import far, Sub, st, data, call, close, same, expect, seeds, unchanged, Skip

RULE = "an object with non-zero values projected at at least one angle into at least two bins"
ASSUMPTIONS = ["the tracer keeps rays 0.01 px off the grid lines; the reference does the same",
               "rays that pass within 0.021 px of a corner of the object are not "
               "compared (single precision decides whether they touch the object)"]

CASE = st.fixed_dictionaries({
    "oy": far(1, 4, 40), "ox": far(1, 14, 60, 20), "oz": far(1, 14, 60, 20),
    "square": st.booleans(),
    "nt": far(1, 7, 60, 20), "akind": st.sampled_from(gen.ANGLES),
    "ckind": st.sampled_from(gen.CENTERS + ("outside",)),
    "kind": st.sampled_from(["uniform", "signed", "sparse", "ints", "spikes"]),
    "seed": seeds(), "pad": st.booleans(), "emission": st.booleans(), "order": st.booleans(),
    "ncore": st.sampled_from([1, 1, 2, 3, 8]), "nchunk": st.sampled_from([None, 0, 1, 2, 3]),
})


def build(c):
    ox = c["ox"]
    oz = ox if c["square"] else c["oz"]
    obj = data((c["oy"], ox, oz), c["seed"], c["kind"])
    theta = gen.angles(c["nt"], c["akind"], c["seed"])
    dx = int(np.ceil((np.sqrt(ox * ox + oz * oz) + 2) / 2.) * 2) if c["pad"] else ox
    if c["ckind"] == "outside":
        cen = float(dx + 1.37 + ox / 3.)
    else:
        cen = gen.centers(c["ckind"], c["seed"], c["oy"], dx)
    return obj, theta, dx, cen


def run(c, obj, theta, cen, **kw):
    a = dict(center=cen, emission=c["emission"], pad=c["pad"], sinogram_order=c["order"],
             ncore=c["ncore"], nchunk=c["nchunk"])
    a.update(kw)
    return call(tomopy.project, obj, theta, **a)


def rays(c):
    obj, theta, dx, cen = build(c)
    oy, ox, oz = obj.shape
    if not c["emission"]:
        obj = obj * np.float32(0.1)
    with unchanged(obj=obj, theta=theta):
        got = run(c, obj, theta, cen)
    shape = (oy, len(theta), dx) if c["order"] else (len(theta), oy, dx)
    expect(got.shape == shape, "shape %s, expected %s", got.shape, shape)
    if not c["order"]:
        got = np.swapaxes(got, 0, 1)
    ce = np.broadcast_to(np.asarray(dx / 2. if cen is None else cen, np.float32), (oy,))
    cache = {}
    for s in range(oy):
        if ref.nudge_unclear(dx, ce[s], ox, oz):
            continue
        if float(ce[s]) not in cache:
            cache[float(ce[s])] = ref.matrix(ox, oz, dx, theta, ce[s], trim=False)
        A, M = cache[float(ce[s])]
        want = A @ obj[s].ravel().astype(np.float64)
        scale = np.abs(obj[s]).max() * np.hypot(ox, oz)
        g = got[s].ravel()
        if not c["emission"]:
            want = np.exp(-want)
            scale = max(1.0, want.max(), scale)
        clear = M > 0.021
        close(g, want, 2e-5, "ray sums of slice %d" % s, scale=scale, mask=clear)
        expect(np.isfinite(g).all(), "slice %d: not finite", s)


def linear(c):
    obj, theta, dx, cen = build(c)
    b = data(obj.shape, c["seed"] + 9, "signed")
    k = dict(emission=True)
    s = 2.5
    pa, pb, pc = (run(c, o, theta, cen, **k) for o in (obj, b, obj + np.float32(s) * b))
    close(pc, pa.astype(np.float64) + s * pb, 2e-5, "projection of a sum",
          scale=(np.abs(obj).max() + s * np.abs(b).max()) * np.hypot(*obj.shape[1:]))
    t = run(c, obj * np.float32(0.1), theta, cen, emission=False)
    e = run(c, obj * np.float32(0.1), theta, cen, emission=True)
    close(t, np.exp(-e.astype(np.float64)), 1e-5, "transmission vs emission")


def stack(c):
    obj, theta, dx, cen = build(c)
    a = run(c, obj, theta, cen)
    if not c["order"]:
        a = np.swapaxes(a, 0, 1)
    for s in range(len(obj)):
        one = run(c, obj[s:s + 1], theta, cen[s:s + 1] if isinstance(cen, np.ndarray) else cen,
                  ncore=1, nchunk=None, sinogram_order=True)
        same(a[s:s + 1], one, "slice %d of the stack vs alone" % s)
    for p in range(len(theta)):
        one = run(c, obj, theta[p:p + 1], cen, ncore=1, nchunk=None, sinogram_order=True)
        close(a[:, p:p + 1], one, 1e-6, "angle %d of the set vs alone" % p)


BIG = st.fixed_dictionaries({
    "oy": st.just(1), "ox": st.integers(20, 90), "oz": st.integers(20, 90),
    "square": st.booleans(), "nt": st.integers(1, 2), "akind": st.sampled_from(["random", "half", "exact"]),
    "ckind": st.sampled_from(["default", "scalar"]), "kind": st.sampled_from(["uniform", "signed"]),
    "seed": seeds(), "pad": st.booleans(), "emission": st.just(True), "order": st.booleans(),
    "ncore": st.just(1), "nchunk": st.just(None)})

MANY = CASE.flatmap(lambda c: st.one_of(
    st.fixed_dictionaries({"oy": st.just(1), "nt": st.integers(61, 700), "ox": st.integers(1, 9), "oz": st.integers(1, 9)}),
    st.fixed_dictionaries({"oy": st.integers(41, 400), "nt": st.integers(1, 2), "ox": st.integers(1, 9),
                           "oz": st.integers(1, 9)})).map(lambda d: dict(c, **d)))
NT = lambda c: c["ox"] > 1 and c["kind"] != "const"
SUBS = [
    Sub("rays", CASE, rays, quick=3000, thorough=60000, shards=4, nontrivial=NT),
    Sub("linear", CASE, linear, quick=250, thorough=4000, shards=1, nontrivial=NT),
    Sub("stack", CASE, stack, quick=300, thorough=4000, shards=2, nontrivial=NT),
    Sub("many", MANY, rays, quick=80, thorough=1500, shards=1, nontrivial=NT),
    Sub("big", BIG, rays, quick=150, thorough=3000, shards=1),
]
