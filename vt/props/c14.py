"""C14: stripe removal corrects angle-independent column errors only."""
import numpy as np
import tomopy
from tomopy.prep import stripe as T

from vt import stripes as S
from vt.core import Sub, st, data, call, close, same, expect, seeds, unchanged, Skip

RULE = "several slices, at least one with a column error"
ASSUMPTIONS = [
    "data with distinct values in each column (equal values have no defined rank)",
    "cases in which a rank or a threshold is decided by less than the rounding error are skipped",
    "positive data for the filter that divides by a fit",
    "Titarenko's filter: damping of at least one",
]

CASE = st.fixed_dictionaries({
    "fn": st.sampled_from(["fw", "ti", "sf", "sorting", "filtering", "fitting", "large", "dead", "all",
                           "interpolation"]),
    "n": st.tuples(st.integers(6, 40), st.integers(1, 5), st.integers(8, 40)).map(list), "seed": seeds(),
    "type": st.sampled_from(["f8", "f8", "f4"]), "noise": st.sampled_from([0.02, 0.3]),
    "stripe": st.sampled_from(["none", "one", "wide", "dead", "many"]),
    "ncore": st.sampled_from([1, 1, 1, 1, 2, 3]), "nchunk": st.sampled_from([None, 1, 2]),
    "a": st.integers(0, 50), "b": st.integers(0, 50), "flag": st.booleans(), "default": st.booleans(),
    "offset": st.sampled_from([0, 0, 0, 2.2, 5])})


def sinograms(c):
    nt, ny, nx = c["n"]
    r = np.random.default_rng(c["seed"])
    t, y, x = np.mgrid[:nt, :ny, :nx]
    a = 2 + np.sin(t / nt * 3 + x / nx * 4 + y) + c["noise"] * r.random((nt, ny, nx))
    for s in range(ny):
        k = r.integers(0, nx)
        if c["stripe"] == "one":
            a[:, s, k] *= r.choice([0.6, 1.5, 2.5])
        elif c["stripe"] == "wide":
            a[:, s, k:k + 3] *= r.choice([0.6, 1.5])
        elif c["stripe"] == "dead":
            a[:, s, k] = r.random(nt) * 4 + 0.01
        elif c["stripe"] == "many":
            a[:, s] *= r.normal(1, 0.05, nx)
    if c["fn"] != "fitting":      # it divides by the fitted values
        a -= c["offset"]
    return a.astype(c["type"])


def choice(v, k):
    return v[k % len(v)]


def setup(c):
    """keyword arguments of the call and the model of one sinogram"""
    a, b, fn = c["a"], c["b"], c["fn"]
    nt, ny, nx = c["n"]
    eps = 3e-6 if c["type"] == "f4" else 0
    d = c["default"]
    if fn == "fw":
        kw = dict(level=choice([1, 2, 3, None], a), wname=choice(["db5", "haar", "sym5", "db2"], b),
                  sigma=choice([0.5, 1, 2, 5], a + b), pad=c["flag"])
        kw = {} if d else {k: v for k, v in kw.items() if v is not None}
        lv = kw.get("level") or int(np.ceil(np.log2(max(c["n"]))))
        return T.remove_stripe_fw, kw, lambda s: S.fw(s, lv, kw.get("wname", "db5"), kw.get("sigma", 2),
                                                      kw.get("pad", True)), 5e-5
    if fn == "ti":
        kw = {} if d else dict(nblock=choice([0, 1, 2, 3], a), alpha=choice([1.0, 1.5, 3], b))
        return T.remove_stripe_ti, kw, lambda s: S.ti(s, kw.get("nblock", 0), kw.get("alpha", 1.5)), 3e-4
    if fn == "sf":
        kw = {} if d else dict(size=1 + a % 12)
        return T.remove_stripe_sf, kw, lambda s: S.sf(s, kw.get("size", 5)), 1e-5
    if fn == "sorting":
        kw = {} if d else dict(size=choice([None, 1, 2, 3, 5, 8, 15], a), dim=1 + b % 2)
        return (T.remove_stripe_based_sorting, kw,
                lambda s: S.sorting(s, kw.get("size"), kw.get("dim", 1), eps), 1e-6)
    if fn == "filtering":
        kw = {} if d else dict(size=choice([None, 3, 4, 7], a), dim=1 + b % 2, sigma=choice([1.5, 3, 8], a + b))
        return (T.remove_stripe_based_filtering, kw,
                lambda s: S.filtering(s, kw.get("sigma", 3), kw.get("size"), kw.get("dim", 1), eps), 2e-5)
    if fn == "fitting":
        kw = {} if d else dict(order=choice([1, 2, 3, 5, 9], a), sigma=choice([(5, 20), (2, 3), (10, 1.5)], b))
        return (T.remove_stripe_based_fitting, kw,
                lambda s: S.fitting(s, kw.get("order", 3), kw.get("sigma", (5, 20))),
                1e-6 if c["type"] == "f8" else 1e-3)
    if fn == "large":
        kw = {} if d else dict(snr=choice([1.5, 3, 6], a), size=choice([3, 5, 6, 21], b),
                               drop_ratio=choice([0.0, 0.1, 0.3, 0.9], a + b), norm=c["flag"])
        return (T.remove_large_stripe, kw,
                lambda s: S.large(s, kw.get("snr", 3), kw.get("size", 51), kw.get("drop_ratio", 0.1),
                                  kw.get("norm", True), eps), 1e-5)
    if fn == "dead":
        kw = {} if d else dict(snr=choice([1.5, 3, 6], a), size=choice([3, 5, 6, 21], b), norm=c["flag"])
        return (T.remove_dead_stripe, kw,
                lambda s: S.dead(s, kw.get("snr", 3), kw.get("size", 51), kw.get("norm", True), eps), 1e-5)
    if fn == "all":
        kw = {} if d else dict(snr=choice([1.5, 3, 6], a), la_size=choice([3, 5, 6, 21], b),
                               sm_size=choice([1, 3, 4, 9], a + b), dim=1 + b % 2)
        return (T.remove_all_stripe, kw,
                lambda s: S.everything(s, kw.get("snr", 3), kw.get("la_size", 61), kw.get("sm_size", 21),
                                       kw.get("dim", 1), eps), 1e-5)
    kw = {} if d else dict(snr=choice([1.5, 3, 6], a), size=choice([3, 5, 6, 21], b),
                           drop_ratio=choice([0.0, 0.1, 0.3, 0.9], a + b), norm=c["flag"])
    return (T.remove_stripe_based_interpolation, kw,
            lambda s: S.interpolation(s, kw.get("snr", 3), kw.get("size", 31), kw.get("drop_ratio", 0.1),
                                      kw.get("norm", True), eps), 1e-5)


def formula(c):
    a = sinograms(c)
    f, kw, model, tol = setup(c)
    with unchanged(tomo=a):
        got = call(f, a, ncore=c["ncore"], nchunk=c["nchunk"], **kw)
    expect(got.shape == a.shape, "shape %s", got.shape)
    expect(np.isfinite(got).all(), "non-finite values")
    judged = 0
    for s in range(a.shape[1]):
        try:
            want = model(a[:, s].astype("f8"))
        except S.Unclear:
            continue
        judged += 1
        close(got[:, s], want, tol, "%s %r, slice %d of %d" % (c["fn"], kw, s, a.shape[1]),
              scale=np.abs(want).max() + np.abs(a).max())
    if not judged:
        raise Skip()


def alone(c):
    """A slice gives the same result in a stack as on its own."""
    a = sinograms(dict(c, n=[c["n"][0], c["n"][1] + 1, c["n"][2]]))
    f, kw, _, tol = setup(c)
    if c["fn"] == "fw" and "level" not in kw:
        kw = dict(kw, level=2)
    got = call(f, a, ncore=max(2, c["ncore"]), nchunk=c["nchunk"], **kw)
    s = c["seed"] % a.shape[1]
    one = call(f, a[:, s:s + 1].copy(), ncore=1, **kw)
    close(got[:, s], one[:, 0], 1e-6, "%s %r slice %d of %d" % (c["fn"], kw, s, a.shape[1]))


RED = st.fixed_dictionaries({
    "fn": st.sampled_from(["fw", "ti", "sf", "sorting", "filtering", "fitting", "large", "dead", "all",
                           "interpolation"]),
    "nt": st.integers(50, 90), "nx": st.integers(60, 110), "seed": seeds(), "at": st.floats(0.3, 0.7),
    "amp": st.sampled_from([0.3, 0.5, -0.4])})
KW = {"fw": dict(level=3, wname="db5", sigma=2), "ti": dict(), "sf": dict(size=9),
      "sorting": dict(size=11), "filtering": dict(size=11, sigma=3), "fitting": dict(order=2, sigma=(6, 20)),
      "large": dict(snr=3, size=21), "dead": dict(snr=3, size=21), "all": dict(snr=3, la_size=21, sm_size=9),
      "interpolation": dict(snr=3, size=21)}
FN = {"fw": T.remove_stripe_fw, "ti": T.remove_stripe_ti, "sf": T.remove_stripe_sf,
      "sorting": T.remove_stripe_based_sorting, "filtering": T.remove_stripe_based_filtering,
      "fitting": T.remove_stripe_based_fitting, "large": T.remove_large_stripe, "dead": T.remove_dead_stripe,
      "all": T.remove_all_stripe, "interpolation": T.remove_stripe_based_interpolation}
LEFT = {"fw": 0.5, "ti": 0.75, "sf": 0.3, "sorting": 0.3, "filtering": 0.3, "fitting": 0.5, "large": 0.3, "dead": 0.3,
        "all": 0.3, "interpolation": 0.3}


def reduction(c):
    """Adding a constant to one column of a smooth sinogram changes the result by much less."""
    r = np.random.default_rng(c["seed"])
    nt, nx = c["nt"], c["nx"]
    t, x = np.mgrid[:nt, :nx]
    a = 2 + 0.5 * np.sin(t / nt * 3 + x / nx * 4) + 0.02 * r.random((nt, nx))
    k = int(c["at"] * nx)
    b = a.copy()
    b[:, k] += c["amp"]
    if c["fn"] == "fitting":
        b[:, k] = a[:, k] * (1 + c["amp"] / 2)
    got = call(FN[c["fn"]], np.stack([a, b], 1).astype("f4"), ncore=2, **KW[c["fn"]]).astype("f8")
    left = abs((got[:, 1, k] - got[:, 0, k]).mean())
    expect(left < LEFT[c["fn"]] * abs(c["amp"]), "%s leaves %.3g of a stripe of %.3g", c["fn"], left, c["amp"])


LONG = st.fixed_dictionaries({
    "fn": st.sampled_from(["fw", "ti", "sf", "sorting", "sorting", "filtering", "fitting", "large", "dead", "all",
                           "interpolation"]),
    "n": st.one_of(
        st.tuples(st.integers(250, 700), st.integers(1, 2), st.integers(8, 24)),
        st.tuples(st.integers(6, 20), st.integers(1, 2), st.integers(250, 700)),
        st.tuples(st.integers(6, 20), st.integers(20, 60), st.integers(8, 20))).map(list),
    "seed": seeds(),
    "type": st.sampled_from(["f8", "f4"]), "noise": st.sampled_from([0.02, 0.3]),
    "stripe": st.sampled_from(["none", "one", "wide", "dead", "many"]),
    "ncore": st.sampled_from([1, 2, 4]), "nchunk": st.sampled_from([None, 1, 7]),
    "a": st.integers(0, 50), "b": st.integers(0, 50), "flag": st.booleans(), "default": st.booleans(),
    "offset": st.sampled_from([0, 0, 0, 2.2, 5])})

# beyond the widths and lengths at which the default window sizes and paddings stop growing
HUGE = st.fixed_dictionaries({
    "fn": st.sampled_from(["sorting", "filtering", "fitting", "all", "sf", "large"]),
    "n": st.one_of(st.tuples(st.integers(3, 9), st.integers(1, 2), st.integers(1980, 2100)),
                   st.tuples(st.integers(1480, 1600), st.just(1), st.integers(8, 14))).map(list),
    "seed": seeds(), "type": st.just("f8"), "noise": st.sampled_from([0.02, 0.3]),
    "stripe": st.sampled_from(["one", "wide", "many"]), "ncore": st.sampled_from([1, 2]),
    "nchunk": st.none(), "a": st.integers(0, 3), "b": st.integers(0, 50), "flag": st.booleans(),
    "default": st.booleans(), "offset": st.just(0)})


SUBS = [
    Sub("huge", HUGE, formula, quick=30, thorough=1200, shards=2),
    Sub("long", LONG, formula, quick=300, thorough=6000, shards=3),
    Sub("formula", CASE, formula, quick=2400, thorough=60000, shards=6,
        nontrivial=lambda c: c["n"][1] > 1 and c["stripe"] != "none"),
    Sub("alone", CASE, alone, quick=500, thorough=12000, shards=3),
    Sub("reduction", RED, reduction, quick=300, thorough=6000, shards=2),
]
