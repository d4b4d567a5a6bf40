"""C05: results depend on array values, not on element type or memory layout."""
import numpy as np

from vt import api
from vt.core import Sub, st, data, call, close, same, expect, seeds, layout, LAYOUTS, Skip

RULE = "an array that is not a contiguous writable single-precision array of its own"
ASSUMPTIONS = [
    "element types: the floating types (native and byte-swapped single, double) for every function, "
    "integers where the function is documented to convert to single precision",
    "stripe filters that decide by rank or threshold: the same element type in other byte orders and layouts (C14 compares "
    "both precisions with one model)",
    "functions that work in place (scale, shift, replacing NaN, ...) and arrays already in shared "
    "memory handed to process-distributed functions may be modified",
]

CASE = st.builds(lambda c, l, t, w: dict(c, lay=l, type=t, which=w),
                 api.cases([n for n in api.OPS for _ in range(api.OPS[n].width)]),
                 st.sampled_from(LAYOUTS + ("F", "strided", "reversed", "swapped")),
                 st.integers(0, 20), st.integers(0, 11))


def variant(c):
    o = api.OPS[c["op"]]
    base = o.inputs(c)
    names = list(base)
    t = o.types[c["type"] % len(o.types)]
    k = names[c["which"] % len(names)]
    if c["lay"] == "readonly" and k in o.inplace:
        raise Skip()
    out = {}
    for n, v in base.items():
        if n == k:
            if v.dtype != bool:
                w = v.astype(t)
                v = w if t[-2] == "f" or np.array_equal(v, w) else v.astype("f8")
            v = layout(v, c["lay"])
        out[n] = v
    return o, base, out, k


# functions that convert nothing return the type of what they process
KEEP = {"adjust_range", "median_filter_nonfinite", "pad", "sino_360_to_180", "retrieve_phase", "remove_stripe_fw",
        "remove_stripe_ti", "remove_stripe_based_sorting", "remove_stripe_based_filtering", "remove_stripe_based_fitting",
        "remove_large_stripe", "remove_dead_stripe", "remove_all_stripe", "remove_stripe_based_interpolation",
        "distortion_correction_proj", "blur_edges", "shift_images", "calc_intensity", "add_zingers", "add_gaussian",
        "add_salt_pepper", "add_noise"}
FOLLOW = {"calc_intensity"}     # the type of the result is that of numpy's arithmetic


def layouts(c):
    o, base, got_in, k = variant(c)
    if o.jumps:         # C14 compares the precisions
        base = {n: np.array(v, dtype=v.dtype.newbyteorder("="), order="C") for n, v in got_in.items()}
    ref = api.results(call(o.run, {n: v.copy() for n, v in base.items()}, c))
    before = {n: v.copy() for n, v in got_in.items()}
    got = api.results(call(o.run, got_in, c))
    expect(len(got) == len(ref), "number of results")
    for r, g in zip(ref, got):
        expect(g.dtype.kind == r.dtype.kind or r.dtype.kind == "f" and g.dtype.kind in "iu",
               "element type %s instead of %s", g.dtype, r.dtype)
        if c["op"] not in (KEEP if k == list(base)[0] else FOLLOW) and r.dtype.kind == g.dtype.kind == "f":
            expect(g.dtype.itemsize == r.dtype.itemsize, "%s with %s as %s returns %s instead of %s", c["op"], k, got_in[k].dtype, g.dtype, r.dtype)
        close(g, r, o.tol, "%s with %s %s %s" % (c["op"], k, c["lay"], got_in[k].dtype))
    for n, v in got_in.items():
        if n in o.inplace or (o.procs and c["lay"].startswith("shared") and n == k):
            continue
        same(v, before[n], "%s: input %s after the call" % (c["op"], n))


def _f(name):
    import tomopy
    return getattr(tomopy, name)


OUT = {
    "minus_log": lambda a, p, out: _f("minus_log")(a["arr"], ncore=p["ncore"], out=out),
    "normalize": lambda a, p, out: _f("normalize")(
        a["arr"], a["flat"], a["dark"], cutoff=(None, 0.7)[p["opt"] % 2],
        averaging=("mean", "median")[p["opt"] % 3 == 0], ncore=p["ncore"], out=out),
    "normalize_nf": lambda a, p, out: _f("normalize_nf")(
        a["arr"], a["flat"], a["dark"], [0, p["n"][0] - 1], cutoff=(None, 0.7)[p["opt"] % 2],
        ncore=p["ncore"], out=out),
    "remove_outlier": lambda a, p, out: _f("remove_outlier")(
        a["arr"], 1 + p["opt"] % 3, size=2 + p["opt"] % 3, axis=p["opt"] % 3, ncore=p["ncore"],
        out=out),
    "remove_outlier1d": lambda a, p, out: _f("remove_outlier1d")(
        a["arr"], 1 + p["opt"] % 3, size=2 + p["opt"] % 3, axis=p["opt"] % 3, ncore=p["ncore"],
        out=out),
    "remove_ring": lambda a, p, out: _f("remove_ring")(
        a["arr"], thresh=1.0 + p["opt"] % 3, thresh_max=5.0, thresh_min=-1.0,
        rwidth=1 + p["opt"] % 6, theta_min=10 + p["opt"], ncore=p["ncore"], out=out),
}
OUTS = ("self", "C", "F", "strided", "reversed", "swapped", "offset", "shared", "f8")
OCASE = st.builds(lambda c, o, t, l: dict(c, out=o, type=t, lay=l), api.cases(list(OUT)),
                  st.sampled_from(OUTS), st.integers(0, 20), st.sampled_from(LAYOUTS))


def outputs(c):
    o = api.OPS[c["op"]]
    base = o.inputs(c)
    want = call(OUT[c["op"]], {n: v.copy() for n, v in base.items()}, c, None)
    a = {n: v.copy() for n, v in base.items()}
    if c["out"] == "self":
        a["arr"] = layout(a["arr"], "C" if c["lay"] == "readonly" else c["lay"])
        out = a["arr"]
    else:
        t = o.types[c["type"] % len(o.types)]
        a["arr"] = layout(a["arr"].astype(t), c["lay"])
        junk = data(want.shape, 9, "signed", want.dtype)
        out = layout(junk.astype("f8"), "C") if c["out"] == "f8" else layout(junk, c["out"])
    before = {n: v.copy() for n, v in a.items()}
    got = call(OUT[c["op"]], a, c, out)
    expect(got is out or np.shares_memory(got, out), "%s did not return the output array", c["op"])
    close(out, want, 1e-5, "%s: output array (%s)" % (c["op"], c["out"]))
    close(got, want, 1e-5, "%s: returned array (%s)" % (c["op"], c["out"]))
    for n in a:
        if a[n] is not out:
            same(a[n], before[n], "%s: input %s after the call" % (c["op"], n))


SUBS = [
    Sub("outputs", OCASE, outputs, quick=2400, thorough=30000, shards=2),
    Sub("layouts", CASE, layouts, quick=9000, thorough=90000, shards=8,
        nontrivial=lambda c: c["lay"] != "C" or c["type"] % 3 != 0),
]
