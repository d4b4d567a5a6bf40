"""C24: what is saved, converted, shared or transformed keeps every value."""
import contextlib
import ctypes
import multiprocessing as mp
import os
import shutil
import tempfile
import warnings

import numpy as np
import tifffile
import tomopy
from tomopy.util import dtype as dt
from tomopy.util import misc

from vt.core import Sub, st, data, call, close, same, expect, seeds, unchanged, layout, LAYOUTS
from vt.props import c18

RULE = "at least two values, or a name with a folder, a number or a dot"
ASSUMPTIONS = [
    "everything is written below a temporary directory made by the check",
    "element types that TIFF and C share (integers, 2 to 8 byte floats, complex); byte order is not kept",
    "the saved iterates of the alignment are compared with the same loop written from public functions, to 1e-4",
]
TYPES = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f2", "f4", "f8"]


@contextlib.contextmanager
def folder():
    """A new empty directory, also the working directory meanwhile."""
    d, old = os.path.realpath(tempfile.mkdtemp(prefix="vt_c24_")), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def files(d):
    return sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)


def array(shape, seed, kind):
    r = np.random.default_rng(seed)
    if np.dtype(kind).kind in "fc":
        x = r.normal(size=shape) * 10.0 ** r.integers(-3, 4, shape)
        if np.dtype(kind).kind == "c":
            x = x + 1j * r.normal(size=shape)
        x = x.astype(kind)
        if r.random() < .3 and x.size:
            x.flat[r.integers(0, x.size)] = r.choice([np.nan, np.inf, -np.inf, -0.0])
        return x
    i = np.iinfo(kind)
    return r.integers(i.min, i.max, shape, dtype=np.dtype(kind).newbyteorder("="), endpoint=True).astype(kind)


def equal(got, want, what):
    expect(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    expect(got.dtype.newbyteorder("=") == want.dtype.newbyteorder("="), "%s: type %s, expected %s", what, got.dtype, want.dtype)
    expect(np.array_equal(got, want, equal_nan=want.dtype.kind in "fc"), "%s: values differ", what)


# ------------------------------------------------------------------------------------------------ files
NAME = st.sampled_from(["a", "data", "a.b", "scan.1.0", "x.tif", "x.tiff", "xtiff", "notif", "tiff", ".hidden", "a b", "0.5",
                        "a.TIFF", "tiff.x", "x.tiff.old", "\u00e9t\u00e9"])
STEP = st.fixed_dictionaries({
    "name": NAME, "dirs": st.lists(st.sampled_from(["d", "e.tiff", "tmp", "x.y", "1"]), max_size=3),
    "digit": st.one_of(st.none(), st.none(), st.integers(0, 12), st.sampled_from([-1, 99999, "007", "12.50"])),
    "ext": st.sampled_from([None, None, "tiff", "tif"]), "shape": st.lists(st.integers(1, 6), min_size=1, max_size=4),
    "type": st.sampled_from(TYPES + ["c8", "c16", ">f4", ">u2", ">i4"]), "layout": st.sampled_from(
        [x for x in LAYOUTS if not x.startswith("shared")]), "seed": seeds(),
    "where": st.sampled_from(["absolute", "absolute", "relative", "dot", "parent", "default"])})
WRITE = st.fixed_dictionaries({"steps": st.lists(STEP, min_size=1, max_size=6)})


def write(c):
    model = {}
    with folder() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in c["steps"]:
            a = layout(array(tuple(s["shape"]), s["seed"], s["type"]), s["layout"])
            kw = {} if s["ext"] is None else {"ext": s["ext"]}
            ext = s["ext"] or "tiff"
            rel = os.path.join(*s["dirs"], s["name"])
            if s["where"] == "default":
                rel = "tmp/data"
            else:
                kw["fname"] = {"absolute": os.path.join(d, rel), "relative": rel, "dot": "./" + rel,
                               "parent": os.path.join("..", os.path.basename(d), rel)}[s["where"]]
            if s["digit"] is not None:
                kw["digit"] = s["digit"]
                rel = os.path.join(rel, str(s["digit"]))
            if not rel.endswith("." + ext):
                rel += "." + ext
            up = [os.path.join(*rel.split("/")[:i]) for i in range(1, rel.count("/") + 1)]
            if any(p in model for p in up) or any(m.startswith(rel + "/") for m in model):
                continue                        # a file where a folder is needed
            with unchanged(data=a):
                call(misc.write_tiff, a, **kw)
            model[rel] = np.array(a)
            expect(files(d) == sorted(model), "files %s, written %s", files(d), sorted(model))
        for f, a in model.items():
            equal(tifffile.imread(os.path.join(d, f)), a, f)


ITERS = st.fixed_dictionaries({
    "n": st.integers(8, 12), "nt": st.integers(4, 7), "rows": st.integers(4, 7), "seed": seeds(), "iters": st.sampled_from([1, 2, 3, 3, 7, 12]),
    "blur": st.booleans(), "alg": st.sampled_from(["sirt", "sirt", "gridrec", "art", "mlem"]),
    "pad": st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), "up": st.sampled_from([1, 10]),
    "joint": st.booleans(), "amp": st.sampled_from([1.0, 40.0]), "debug": st.booleans(),
    "fdir": st.sampled_from([None, ".", "./", "out", "out/", "a.b/c", "absolute", "absolute/"]), "rin": st.just(0.5)})


def iterates(c):
    """The files of every iteration, after a run of the model with as many iterations."""
    p, th = c18.scene(c)
    if not p.any():
        return
    f = tomopy.align_joint if c["joint"] else tomopy.align_seq
    opt = dict(pad=tuple(c["pad"]), blur=c["blur"], algorithm=c["alg"], upsample_factor=c["up"], rin=c["rin"], rout=0.8,
               debug=c["debug"])
    kinds = ["prj", "sim", "rec"] + (["sx", "sy"] if c["joint"] else [])
    with folder() as d:
        kw = {}
        if c["fdir"] is not None:
            kw["fdir"] = c["fdir"].replace("absolute", os.path.join(d, "abs"))
        root = {None: "", ".": "", "./": "", "out": "out", "out/": "out", "a.b/c": "a.b/c"}.get(c["fdir"], "abs")
        with unchanged(prj=p, ang=th):
            got = c18.quiet(f, p, th, iters=c["iters"], save=True, **opt, **kw)
        names = {(k, m): os.path.join(root, "tmp/iters", k, "%d.tiff" % m) for k in kinds for m in range(c["iters"])}
        expect(files(d) == sorted(names.values()), "files %s, expected %s", files(d), sorted(names.values()))
        read = {k: tifffile.imread(os.path.join(d, v)) for k, v in names.items()}
    want = c18.quiet(f, p, th, iters=c["iters"], save=False, **opt)
    for g, w, what in zip(got, want, ("images", "row shifts", "column shifts", "errors")):
        same(g, w, what + " with and without saving")
    scl = np.abs(p).max()
    for m in sorted({0, c["seed"] % c["iters"], c["iters"] - 1}):
        part = c18.quiet(f, p, th, iters=m + 1, save=False, **opt)
        if c["joint"]:
            close(read["sx", m].ravel(), part[1], 1e-6, "saved row shifts after %d" % m, scale=1.0)
            close(read["sy", m].ravel(), part[2], 1e-6, "saved column shifts after %d" % m, scale=1.0)
        else:
            close(read["prj", m], part[0] / scl, 1e-5, "saved projections after %d" % m)
        r, s = read["rec", m], read["sim", m]
        n, ny = c["n"] + 2 * c["pad"][0], c["rows"] + 2 * c["pad"][1]
        expect(r.shape == (ny, n, n), "saved reconstruction has shape %s", r.shape)
        expect(s.shape == (c["nt"], ny, n), "saved simulation has shape %s", s.shape)
        close(s, c18.quiet(tomopy.project, r, th, pad=False), 1e-5, "saved simulation of iteration %d" % m,
              scale=max(1e-6, float(np.abs(s).max())))
        if not c["joint"]:
            q = np.pad(p / scl, ((0, 0), (c["pad"][1],) * 2, (c["pad"][0],) * 2)) if m == 0 else read["prj", m - 1]
            close(r, c18.quiet(tomopy.recon, q, th, algorithm=c["alg"]), 1e-4, "saved reconstruction of iteration %d" % m)


# ------------------------------------------------------------------------------------------------ types
CONV = st.fixed_dictionaries({
    "shape": st.lists(st.integers(1, 6), min_size=1, max_size=4), "type": st.sampled_from(TYPES + ["?", ">f4", ">i4"]),
    "layout": st.sampled_from(LAYOUTS), "seed": seeds(), "list": st.booleans(), "copy": st.booleans(),
    "to": st.sampled_from(["f4", "f8", "i4", "u2", "u1"])})


def whole(c):
    """Values that every element type of the check represents."""
    r = np.random.default_rng(c["seed"])
    return layout(r.integers(0, 2 if c["type"] == "?" else 120, c["shape"]).astype(c["type"]), c["layout"])


def convert(c):
    a = whole(c)
    ref = np.array(a)
    arg = ref.tolist() if c["list"] else a
    with unchanged(arr=a):
        for f, t in ((dt.as_float32, "f4"), (dt.as_int32, "i4"), (dt.as_uint8, "u1"), (dt.as_uint16, "u2")):
            g = call(f, arg)
            expect(g.dtype == np.dtype(t), "%s gives %s", f.__name__, g.dtype)
            same(np.asarray(g, "f8"), ref.astype("f8"), f.__name__)
            if not c["list"] and a.dtype == np.dtype(t):
                expect(np.shares_memory(g, a), "%s copies an array of that type", f.__name__)
        g = call(dt.as_dtype, a, np.dtype(c["to"]), copy=c["copy"])
        expect(g.dtype == np.dtype(c["to"]) and np.array_equal(g, ref), "as_dtype gives %s", g.dtype)
        if c["copy"] and a.dtype != np.dtype(c["to"]):
            expect(not np.shares_memory(g, a), "as_dtype does not copy")
        g = call(dt.as_ndarray, arg, np.dtype(c["to"]) if c["list"] else None, copy=c["copy"])
        expect(isinstance(g, np.ndarray) and np.array_equal(g, ref), "as_ndarray")
    # pointers
    k = np.ascontiguousarray(ref)
    for f, t, ct in ((dt.as_c_float_p, "f4", ctypes.c_float), (dt.as_c_uint8_p, "u1", ctypes.c_uint8),
                     (dt.as_c_uint16_p, "u2", ctypes.c_uint16), (dt.as_c_bool_p, "?", ctypes.c_bool)):
        b = k.astype(t)
        p = call(f, b)
        expect(isinstance(p, ctypes.POINTER(ct)), "%s gives %s", f.__name__, type(p))
        expect(ctypes.addressof(p.contents) == b.ctypes.data and p[b.size - 1] == b.flat[-1], "%s points elsewhere", f.__name__)
    b = k.astype("i4")
    p = call(dt.as_c_int_p, ref.tolist() if c["list"] else (b if c["copy"] else a))
    expect([p[i] for i in range(b.size)] == b.ravel().tolist(), "as_c_int_p: other values")
    v = int(b.flat[0])
    expect(call(dt.as_c_int, v).value == v and call(dt.as_c_long, v << 33).value == v << 33
           and call(dt.as_c_size_t, v << 34).value == v << 34 and call(dt.as_c_float, v + .5).value == v + .5, "scalars")
    expect(call(dt.as_c_char_p, "f\u00e9" + str(v)).value == ("f\u00e9" + str(v)).encode(), "strings")


SHARE = st.fixed_dictionaries({
    "shape": st.lists(st.integers(1, 6), min_size=1, max_size=4), "type": st.sampled_from(
        ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8"]),
    "layout": st.sampled_from(LAYOUTS), "seed": seeds(), "copy": st.booleans(), "cut": st.integers(0, 3), "child": st.integers(0, 19)})


def share(c):
    a = whole(c)
    ref = np.array(a)
    with unchanged(arr=a):
        s = call(dt.as_sharedmem, a, copy=c["copy"])
    expect(s.dtype == ref.dtype and s.shape == ref.shape and np.array_equal(s, ref), "another array in shared memory")
    expect(call(dt.is_sharedmem, s) and s.flags.c_contiguous and s.flags.writeable, "not a writable shared array")
    expect(not call(dt.is_sharedmem, ref), "an ordinary array is taken for a shared one")
    if c["copy"] or not c["layout"].startswith("shared"):
        expect(not np.shares_memory(s, a), "the shared array is not a copy")
    mem = call(dt.get_shared_mem, s)
    expect(ctypes.sizeof(mem) == ref.nbytes, "%d bytes shared for %d", ctypes.sizeof(mem), ref.nbytes)
    t = call(dt.to_numpy_array, mem, ref.dtype, ref.shape)
    expect(np.array_equal(t, ref) and np.shares_memory(t, s), "the memory seen as an array differs")
    t[...] = 1
    expect((s == 1).all(), "changes through the memory are lost")
    s[...] = ref
    # views of it: whole ones stay, others are copied out
    for name, w in (("part", s[c["cut"] % len(s):]), ("every other", s[::2]), ("reversed", s[::-1]), ("transposed", s.T), ("itself", s)):
        expect(call(dt.is_sharedmem, w), "a view (%s) of shared memory is not recognised", name)
        g = call(dt.as_sharedmem, w)
        expect(g.shape == w.shape and np.array_equal(g, w), "%s: other values", name)
        expect(call(dt.to_numpy_array, call(dt.get_shared_mem, g), g.dtype, g.shape).tolist() == w.tolist(),
               "%s: the memory behind is not the array", name)
    expect(call(dt.as_sharedmem, s) is s, "a shared array is copied again")
    e = call(dt.empty_shared_array, tuple(c["shape"]), np.dtype(c["type"]))
    expect(e.shape == tuple(c["shape"]) and e.dtype == np.dtype(c["type"]) and dt.is_sharedmem(e) and e.flags.writeable
           and ctypes.sizeof(dt.get_shared_mem(e)) == e.nbytes, "empty shared array of %s %s", e.shape, e.dtype)
    e[...] = ref
    expect(not np.shares_memory(e, s) and np.array_equal(s, ref), "shared arrays overlap")
    if c["child"] == 0:                         # another process sees and changes it
        pid = os.fork()
        if pid == 0:
            try:
                s += s.dtype.type(1)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        expect(np.array_equal(s, ref + ref.dtype.type(1)), "another process's changes are not seen")


# ------------------------------------------------------------------------------------------------ transforms
FFT = st.fixed_dictionaries({
    "shape": st.lists(st.integers(1, 9), min_size=2, max_size=4), "seed": seeds(), "axis": st.one_of(st.none(), st.integers(-4, 3)),
    "axes": st.one_of(st.none(), st.tuples(st.integers(-4, 3), st.integers(-4, 3)).map(list)),
    "n": st.one_of(st.none(), st.integers(1, 12)), "s": st.one_of(st.none(), st.tuples(st.integers(1, 11), st.integers(1, 11)).map(list)),
    "type": st.sampled_from(["f4", "f8", "c8", "c16", "i4"]), "layout": st.sampled_from(LAYOUTS),
    "over": st.booleans(), "info": st.sampled_from([None, 1, "x"])})


def dft(x, axis, n, sign):
    """Fourier sums over one axis, cut or filled with zeros to n."""
    x = np.moveaxis(np.asarray(x).astype("c16"), axis, -1)
    n = x.shape[-1] if n is None else n
    y = np.zeros(x.shape[:-1] + (n,), "c16")
    k = min(n, x.shape[-1])
    y[..., :k] = x[..., :k]
    w = np.exp(sign * 2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
    return np.moveaxis(y @ w, -1, axis) / (n if sign > 0 else 1)


def transforms(c):
    r = np.random.default_rng(c["seed"])
    x = r.normal(size=c["shape"]) * 10
    if c["type"][0] == "c":
        x = x + 1j * r.normal(size=c["shape"])
    if c["layout"].startswith("shared") and c["type"][0] == "c":
        c = dict(c, layout="C")
    a = layout(x.astype(c["type"]), c["layout"])
    nd = len(c["shape"])
    kw, ax = {}, -1
    if c["axis"] is not None:
        ax = kw["axis"] = c["axis"] % nd - (nd if c["axis"] < 0 else 0)
    if c["n"] is not None:
        kw["n"] = c["n"]
    more = {"extra_info": c["info"]}
    tol = 2e-5 if c["type"] in ("f4", "c8") else 1e-10
    with unchanged(x=a):
        for f, s in ((misc.fft, -1), (misc.ifft, 1)):
            w = dft(a, ax, c["n"], s)
            close(call(f, a, **kw, **more), w, tol, f.__name__, scale=max(1e-9, np.abs(w).max()))
        axes, kw = (-2, -1), {}
        if c["axes"] is not None:
            axes = [v % nd for v in c["axes"]]
            if axes[0] == axes[1]:
                axes[1] = (axes[0] + 1) % nd
            kw["axes"] = tuple(axes)
        size = c["s"]
        if size is not None:
            kw["s"] = tuple(size)
        for f, s in ((misc.fft2, -1), (misc.ifft2, 1)):
            w = a
            for i in range(2):
                w = dft(w, axes[i], None if size is None else size[i], s)
            close(call(f, a, **kw, **more), w, tol, f.__name__, scale=max(1e-9, np.abs(w).max()))
        close(call(misc.ifft2, call(misc.fft2, a)), np.asarray(a), tol, "there and back", scale=max(1e-9, np.abs(a).max()))
        close(call(misc.ifft, call(misc.fft, a)), np.asarray(a), tol, "there and back", scale=max(1e-9, np.abs(a).max()))
    if c["over"]:
        w = dft(a, -1, None, -1)
        close(call(misc.fft, np.array(a), overwrite_input=True), w, tol, "fft in place", scale=max(1e-9, np.abs(w).max()))


DEP = st.fixed_dictionaries({"a": st.lists(st.integers(-5, 5), max_size=4), "k": st.dictionaries(st.sampled_from("xyz"), st.integers(), max_size=3),
                             "fail": st.booleans()})


def outdated(c):
    def old(*a, **k):
        "Old words."
        if c["fail"]:
            raise KeyError("old")
        return a, k
    old.mark = 3
    new = call(misc.deprecated, old)
    expect(new.__name__ == "old" and new.__doc__ == "Old words." and new.mark == 3, "name, text or attributes lost")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            got = new(*c["a"], **c["k"])
            expect(not c["fail"] and got == (tuple(c["a"]), c["k"]), "returned %s", got)
        except KeyError:
            expect(c["fail"], "an error of its own")
    expect(any(x.category is DeprecationWarning and "old" in str(x.message) for x in w), "no warning")


SUBS = [
    Sub("write", WRITE, write, quick=500, thorough=12000, shards=2),
    Sub("iterates", ITERS, iterates, quick=40, thorough=1500, shards=3),
    Sub("convert", CONV, convert, quick=700, thorough=15000, nontrivial=lambda c: np.prod(c["shape"]) > 1),
    Sub("share", SHARE, share, quick=500, thorough=12000, nontrivial=lambda c: np.prod(c["shape"]) > 1),
    Sub("transforms", FFT, transforms, quick=600, thorough=15000, nontrivial=lambda c: np.prod(c["shape"]) > 1),
    Sub("outdated", DEP, outdated, quick=150, thorough=2000),
]
