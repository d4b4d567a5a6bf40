"""C23: the wrappers of external toolboxes hand over every slice exactly once and whole.

The toolboxes are not installed: stand-ins with their interfaces take their place.  Each computes a
made-up "reconstruction" that depends on everything it is given (data, angles, axis, method,
iterations, options, initial image) and complains about misuse, so whatever reaches the wrong slice
or gets lost changes the result."""
import collections
import ctypes
import os
import queue
import sys
import threading
import time
import types
import zlib

import numpy as np
import tomopy
from tomopy.recon import wrappers

from vt.core import (Sub, st, data, call, same, close, expect, far, seeds, layout, rejects, unchanged, LAYOUTS, Violation)
from vt import gen

RULE = "more than one slice"
ASSUMPTIONS = [
    "the interfaces of astra, ufo and lprec are those the wrappers were written for; what these toolboxes "
    "compute is not judged",
    "ufo and lprec know one rotation axis for all slices",
    "lprec is called with ncore=1, as documented",
]


def made_up(vol, sino, theta, shift, salt, n):
    """Some smooth function of all arguments, different for every pixel."""
    h, w = vol.shape
    k = 1 + zlib.crc32(salt.encode()) % 997 / 997
    a = np.cos(np.arange(1, h + 1)[:, None] * np.asarray(theta, "f8")[None] + 0.3)
    b = np.cos(0.37 * np.arange(1, w + 1)[None] * (np.arange(sino.shape[1])[:, None] + shift) + k)
    return (vol * 0.5 + n * k * (a @ sino.astype("f8") @ b)).astype("f4")


# ---------------------------------------------------------------------------------------------- astra
class Astra(types.ModuleType):
    def __init__(self, post, fail):
        super().__init__("astra")
        self.ids, self.next, self.lock = {}, 1, threading.Lock()
        self.fail, self.ran, self.wrong = fail, [], []
        if post:
            self.geom_postalignment = lambda g, f: dict(g, post=float(f))
        s = self
        self.data2d = types.SimpleNamespace(link=self._link, delete=self._drop("data"))
        self.projector = types.SimpleNamespace(delete=self._drop("projector"))
        self.algorithm = types.SimpleNamespace(create=lambda c: s._new("algorithm", dict(c)), run=self._run,
                                               delete=self._drop("algorithm"))

    def complain(self, m):
        self.wrong.append(m)
        raise RuntimeError(m)

    def _new(self, kind, v):
        with self.lock:
            self.next += 1
            self.ids[self.next] = (kind, v)
            return self.next

    def _get(self, kind, i):
        if i not in self.ids or self.ids[i][0] != kind:
            self.complain("no %s %r" % (kind, i))
        return self.ids[i][1]

    def _drop(self, kind):
        def f(i):
            self._get(kind, i)
            del self.ids[i]
        return f

    def create_vol_geom(self, *n):
        n = n[0] if len(n) == 1 else n
        return {"rows": int(n[0]), "cols": int(n[1])}

    def create_proj_geom(self, kind, width, n, theta):
        if kind != "parallel" or width != 1.0:
            self.complain("geometry %s %s" % (kind, width))
        return {"n": n, "theta": np.array(theta, "f8")}

    def create_projector(self, kind, pg, vg):
        return self._new("projector", (kind, {k: np.copy(v) if k != "option" else dict(v) for k, v in pg.items()}, vg))

    def astra_dict(self, method):
        return {"type": method}

    def _link(self, kind, geom, a):
        want = (geom["rows"], geom["cols"]) if kind == "-vol" else (len(geom["theta"]), geom["n"])
        if a.shape != want or a.dtype != np.float32 or not a.flags.c_contiguous:
            self.complain("%s: cannot link an array of shape %s, type %s" % (kind, a.shape, a.dtype))
        return self._new("data", (kind, a))

    def _run(self, i, n=1):
        cfg = self._get("algorithm", i)
        kind, pg, vg = self._get("projector", cfg["ProjectorId"])
        ks, sino = self._get("data", cfg["ProjectionDataId"])
        kv, vol = self._get("data", cfg["ReconstructionDataId"])
        if (ks, kv) != ("-sino", "-vol"):
            self.complain("data and volume mixed up")
        opt = dict(cfg.get("option", {}))
        gpu = opt.pop("GPUindex", None)
        if gpu is not None and gpu == self.fail:
            raise RuntimeError("GPU %s fails" % gpu)
        time.sleep(0)
        shift = float(pg.get("post", 0.0))
        if "option" in pg:
            off = np.asarray(pg["option"]["ExtraDetectorOffset"], "f8")
            if off.shape != pg["theta"].shape or np.ptp(off):
                self.complain("detector offsets %s" % off)
            shift = -float(off[0])
        vol[:] = made_up(vol, sino, pg["theta"], shift, "%s %s %s" % (cfg["type"], kind, sorted(opt.items())), n)
        self.ran.append(gpu)


class Installed:
    """The stand-ins in place of the toolboxes."""

    def __init__(self, **m):
        self.m = m

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in self.m}
        sys.modules.update(self.m)

    def __exit__(self, *e):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v


SIZE = {"ny": far(1, 6, 40), "nt": far(1, 6, 30), "nx": far(2, 9, 40), "seed": seeds(),
        "akind": st.sampled_from(gen.ANGLES), "kind": st.sampled_from(["uniform", "signed", "spikes"]),
        "grid": st.one_of(st.none(), st.tuples(st.integers(1, 9), st.integers(1, 9)).map(list)),
        "init": st.booleans(), "order": st.booleans(), "layout": st.sampled_from(LAYOUTS)}

ASTRA = st.fixed_dictionaries(dict(SIZE, **{
    "proj": st.sampled_from([None, "linear", "strip", "cuda", "cuda", "cuda"]), "gpus": st.one_of(st.none(), st.integers(1, 5)),
    "post": st.booleans(), "iters": st.sampled_from([None, 1, 7, 300]), "method": st.sampled_from(["SIRT", "FBP_CUDA", "SART"]),
    "extra": st.sampled_from([None, {}, {"MinConstraint": 0}, {"MinConstraint": 0.5, "FilterType": "hann"}]),
    "ckind": st.sampled_from(gen.CENTERS + ("wide",)), "ncore": st.sampled_from([None, 1, 2, 3]),
    "nchunk": st.sampled_from([None, 1, 2, 5]), "fail": st.one_of(st.none(), st.integers(0, 4)),
    "direct": st.booleans()}))


def build(c, ckind):
    ny, nt, nx = c["ny"], c["nt"], c["nx"]
    sino = data((ny, nt, nx), c["seed"], c["kind"])
    th = gen.angles(nt, c["akind"], c["seed"])
    if ckind == "wide":
        cen = np.random.default_rng(c["seed"]).uniform(-3 * nx, 4 * nx, ny)
    else:
        cen = gen.centers(ckind, c["seed"], ny, nx)
    gx, gy = c["grid"] or (nx, nx)
    init = data((ny, gx, gy), c["seed"] + 1) if c["init"] else None
    kw = {"num_gridx": gx, "num_gridy": gy} if c["grid"] else {}
    a = sino if c["order"] else np.swapaxes(sino, 0, 1)
    ce = np.broadcast_to(np.asarray(nx / 2. if cen is None else cen, np.float32), (ny,))
    if isinstance(cen, np.ndarray):
        cen = cen.copy()
    start = np.full((ny, gx, gy), 1e-6, "f4") if init is None else init
    return sino, th, cen, ce, init, start, kw, layout(a, c["layout"])


def shifted(s, k):
    """Columns moved by k; nothing comes in."""
    r = np.zeros_like(s)
    n = s.shape[1]
    if abs(k) < n:
        r[:, max(k, 0):n + min(k, 0)] = s[:, max(-k, 0):n + min(-k, 0)]
    return r


def astra(c):
    sino, th, cen, ce, init, start, kw, a = build(c, c["ckind"])
    nx = c["nx"]
    cuda = c["proj"] == "cuda"
    opt = {"method": c["method"]}
    if c["proj"]:
        opt["proj_type"] = c["proj"]
    if c["iters"]:
        opt["num_iter"] = c["iters"]
    if c["extra"] is not None:
        opt["extra_options"] = dict(c["extra"])
    gpus = None
    if c["gpus"]:
        opt["gpu_list"] = gpus = list(range(2, 2 + c["gpus"]))
    before = repr(opt)
    fail = None if c["fail"] is None or not gpus or not cuda else gpus[c["fail"] % len(gpus)]
    fake = Astra(c["post"], fail)
    # the GPUs share the slices of a chunk: does the failing one get any?
    one = dict(ncore=1, nchunk=None)
    div = one if fail is not None else dict(ncore=c["ncore"], nchunk=c["nchunk"])
    with Installed(astra=fake), unchanged(tomo=a, theta=th):
        def run():
            return tomopy.recon(a, th, center=cen, sinogram_order=c["order"], algorithm=tomopy.astra,
                                init_recon=None if init is None else init.copy(), options=opt, **div, **kw)
        if fail is not None and gpus.index(fail) < c["ny"]:
            rejects(RuntimeError, run)
            return
        got = call(run)
    expect(repr(opt) == before, "the caller's options became %r", opt)
    expect(not fake.wrong, "misuse of the toolbox: %s", fake.wrong[:1])
    expect(not fake.ids, "%d objects of the toolbox left over", len(fake.ids))
    expect(len(fake.ran) == c["ny"], "%d runs for %d slices", len(fake.ran), c["ny"])
    used = set(fake.ran)
    expect(used <= (set(gpus) if cuda and gpus else {None}), "GPUs %s used, %s given", used, gpus)
    if cuda and gpus and fail is None and div["ncore"] == 1 and div["nchunk"] is None:
        expect(len(used) == min(len(gpus), c["ny"]), "%d of %d GPUs used", len(used), len(gpus))
    salt = "%s %s %s" % (c["method"], c["proj"] or "linear", sorted((c["extra"] or {}).items()))
    for i in range(c["ny"]):
        if cuda:
            s, sh = sino[i], -(float(ce[i]) - nx / 2.)
        else:
            d = nx / 2. - float(ce[i])
            s, sh = shifted(sino[i], int(np.round(d))), 0.0
        want = made_up(start[i], s, th, sh, salt, c["iters"] or 1)
        close(got[i], want, 1e-5, "slice %d" % i, scale=np.abs(want).max() + np.abs(sino[i]).sum())


# ---------------------------------------------------------------------------------------------- lprec
def lp_modules(log):
    busy = collections.Counter()
    guard = threading.Lock()

    class lpTransform:
        def __init__(self, n, nproj, nslices, filt, cor, interp):
            self.n, self.nproj, self.nslices, self.filt, self.cor, self.interp = n, nproj, nslices, filt, cor, interp
            self.forward, self.gpus = None, {}

        def precompute(self, forward):
            self.forward = forward

        def initcmem(self, forward, gpu):
            self.gpus[gpu] = forward

    def method(name):
        def f(lp, recon, tomo, niter, reg, gpu):
            def need(ok, m):
                if not ok:
                    log.append(m)
            need(tomo.shape[1:] == (lp.nproj, lp.n) and len(tomo) == len(recon) <= lp.nslices,
                 "%s data in a transform for %s" % (tomo.shape, (lp.nslices, lp.nproj, lp.n)))
            need(lp.nslices * lp.n ** 2 <= max(2 ** 24, lp.n ** 2), "too many slices at a time")
            need(lp.forward == (name != "fbp") and lp.gpus.get(gpu) == (name != "fbp"), "GPU %s not prepared for %s" % (gpu, name))
            with guard:
                busy[gpu] += 1
                need(busy[gpu] == 1, "two batches on GPU %s" % gpu)
            time.sleep(0.0002)
            out = np.stack([made_up(r, t, np.arange(lp.nproj), lp.cor, "%s %s %s %g" % (name, lp.filt, lp.interp, reg), niter)
                            for r, t in zip(recon, tomo)])
            with guard:
                busy[gpu] -= 1
            return out
        return f

    lp = types.ModuleType("lprec")
    lp.lpTransform = types.ModuleType("lprec.lpTransform")
    lp.lpTransform.lpTransform = lpTransform
    lp.lpmethods = types.ModuleType("lprec.lpmethods")
    for m in ("fbp", "grad", "cg", "tv", "em", "tve", "tvl1"):
        setattr(lp.lpmethods, m, method(m))
    return {"lprec": lp, "lprec.lpTransform": lp.lpTransform, "lprec.lpmethods": lp.lpmethods}


LP = st.fixed_dictionaries(dict(SIZE, **{
    "method": st.sampled_from([None, "fbp", "grad", "cg", "tv", "em", "tve", "tvl1"]), "filter": st.sampled_from([None, "parzen", "hann"]),
    "interp": st.sampled_from([None, "linear"]), "iters": st.sampled_from([None, 3]), "reg": st.sampled_from([None, 0.25]),
    "gpus": st.one_of(st.none(), st.integers(1, 4)), "cen": st.one_of(st.none(), st.floats(0, 9)),
    "wide": st.sampled_from([0, 0, 0, 0, 0, 0, 0, 0, 0, 1900, 2500, 4200])}))


def lprec(c):
    c = dict(c, nx=c["wide"] or c["nx"], nt=min(c["nt"], 2) if c["wide"] else c["nt"],
             grid=c["grid"] or ([3, 4] if c["wide"] else None), ny=min(c["ny"], 9) if c["wide"] else c["ny"])
    sino, th, _, _, init, start, kw, a = build(c, "default")
    opt = {k: v for k, v in (("lpmethod", c["method"]), ("filter_name", c["filter"]), ("interp_type", c["interp"]),
                             ("num_iter", c["iters"]), ("reg_par", c["reg"]),
                             ("gpu_list", list(range(3, 3 + c["gpus"])) if c["gpus"] else None)) if v is not None}
    log = []
    with Installed(**lp_modules(log)), unchanged(tomo=a, theta=th):
        got = call(tomopy.recon, a, th, center=c["cen"], sinogram_order=c["order"], algorithm=tomopy.lprec, ncore=1,
                   init_recon=None if init is None else init.copy(), **opt, **kw)
    expect(not log, "misuse of the toolbox: %s", log[:1])
    cor = int(c["nx"] / 2. if c["cen"] is None else np.float32(c["cen"]))
    salt = "%s %s %s %g" % (c["method"] or "fbp", c["filter"] or "None", c["interp"] or "cubic", c["reg"] or 1)
    for i in range(c["ny"]):
        want = made_up(start[i], sino[i], np.arange(c["nt"]), cor, salt, c["iters"] or 1)
        close(got[i], want, 1e-5, "slice %d" % i, scale=np.abs(want).max() + np.abs(sino[i]).sum())


# ------------------------------------------------------------------------------------------------ ufo
def described(tasks):
    """The pipeline as text, and one number that depends on all properties of its tasks."""
    num = sum((1 + zlib.crc32(("%d %s" % (i, k)).encode()) % 101 / 101) * float(v)
              for i, (n, p) in enumerate(tasks) for k, v in p.items())
    return " ".join("%s%s" % (n, sorted(p)) for n, p in tasks), num


def ufo_modules(log, size):
    class Buffer:
        def __init__(self, a):
            self.shape, self.p = a.shape, None

        def set_host_array(self, p, own):
            self.p = p

        def read(self):
            n = int(np.prod(self.shape))
            return np.ctypeslib.as_array(ctypes.cast(self.p, ctypes.POINTER(ctypes.c_float)), (n,)).reshape(self.shape).copy()

    class Task:
        def __init__(self, name):
            self.name, self.prop = name, {}

        def set_properties(self, **k):
            self.prop.update(k)

    class InputTask(Task):
        def __init__(self):
            super().__init__("in")
            self.full, self.free = queue.Queue(), queue.Queue()

        def get_input_buffer(self):
            return self.free.get(timeout=20)

        def release_input_buffer(self, b):
            self.full.put(b)

        def stop(self):
            self.full.put(None)

    class OutputTask(Task):
        def __init__(self):
            super().__init__("out")
            self.full, self.back = queue.Queue(), queue.Queue()

        def get_output_buffer(self):
            return self.full.get(timeout=20)

        def release_output_buffer(self, b):
            self.back.put(b)

    class TaskGraph:
        def __init__(self):
            self.next = {}

        def connect_nodes(self, a, b):
            if a in self.next:
                log.append("%s feeds two tasks" % a.name)
            self.next[a] = b

    class Scheduler:
        props = types.SimpleNamespace(time=0.0)

        def run(self, g):
            t = [x for x in g.next if isinstance(x, InputTask)][0]
            chain = [t]
            while t in g.next:
                t = g.next[t]
                chain.append(t)
            salt, num = described([(x.name, x.prop) for x in chain[1:-1]])
            if not isinstance(chain[-1], OutputTask):
                log.append("no output")
            while True:
                b = chain[0].full.get(timeout=20)
                if b is None:
                    return
                s = b.read()
                n = size(s.shape[1])
                o = np.full((n, n), -777.0, "f4")
                k = int(n / 2 - s.shape[1] / 2)
                o[k:k + s.shape[1], k:k + s.shape[1]] = made_up(np.zeros((s.shape[1],) * 2), s, np.arange(len(s)), num, salt, 1)
                chain[-1].full.put(o)
                chain[-1].back.get(timeout=20)
                chain[0].free.put(b)

    class PluginManager:
        def get_task(self, name):
            return Task(name)

    ufo = types.ModuleType("ufo")
    ufo.numpy = types.ModuleType("ufo.numpy")
    ufo.numpy.empty_like = Buffer
    ufo.numpy.asarray = np.asarray
    gi = types.ModuleType("gi")
    gi.require_version = lambda *a: None
    gi.repository = types.ModuleType("gi.repository")
    gi.repository.Ufo = types.SimpleNamespace(TaskGraph=TaskGraph, PluginManager=PluginManager, Scheduler=Scheduler,
                                              InputTask=InputTask, OutputTask=OutputTask)
    return {"ufo": ufo, "ufo.numpy": ufo.numpy, "gi": gi, "gi.repository": gi.repository}


UFO = st.fixed_dictionaries(dict({k: v for k, v in SIZE.items() if k not in ("grid", "init", "akind")}, **{
    "dfi": st.booleans(), "cen": st.one_of(st.none(), st.floats(0, 9)), "ncore": st.sampled_from([None, 1, 2, 3]),
    "nchunk": st.sampled_from([None, 1, 2, 5]), "pad": st.integers(0, 5)}))


def ufo(c):
    c = dict(c, nt=max(c["nt"], 2), grid=None, init=False, akind="half")
    sino, th, _, _, _, _, _, a = build(c, "default")
    nx = c["nx"]
    log = []
    size = (lambda w: w + c["pad"]) if c["dfi"] else (lambda w: w)
    with Installed(**ufo_modules(log, size)), unchanged(tomo=a, theta=th):
        got = call(tomopy.recon, a, th, center=c["cen"], sinogram_order=c["order"], ncore=c["ncore"], nchunk=c["nchunk"],
                   algorithm=tomopy.ufo_dfi if c["dfi"] else tomopy.ufo_fbp)
    expect(not log, "misuse of the toolbox: %s", log[:1])
    step, cen = float(np.float32(th[1] - th[0])), float(np.float32(nx / 2. if c["cen"] is None else c["cen"]))

    def task(name, **k):
        return name, k
    if c["dfi"]:
        salt = [task("zeropad", oversampling=1, center_of_rotation=cen), task("fft", dimensions=1, auto_zeropadding=False),
                task("dfi-sinc", angle_step=step), task("swap-quadrants"), task("ifft", dimensions=2), task("swap-quadrants")]
    else:
        salt = [task("fft"), task("filter"), task("ifft", crop_width=nx),
                task("backproject", axis_pos=cen, angle_step=step, angle_offset=np.pi)]
    salt, num = described(salt)
    for i in range(c["ny"]):
        want = made_up(np.zeros((nx, nx)), sino[i], np.arange(c["nt"]), num, salt, 1)
        close(got[i], want, 1e-5, "slice %d" % i, scale=np.abs(want).max() + np.abs(sino[i]).sum())


# ------------------------------------------------------------------------------- accelerated library
class Library:
    """Stands for the library of accelerated solvers, which is not part of this build."""

    def __init__(self, fail):
        def solver(name):
            def f(data, dy, dt, dx, cen, theta, rec, gx, gy, iters, pool, interp, device, grid, block):
                def arr(p, *n):
                    return np.ctypeslib.as_array(p, n)
                dy, dt, dx, gx, gy = (v.value for v in (dy, dt, dx, gx, gy))
                sino, ce, th, out = arr(data, dy, dt, dx), arr(cen, dy), arr(theta, dt), arr(rec, dy, gx, gy)
                if fail is not None and any(abs(float(v) - fail) < 1e-4 for v in ce):
                    raise RuntimeError("the device fails")
                salt = "%s %s" % (os.environ.get("TOMOPY_DEVICE_NUM"),
                                  accelerated_options(name, pool.value, interp.value.decode(), device.value.decode(),
                                                      arr(grid, 3), arr(block, 3)))
                for i in range(dy):
                    out[i] = made_up(out[i], sino[i], th, float(ce[i]), salt, iters.value)
            return f
        self.cxx_mlem, self.cxx_sirt = solver("mlem"), solver("sirt")


def accelerated_options(name, pool, interp, device, grid, block):
    return "%s %d %s %s %s %s" % (name, pool, interp, device, [int(v) for v in grid], [int(v) for v in block])


ACC = st.fixed_dictionaries(dict(SIZE, **{
    "algorithm": st.sampled_from(["mlem", "sirt"]), "iters": st.sampled_from([None, 1, 7]),
    "pool": st.sampled_from([None, 0, 3]), "interp": st.sampled_from([None, "NN", "LINEAR", "CUBIC"]),
    "device": st.sampled_from([None, "cpu", "gpu"]), "cgrid": st.sampled_from([None, [1, 2, 3]]),
    "block": st.sampled_from([None, [8, 16, 1]]), "ckind": st.sampled_from(gen.CENTERS + ("wide",)),
    "ncore": st.sampled_from([1, 1, 2, 3]), "nchunk": st.sampled_from([None, 1, 2, 5]),
    "fail": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 5))}))


def accelerated(c):
    from tomopy.util.extern import accel
    sino, th, cen, ce, init, start, kw, a = build(c, c["ckind"])
    if init is None:
        start = np.full_like(start, 1e-6)
    opt = {k: v for k, v in (("num_iter", c["iters"]), ("pool_size", c["pool"]), ("interpolation", c["interp"]),
                             ("device", c["device"]), ("grid_size", c["cgrid"]), ("block_size", c["block"])) if v is not None}
    fail = None if c["fail"] is None else float(ce[c["fail"] % len(ce)])
    old, accel.LIB_TOMOPY_ACCEL = accel.LIB_TOMOPY_ACCEL, Library(fail)
    env = dict(os.environ)
    try:
        def run():
            return tomopy.recon(a, th, center=cen, sinogram_order=c["order"], algorithm=c["algorithm"], accelerated=True,
                                init_recon=None if init is None else init.copy(), ncore=c["ncore"], nchunk=c["nchunk"], **opt, **kw)
        with unchanged(tomo=a, theta=th):
            if fail is not None:
                rejects(RuntimeError, run)
                return
            got = call(run)
    finally:
        accel.LIB_TOMOPY_ACCEL = old
        now = dict(os.environ)
    expect(now == env, "the environment changed: %s", sorted(set(now.items()) ^ set(env.items())))
    expect(got.shape == start.shape, "shape %s", got.shape)
    from tomopy.util.mproc import get_ncore_slices
    real = [s for s in get_ncore_slices(c["ny"], c["ncore"], c["nchunk"])[1] if s.stop > s.start]
    several = min(c["ncore"], len(real)) > 1
    for k, s in enumerate(real):
        salt = "%s %s" % (k if several else None, accelerated_options(
            c["algorithm"], c["pool"] or 0, c["interp"] or "NN", c["device"] or "gpu", c["cgrid"] or [0, 0, 0],
            c["block"] or [32, 32, 1]))
        for i in range(c["ny"])[s]:
            want = made_up(start[i], sino[i], th, float(ce[i]), salt, c["iters"] or 1)
            close(got[i], want, 1e-5, "slice %d" % i, scale=np.abs(want).max() + np.abs(sino[i]).sum())


NT = lambda c: c["ny"] > 1  # noqa: E731
SUBS = [
    Sub("astra", ASTRA, astra, quick=2500, thorough=60000, shards=3, nontrivial=NT),
    Sub("lprec", LP, lprec, quick=1200, thorough=30000, shards=2, nontrivial=NT),
    Sub("accelerated", ACC, accelerated, quick=500, thorough=10000, shards=2, nontrivial=NT),
    Sub("ufo", UFO, ufo, quick=1200, thorough=30000, shards=2, nontrivial=NT),
]
