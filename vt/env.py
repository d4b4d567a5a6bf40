"""Build the C libraries from the current tree of the repository and make the
process environment in which the code under test runs."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD_ROOT = os.path.join(VERIF, ".build")
EVIDENCE = os.path.join(VERIF, "evidence")
WORK = os.path.join(VERIF, ".work")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class HarnessError(Exception):
    pass


def _source_files():
    out = []
    for top in ("CMakeLists.txt", "Config.cmake.in", "cmake", "include",
                "source/CMakeLists.txt", "source/libtomo"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
        else:
            for d, _, fs in os.walk(p):
                out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def _digest(flavour):
    h = hashlib.sha256(flavour.encode())
    for p in _source_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build(flavour="release"):
    """Compile /repo's C code (CMake, the repository's own build files) into a
    directory named after the digest of its sources; returns that directory."""
    os.makedirs(BUILD_ROOT, exist_ok=True)
    d = os.path.join(BUILD_ROOT, flavour + "-" + _digest(flavour))
    ok = os.path.join(d, ".complete")
    with open(os.path.join(BUILD_ROOT, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return d
        for old in os.listdir(BUILD_ROOT):   # keep disk use bounded
            p = os.path.join(BUILD_ROOT, old)
            if old.startswith(flavour + "-") and os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(d)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        env["CC"], env["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
        args = ["cmake", "-S", REPO, "-B", d, "-GNinja", "-DCMAKE_BUILD_TYPE=Release",
                "-DTOMOPY_USE_MKL=OFF", "-DTOMOPY_USE_CUDA=OFF",
                "-DTOMOPY_USE_OPENCV=OFF", "-DPYTHON_EXECUTABLE=" + PY]
        if flavour == "asan":
            fl = ("-fsanitize=address,bounds,shift,integer-divide-by-zero,null "
                  "-fno-sanitize-recover=all -fno-omit-frame-pointer -g -shared-libasan")
            fl = fl.replace(" -shared-libasan", "")
            args += ["-DCMAKE_C_FLAGS=" + fl, "-DCMAKE_CXX_FLAGS=" + fl]
        log = os.path.join(d, "build.log")
        with open(log, "w") as lf:
            for cmd in (args, ["cmake", "--build", d]):
                r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env,
                                   cwd=REPO)
                if r.returncode:
                    with open(log) as f:
                        tail = f.read()[-3000:]
                    raise HarnessError("C build failed:\n" + tail)
        open(ok, "w").close()
        return d


def deps_dir():
    """A directory from which the interpreter of the code under test can import
    hypothesis (appended to, never placed before, its own site-packages)."""
    if os.path.isdir(os.path.join(VT_SITE, "hypothesis")):
        return VT_SITE
    d = os.path.join(VERIF, ".deps")
    if not os.path.isdir(os.path.join(d, "hypothesis")):
        import glob
        import zipfile
        os.makedirs(d, exist_ok=True)
        for pat in ("hypothesis-6*-cp312-*.whl", "sortedcontainers-*.whl"):
            for w in glob.glob(os.path.join(WHEELS, pat)):
                zipfile.ZipFile(w).extractall(d)
    if not os.path.isdir(os.path.join(d, "hypothesis")):
        raise HarnessError("hypothesis not available")
    return d


def run_env(libdir, extra=None):
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "PYTHONHOME", "TOMOPY_FFT_IMPL", "CUDA_VERSION",
                        "TOMOPY_PYTHON_THREADS", "LD_PRELOAD")}
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LD_LIBRARY_PATH"] = libdir
    env["MKL_THREADING_LAYER"] = "SEQUENTIAL"
    env["OMP_NUM_THREADS"] = "2"
    env["OMP_WAIT_POLICY"] = "PASSIVE"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["NUMEXPR_NUM_THREADS"] = "1"
    env["NUMEXPR_MAX_THREADS"] = "8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"    # C21 fills fresh memory
    env["PYTHONWARNINGS"] = "ignore"
    env["VT_DEPS"] = deps_dir()
    env["PYTHONPATH"] = VERIF
    env["VT_REPO"] = REPO
    if extra:
        env.update(extra)
    return env


def libasan():
    r = subprocess.run(["/usr/bin/gcc", "-print-file-name=libasan.so"],
                       capture_output=True, text=True)
    return os.path.realpath(r.stdout.strip())
