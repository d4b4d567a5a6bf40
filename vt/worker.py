"""Runs one sub-search (one shard) of a property in its own process.

usage: python -m vt.worker PROP SUB SHARD TIER SEED OUT
       python -m vt.worker --replay FILE OUT
"""
import faulthandler
import hashlib
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback

from vt import core


def load(prop):
    return importlib.import_module("vt.props." + prop.lower())


def own_libraries():
    """The compiled code must come from the check's own build."""
    want = os.environ["LD_LIBRARY_PATH"]
    with open("/proc/self/maps") as f:
        bad = {x.split()[-1] for x in f if "libtomo" in x.split()[-1].rsplit("/", 1)[-1]
               and not x.split()[-1].startswith(want + "/")}
    if bad:
        raise core.HarnessError("libraries of another build: %s" % sorted(bad))


def find_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise core.HarnessError("no sub " + name)


def known_ids(prop):
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     "known_findings.json")
    with open(p) as f:
        k = json.load(f)
    return {e["id"]: e for e in k.get("known", []) if e["property"] == prop}


class Watch:
    """Ends the process (exit 97) when one case runs too long."""

    def __init__(self, limit):
        self.limit, self.t0 = limit, None
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            time.sleep(1)
            t0 = self.t0
            if t0 is not None and time.monotonic() - t0 > self.limit:
                faulthandler.dump_traceback()
                os._exit(97)


def apart(sub, case, known):
    """run_case in a forked child, so that a crash is an outcome like any other."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            v = run_case(sub, case, known)
        except BaseException:
            v = ("skip",)
        os.write(w, json.dumps(v).encode()[:60000])
        os._exit(0)
    os.close(w)
    t0 = time.monotonic()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.monotonic() - t0 > sub.timeout:
            os.kill(pid, signal.SIGKILL)
        time.sleep(0.002)
    text = os.read(r, 60000)
    os.close(r)
    if status:
        return ("violation", "crash of the process (status %d)" % status)
    v = json.loads(text)
    return tuple(v) if v else None


def cj(case):
    return json.dumps(case, sort_keys=True)


def run_case(sub, case, known):
    """-> None | ('violation', msg) | ('known', id, msg) | ('skip',)"""
    try:
        sub.fn(case)
        return None
    except core.Skip:
        return ("skip",)
    except core.Known as e:
        if e.fid in known:
            return ("known", e.fid, str(e))
        return ("violation", str(e))
    except core.Violation as e:
        return ("violation", str(e))


def explore(prop, name, shard, tier, seed, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    mod = load(prop)
    own_libraries()
    sub = find_sub(mod, name)
    known = known_ids(prop)
    total = sub.quick * 2 if tier == "quick" else sub.thorough
    n = max(1, int(total * float(os.environ.get("VT_SCALE", "1"))) // sub.shards)
    watch = Watch(sub.timeout)
    cur = out + ".case"
    budget = (sub.soft or 90.0) if tier == "quick" else 900.0
    start = time.monotonic()
    res = {"prop": prop, "sub": name, "shard": shard, "evaluations": 0, "skipped": 0,
           "hashes": [], "samples": [], "violation": None, "known": {}, "cut": False}
    hashes = set()
    best = [None]            # (key, case, msg)
    first_fail = [None]
    SHRINK_S = 40.0 if tier == "quick" else 120.0

    class Fail(Exception):
        pass

    def one(case):
        key = cj(case)
        if best[0] is not None and time.monotonic() - first_fail[0] > SHRINK_S:
            if key != best[0][0][1]:
                return
            raise Fail()
        if best[0] is None and time.monotonic() - start > budget:
            res["cut"] = True
            return
        with open(cur, "w") as f:
            f.write(key)
        watch.t0 = None if os.environ.get("VT_FORK") else time.monotonic()
        try:
            r = (apart if os.environ.get("VT_FORK") else run_case)(sub, case, known)
        finally:
            watch.t0 = None
        res["evaluations"] += 1
        if r and r[0] == "skip":
            res["skipped"] += 1
            return
        if sub.nontrivial(case):
            h = hashlib.sha1(key.encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 3 and len(key) < 1500:
                    res["samples"].append(case)
        if r is None:
            return
        if r[0] == "known":
            res["known"].setdefault(r[1], r[2][:300])
            return
        if first_fail[0] is None:
            first_fail[0] = time.monotonic()
        k = (len(key), key)
        if best[0] is None or k < best[0][0]:
            best[0] = (k, case, r[1])
        raise Fail(r[1])

    try:
        if shard == 0:
            for c in sub.corners:
                try:
                    one(json.loads(json.dumps(c)))
                except Fail:
                    break
        if best[0] is None:
            s = int(hashlib.sha256(("%s/%s/%s/%d" % (prop, name, shard, seed)).encode())
                    .hexdigest()[:12], 16)

            @hypothesis.seed(s)
            @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink])
            @given(sub.strategy)
            def test(case):
                one(case)
            try:
                test()
            except Fail:
                pass
            except BaseException as e:
                # hypothesis' own complaint that a failure did not repeat: the
                # failure was seen all the same
                if best[0] is None or not isinstance(
                        e, (hypothesis.errors.HypothesisException, BaseExceptionGroup)):
                    raise
        if best[0] is not None:
            res["violation"] = {"case": best[0][1], "msg": best[0][2]}
    except BaseException:
        res["error"] = traceback.format_exc()
    res["hashes"] = sorted(hashes)
    res["wall"] = time.monotonic() - start
    with open(out, "w") as f:
        json.dump(res, f)


def replay(path, out):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    sub = find_sub(mod, r["sub"])
    Watch(sub.timeout * 2).t0 = time.monotonic()
    v = run_case(sub, r["case"], known_ids(r["property"]))
    with open(out, "w") as f:
        json.dump({"result": v}, f)
    if v:
        print(v)


def main():
    faulthandler.enable()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if sys.argv[1] == "--replay":
        replay(sys.argv[2], sys.argv[3])
    else:
        prop, name, shard, tier, seed, out = sys.argv[1:7]
        explore(prop, name, int(shard), tier, int(seed), out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
