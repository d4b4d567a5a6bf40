"""Decides one property: usage: check.py PROP [quick|thorough] | --replay FILE"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import env as E  # noqa: E402


def spawn(args, environ, log):
    lf = open(log, "w")
    return subprocess.Popen([E.PY, "-m", "vt.worker"] + args, env=environ, cwd=environ["VT_CWD"],
                            stdin=subprocess.DEVNULL, stdout=lf, stderr=subprocess.STDOUT,
                            start_new_session=True)


def reap(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def tail(path, n=3000):
    try:
        with open(path, errors="replace") as f:
            return f.read()[-n:]
    except OSError:
        return ""


def crash_tail(text):
    """The sanitizer's report (kind and first frames) if there is one."""
    i = max(text.find("ERROR: AddressSanitizer"), text.find("runtime error:"))
    if i < 0:
        return text[-1500:]
    lines = text[max(0, i - 100):].splitlines()
    keep = [x for x in lines[:60] if "AddressSanitizer" in x or "runtime error" in x or x.strip().startswith("#") or " of size " in x]
    return "\n".join(keep[:14])


def list_subs(prop, environ):
    code = ("import json,sys,vt.worker as w\n"
            "m=w.load(%r)\n"
            "sys.stdout.write('\\n@@'+json.dumps(dict(rule=m.RULE,assumptions=m.ASSUMPTIONS,"
            "subs=[dict(name=s.name,shards=s.shards,asan=s.asan,timeout=s.timeout) "
            "for s in m.SUBS]))+'\\n')\n" % prop)
    r = subprocess.run([E.PY, "-c", code], env=environ, cwd=environ["VT_CWD"],
                       capture_output=True, text=True, timeout=300)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise E.HarnessError("cannot load %s:\n%s" % (prop, r.stderr[-3000:]))


class Checker:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        os.makedirs(E.WORK, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=E.WORK)
        cwd = os.path.join(self.tmp, "cwd")
        os.makedirs(cwd)
        self.lib = E.build("release")
        self.env = E.run_env(self.lib, {"VT_CWD": cwd, "TMPDIR": cwd})
        self.info = list_subs(prop, self.env)
        self.asan_env = None
        if any(s["asan"] for s in self.info["subs"]):
            d = E.build("asan")
            self.asan_env = E.run_env(d, {
                "VT_CWD": cwd, "TMPDIR": cwd, "LD_PRELOAD": E.libasan(),
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                                "handle_segv=1:detect_odr_violation=0",
                "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:abort_on_error=1"})

    def e(self, sub):
        return self.asan_env if sub["asan"] else self.env

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def save_replay(self, sub, case, msg):
        d = os.path.join(E.EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.prop, "sub": sub, "case": case, "message": msg}
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s-%s.json" % (self.prop, sub, h))
        with open(p, "w") as f:
            json.dump(body, f, indent=1)
        return p

    def replay_case(self, sub, case):
        """-> (result|None, exit code, log tail)"""
        n = len(os.listdir(self.tmp))
        rp = os.path.join(self.tmp, "r%d.json" % n)
        out, log = rp + ".out", rp + ".log"
        with open(rp, "w") as f:
            json.dump({"property": self.prop, "sub": sub["name"], "case": case}, f)
        p = spawn(["--replay", rp, out], self.e(sub), log)
        try:
            p.wait(timeout=sub["timeout"] * 2 + 60)
        except subprocess.TimeoutExpired:
            reap(p)
            p.wait()
            return None, 97, tail(log, 30000)
        reap(p)
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)["result"]
        return res, p.returncode, tail(log, 30000)

    def shrink_crash(self, sub, shard, case, lg):
        """Search again with every case in a child process, so that the crash shrinks."""
        if time.monotonic() - self.t0 > 240:
            return case, lg
        out = os.path.join(self.tmp, "%s-%d-f.json" % (sub["name"], shard))
        p = spawn([self.prop, sub["name"], str(shard), self.tier, str(self.seed), out],
                  dict(self.e(sub), VT_FORK="1"), out + ".log")
        try:
            p.wait(timeout=100)
        except subprocess.TimeoutExpired:
            pass
        reap(p)
        p.wait()
        if os.path.exists(out):
            with open(out) as f:
                v = json.load(f)["violation"]
            if v and len(json.dumps(v["case"])) <= len(json.dumps(case)):
                _, rc, log = self.replay_case(sub, v["case"])
                if rc != 0:
                    return v["case"], log
        return case, lg

    def run(self):
        t0 = self.t0 = time.monotonic()
        jobs = []
        for s in self.info["subs"]:
            if self.only and s["name"] not in self.only:
                continue
            for k in range(s["shards"]):
                jobs.append([s, k, 0])
        results, errors, violations = [], [], []
        width = int(os.environ.get("VT_JOBS", "8"))
        running = []
        limit = 780 if self.tier == "quick" else 6 * 3600
        while jobs or running:
            while jobs and len(running) < width:
                s, k, attempt = jobs.pop(0)
                out = os.path.join(self.tmp, "%s-%d-%d.json" % (s["name"], k, attempt))
                p = spawn([self.prop, s["name"], str(k), self.tier, str(self.seed), out],
                          self.e(s), out + ".log")
                running.append((p, s, k, attempt, out))
            time.sleep(0.05)
            if time.monotonic() - t0 > limit:
                for r in running:
                    reap(r[0])
                errors.append("time limit of the whole check reached")
                break
            still = []
            for r in running:
                p, s, k, attempt, out = r
                if p.poll() is None:
                    still.append(r)
                    continue
                reap(p)
                if p.returncode == 0 and os.path.exists(out):
                    with open(out) as f:
                        res = json.load(f)
                    results.append(res)
                    if res.get("error"):
                        errors.append("%s: %s" % (s["name"], res["error"]))
                    if res["violation"]:
                        violations.append((s["name"], res["violation"]["case"],
                                           res["violation"]["msg"]))
                    continue
                # the process died: a crash or hang inside the code under test
                try:
                    with open(out + ".case") as f:
                        case = json.load(f)
                except (OSError, ValueError):
                    errors.append("%s: worker died (%s) before its first case\n%s"
                                  % (s["name"], p.returncode, tail(out + ".log")))
                    continue
                why = "hang" if p.returncode == 97 else "crash (exit %s)" % p.returncode
                res, rc, lg = self.replay_case(s, case)
                if rc != 0:
                    case, lg = self.shrink_crash(s, k, case, lg)
                    violations.append((s["name"], case, "%s of the process: %s"
                                       % (why, crash_tail(lg or tail(out + ".log", 30000)))))
                elif res and res[0] == "violation":
                    violations.append((s["name"], case, res[1]))
                elif attempt == 0:
                    jobs.append([s, k, 1])
                elif p.returncode in (-9, 97):
                    errors.append("%s: %s, not reproduced" % (s["name"], why))
                else:
                    violations.append((s["name"], case, why + " twice; the case alone passes: "
                                       + crash_tail(tail(out + ".log", 30000))))
            running = still
        return self.finish(t0, results, errors, violations)

    def finish(self, t0, results, errors, violations):
        hashes, samples, known, per = set(), [], {}, {}
        ev = sk = 0
        for r in results:
            ev += r["evaluations"]
            sk += r["skipped"]
            hashes |= {r["sub"] + h for h in r["hashes"]}
            q = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0,
                                          "outside_domain": 0, "cut_by_time": False})
            q["evaluations"] += r["evaluations"]
            q["outside_domain"] += r["skipped"]
            q["cut_by_time"] |= r["cut"]
            q["wall_s"] = round(q.get("wall_s", 0) + r["wall"], 1)
            if len([1 for x in samples if x["sub"] == r["sub"]]) < 1:
                samples += [{"sub": r["sub"], "case": c} for c in r["samples"][:1]]
            for k, v in r["known"].items():
                known.setdefault(k, v)
        for h in hashes:
            for k in per:
                if h[:-16] == k:
                    per[k]["distinct_nontrivial"] += 1
        os.makedirs(E.EVIDENCE, exist_ok=True)
        body = {"property": self.prop, "tier": self.tier, "seed": self.seed,
                "level": "exploration",
                "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes),
                             "rule": self.info["rule"], "samples": samples,
                             "outside_domain": sk, "per_search": per},
                "assumptions": self.info["assumptions"],
                "wall_s": round(time.monotonic() - t0, 2),
                "violations": len(violations)}
        if known:
            body["coverage"]["known_findings_met"] = sorted(known)
        with open(os.path.join(E.EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(body, f, indent=1)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, known[k]))
        for sub, case, msg in violations:
            p = self.save_replay(sub, case, msg)
            print("[%s] %s\n  case: %s" % (sub, msg, json.dumps(case)))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        for x in errors:
            print("ERROR: " + x, file=sys.stderr)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d outside domain, %.1f s, %s"
              % (self.prop, self.tier, self.seed, ev, len(hashes), sk,
                 time.monotonic() - t0, "VIOLATED" if violations else
                 ("ERROR" if errors else "held")))
        if os.environ.get("VT_VERBOSE"):
            for k in per:
                print("   ", k, per[k])
        sys.stdout.flush()
        if violations:
            return 1
        return 2 if errors else 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            r = json.load(f)
        c = Checker(r["property"], "quick", seed)
        sub = [s for s in c.info["subs"] if s["name"] == r["sub"]][0]
        res, rc, lg = c.replay_case(sub, r["case"])
        c.close()
        print("result:", res, "exit", rc)
        if rc != 0:
            print(lg)
        bad = rc != 0 or (res and res[0] == "violation")
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(a[1])))
        return 1 if bad else 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = a[2].split(",") if len(a) > 2 else None
    ev = os.path.join(E.EVIDENCE, prop + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    c = None
    try:
        c = Checker(prop, tier, seed, only)
        return c.run()
    except E.HarnessError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    finally:
        if c:
            c.close()


if __name__ == "__main__":
    sys.exit(main())
