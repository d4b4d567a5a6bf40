"""Lists every distinct failing (op, message start) of a search: survey.py PROP SUB N [key]"""
import sys, os, json, collections, hashlib, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import worker, core
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase
mod = worker.load(sys.argv[1]); sub = worker.find_sub(mod, sys.argv[2]); n = int(sys.argv[3])
key = sys.argv[4] if len(sys.argv) > 4 else "op"
fails = collections.OrderedDict(); cnt = collections.Counter()
@hypothesis.seed(int(os.environ.get("VERIF_SEED", "1")))
@settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
@given(sub.strategy)
def t(c):
    cnt["n"] += 1
    try:
        r = worker.run_case(sub, c, {})
    except Exception as e:
        r = ("violation", "HARNESS %s %r" % (type(e).__name__, e))
        import traceback; tb = traceback.format_exc()
        fails.setdefault("H" + tb[-300:], [0, c, tb[-800:]])[0] += 1
        return
    if r and r[0] == "violation":
        k = "%s|%s" % (c.get(key), r[1][:45])
        fails.setdefault(k, [0, c, r[1]])[0] += 1
    elif r: cnt[r[0]] += 1
t()
for k, v in fails.items(): print(v[0], k, "\n    ", v[2][:600], "\n    ", json.dumps(v[1]))
print(dict(cnt), "failing kinds", len(fails))
os._exit(0)
