"""Searches for an input on which a planted change alters a result, and writes it as the demonstration's case.
   run(fn, lo, hi): results of one build; find(id, fn): both builds, first clear difference."""
import json, os, pathlib, subprocess, sys, tempfile, shutil
V = pathlib.Path(__file__).resolve().parent.parent

CALL = '''
import json, os, sys
import numpy as np
import pycold
from pycold import utils

def flat(x):
    """a result as nested lists of numbers"""
    if hasattr(x, "_fields"):
        return [flat(v) for v in x]
    if isinstance(x, (tuple, list)):
        return [flat(v) for v in x]
    if hasattr(x, "dtype"):
        if x.dtype.names:
            return {n: flat(x[n]) for n in x.dtype.names if n != "align"}
        return [flat(v) for v in x] if x.ndim else flat(x.item())
    return None if x is None else float(x) if isinstance(x, float) else int(x)

def perform(o):
    d = np.array(o["d"], np.int64); b = np.array(o["b"], np.int64).reshape(7, -1); q = np.array(o["qa"], np.int64)
    f, k = o["fn"], o["params"]
    try:
        if f == "cold": return flat(pycold.cold_detect(d, *b, q, **k))
        if f == "recon": return flat(pycold.obcold_reconstruct(d, *b, q, np.array(o["breaks"], np.int64), **k))
        if f == "sccd": return flat(pycold.sccd_detect(d, *b, q, **k))
        if f == "hist":
            c = o["cuts"]; s = pycold.sccd_detect(d[:c[0]], *b[:, :c[0]], q[:c[0]], **k); out = [flat(s)]
            for lo, hi in zip(c, c[1:]):
                s = pycold.sccd_update(s, d[lo:hi], *b[:, lo:hi], q[lo:hi], **k); out.append(flat(s))
            return out
    except Exception as e:
        return type(e).__name__

def near(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 2e-2 * max(1, abs(a), abs(b))
    return a == b if not (isinstance(a, int) and isinstance(b, int)) else abs(a - b) <= 2
'''
DEMO = CALL + '''
o = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "case.json")))
got = json.loads(json.dumps(perform(o)))
if not near(o["expected"], got):
    print("the result differs from the one the property prescribes:\\n", str(got)[:1500], "\\nexpected\\n", str(o["expected"])[:1500])
    sys.exit(1)
'''
GEN = CALL + '''
sys.path.insert(0, %r)
from vp import gen, flow
fn, lo, hi, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
with open(out, "w") as fo:
  for i in range(lo, hi):
    r = np.random.default_rng([424242, i])
    px = gen.pixel(r) if fn.startswith(("cold", "recon")) else flow.pixel(r)
    if px.n == 0: continue
    o = dict(fn=fn.split("-")[0], d=px.d.tolist(), b=px.b.tolist(), qa=px.qa.tolist(), i=i)
    if fn == "cold": o["params"] = gen.cold_params(r)
    elif fn == "cold-cm": o["params"] = dict(gen.cold_params(r), b_output_cm=True)
    elif fn.startswith("recon"):
        o["params"] = dict(conse=9) if fn == "recon-conse" else {}; o["breaks"] = sorted(set(int(x) for x in r.choice(px.d, int(r.integers(1, 5)))))
    else:
        o["params"] = flow.params(r)
        if fn == "sccd-pin": o["params"]["b_pinpoint"] = True
        if fn.startswith("hist"):
            if fn == "hist-end":        # a change near the end, then one observation at a time
                px = gen.series(r, n=int(r.integers(50, 200)), breaks=0, cloud=0, snow=0, noise=30); k = int(r.integers(4, 20))
                px.b[:6, -k:] = np.clip(px.b[:6, -k:] + np.array([100, 150, 400, -900, 600, 500])[:, None], 1, 9999); px.d[-k:] = px.d[-k - 1] + np.cumsum(r.integers(1, 7, k))
                o.update(d=px.d.tolist(), b=px.b.tolist(), qa=px.qa.tolist(), cuts=list(range(px.n - k, px.n + 1))); o["expected"] = json.loads(json.dumps(perform(o))); fo.write(json.dumps(o) + "\\n"); continue
            c = max(1, int(px.n * r.uniform(.2, .9))); o["cuts"] = [c] + flow.cuts(r, px.n, c, int(r.choice([1, 3, 8])))
    o["expected"] = json.loads(json.dumps(perform(o)))
    fo.write(json.dumps(o) + "\\n")
''' % str(V)


def overlay(repo, build):
    e = dict(os.environ, VP_REPO=str(repo), VP_BUILD=str(build))
    return subprocess.run([sys.executable, "-c", "from vp import env; print(env.overlay('plain'))"], cwd=V, env=e, check=True, capture_output=True, text=True).stdout.strip()


def results(ov, fn, n, t, tag):
    g = pathlib.Path(t) / "gen.py"; g.write_text(GEN)
    ps = [subprocess.Popen(["/opt/pycold-venv/bin/python", str(g), fn, str(k * n // 8), str((k + 1) * n // 8), f"{t}/{tag}{k}"], env=dict(os.environ, PYTHONPATH=ov),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(8)]
    for p in ps: p.wait()
    return {o["i"]: o for k in range(8) for o in map(json.loads, open(f"{t}/{tag}{k}"))}


def find(id, fn, n=400, pick=None, nonerr=True):
    """the smallest case on which the results differ; writes seeded/ID/case.json"""
    s = V / "seeded" / id
    t = tempfile.mkdtemp(prefix="dd-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        subprocess.run(["git", "-C", t + "/r", "apply", s / "patch.diff"], check=True)
        a = results(overlay("/repo", V / ".build"), fn, n, t, "a"); b = results(overlay(t + "/r", t + "/b"), fn, n, t, "b")
        ns = {}; exec(CALL.replace("import pycold\nfrom pycold import utils", "").replace("import numpy as np", ""), ns)
        diff = [i for i in a if i in b and not ns["near"](a[i]["expected"], b[i]["expected"]) and not (nonerr and isinstance(a[i]["expected"], str))]
        print(id, "differs on", len(diff), "of", len(a))
        if not diff:
            return False
        i = min(diff, key=lambda i: len(a[i]["d"]))
        (s / "case.json").write_text(json.dumps(a[i]))
        (s / "demo.py").write_text(DEMO)
        return True
    finally:
        shutil.rmtree(t)
