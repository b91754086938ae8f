META = dict(technique="runtime monitor: repeated, re-laid-out, threaded, re-ordered and memory-poisoned executions compared bit by bit; argument guard",
            level_note="Holds on the explored calls. The second process runs a build whose uninitialised locals are filled with a pattern, with a poisoning allocator and another call history, "
                       "so a result that depends on left-over memory differs. Bitwise equality is the oracle; no model is trusted.",
            N=dict(quick=1400, thorough=14000), kinds=["plain", "poison"], level="exploration", cpu=90,
            rule="one case = one pixel with parameters; every public per-pixel function is called as a baseline and again: immediately, after other pixels, in threads, with other "
                 "array layouts and integer widths, read-only, and in a second process (poisoned memory, different history); non-trivial = the baseline returned a record or a state",
            must_observe=["repeat", "layout", "thread", "process", "history", "guard", "returned-kept", "sibling", "fn:cold", "fn:recon", "fn:sccd", "fn:update", "fn:pinpoint", "fn:identify"],
            assumptions=["a narrower integer type is used only when it holds every value of the array"])
import os, pickle, struct, subprocess, sys, threading
import numpy as np
import pycold
from .. import gen, flow, env
from . import c04

HELPER = None


def perform(job):
    """job: (function, pixel arrays, parameters, extra).  Returns a result made of plain numpy/python values."""
    f, args, p, extra = job
    try:
        if f == "cold":
            return pycold.cold_detect(*args, **p)
        if f == "recon":
            return pycold.obcold_reconstruct(*args, extra, **p)
        if f in ("sccd", "pinpoint"):
            x = pycold.sccd_detect(*args, b_pinpoint=f == "pinpoint", **p)
            return [x[0], x[1][1]] if f == "pinpoint" else x
        if f == "update":
            return pycold.sccd_update(pack(extra), *args, **p)
        if f == "identify":
            return list(pycold.sccd_identify(pack(extra), **p))
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def pack(t):
    return t if hasattr(t, "_fields") else pycold.colds.SccdOutput(*t)


def plain(x):
    if hasattr(x, "_fields"):
        return ("pack", tuple(x))
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def unplain(x):
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == "pack":
        return pack(x[1])
    if isinstance(x, list):
        return [unplain(y) for y in x]
    return x


def differs(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return "" if isinstance(a, str) and isinstance(b, str) and a == b else f"{str(a)[:200]} / {str(b)[:200]}"
    if isinstance(a, (list, tuple)) and not hasattr(a, "_fields"):
        if len(a) != len(b):
            return "lengths"
        return "; ".join(d for d in (differs(x, y) for x, y in zip(a, b)) if d)
    if hasattr(a, "_fields"):
        return ",".join(flow.diff(a, b))
    if isinstance(a, np.ndarray):
        if a.shape == b.shape and a.dtype.names:
            return ",".join(n for n in a.dtype.names if n != "align" and not flow.same_value(a[n], b[n]))
        return "" if flow.same_value(a, b) else "array"
    return "" if a == b else f"{a!r} / {b!r}"


def freeze(x):
    return pickle.loads(pickle.dumps(plain(x)))


def relayout(r, a):
    """the same values in another dtype/layout"""
    k = int(r.integers(0, 7))
    lo, hi = (int(a.min()), int(a.max())) if a.size else (0, 0)
    types = [t for t in (np.int64, np.int32, np.int16, np.uint16, np.uint32, np.int8, np.uint8) if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]
    t = types[int(r.integers(0, len(types)))]
    if k == 0:
        return a.astype(t)
    if k == 1:
        b = np.full(a.size * 3, 12345, t if np.iinfo(t).max >= 12345 else np.int64); b[::3] = a; return b[::3]
    if k == 2:
        return np.ascontiguousarray(a[::-1]).astype(t)[::-1]
    if k == 3:
        b = np.zeros((a.size, 4), t, order="C"); b[:, 2] = a; return b[:, 2]
    if k == 4:
        return a.astype(np.dtype(t).newbyteorder(">"))
    if k == 5:
        b = a.copy(); b.flags.writeable = False; return b
    return a.astype(float) if abs(lo) < 2 ** 52 and hi < 2 ** 52 else a.copy()


class Helper:
    def __init__(self, seed):
        e = env.py_env("poison", MALLOC_PERTURB_=str(1 + seed % 254), VP_SCRATCH=os.environ.get("VP_SCRATCH", "/tmp"))
        self.p = subprocess.Popen([env.PY, "-m", "vp.props.c09"], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, job):
        d = pickle.dumps(job)
        self.p.stdin.write(struct.pack("<q", len(d)) + d); self.p.stdin.flush()
        h = self.p.stdout.read(8)
        if len(h) < 8:
            rc = self.p.wait()
            raise EOFError(f"second process ended with {rc}")
        return pickle.loads(self.p.stdout.read(struct.unpack("<q", h)[0]))


def helper_main():
    out = os.fdopen(os.dup(1), "wb"); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    inp = sys.stdin.buffer; n = 0
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        job = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
        r = np.random.default_rng(n); n += 1
        junk = [np.full(int(r.integers(1, 40000)), np.nan) for _ in range(20)]; del junk        # freed memory full of NaN
        if n % 3 == 0:
            px = flow.pixel(r)
            if px.n:
                perform(("sccd", px.args(), flow.params(r), None)); perform(("cold", px.args(), gen.cold_params(r), None))
        d = pickle.dumps(plain(perform(job)))
        out.write(struct.pack("<q", len(d)) + d); out.flush()


def setup(tmp, tier, seed):
    global HELPER
    HELPER = Helper(seed + os.getpid())


def siblings(c):
    """Two pixels that look alike from outside (same number of observations, same first and last date, here and there the same
    values) processed in turn: anything remembered from the first one must not be used for the second."""
    r = c.rngs(21); w = 2 * np.pi / 365.25; p = gen.cold_params(r) if r.random() < .5 else {}; k = flow.params(r) if r.random() < .5 else {}
    conse = int(p.get("conse", 6)); kr = {n: p[n] for n in ("conse", "pos", "b_c2") if n in p}

    def values(d, rr):
        b = [300 + 80 * i + 300 * np.cos(w * d + i) + rr.normal(0, 40, len(d)) for i in range(6)] + [np.full(len(d), 2900.)]
        b = np.rint(b).astype(np.int64); q = np.zeros(len(d), np.int64)
        if rr.random() < .8:                                            # cloud or shadow missed by QA in the first window
            i = rr.integers(1, min(16, len(d)), 3); b[1, i] += int(rr.choice([250, 600])); b[4, i] += int(rr.choice([-250, 250]))
        if rr.random() < .4:
            b[:6, int(len(d) * rr.uniform(.3, .9)):] += 500
        if rr.random() < .3:
            q[rr.random(len(d)) < .1] = int(rr.choice([2, 3, 4, 255]))
        return d, b, q
    for _ in range(5):
        n = int(r.integers(45, 80)); g = r.choice([4, 8, 16, 24, 48], n - 1); g2 = g.copy(); how = int(r.integers(0, 4))
        if how <= 1:
            g2[:14] = r.permutation(g2[:14])
        elif how == 2:
            g2 = r.permutation(g2)
        d1, d2 = (725000 + np.concatenate([[0], np.cumsum(x)]).astype(np.int64) for x in (g, g2))
        one = values(d1, r); two = values(d2, r)
        if r.random() < .3:
            two = (d2, one[1].copy(), one[2].copy())
        far = values(730000 + 16 * np.arange(50), r)
        A = lambda t: (t[0], *t[1], t[2])
        brk = np.array([d1[n // 2]], np.int64)
        f, prm, ex = [("cold", p, None), ("cold", p, None), ("sccd", k, None), ("recon", kr, brk)][int(r.integers(0, 4))]
        job = (f, A(two), prm, ex)
        perform((f, A(far), prm, ex if f != "recon" else np.array([far[0][25]], np.int64)))
        want = unplain(freeze(perform(job)))
        perform((f, A(one), prm, ex))
        c.stats["sibling"] += 1
        d = differs(want, perform(job))
        c.expect(not d, f"{f}:same-bits:sibling", lambda: f"{d} {prm}")
        if d:
            c.data = dict(one=one, two=two, far=far, params=prm)


def case(c):
    siblings(c)
    r = c.rng
    px = flow.pixel(r); p = gen.cold_params(r); k = flow.params(r)
    if px.n < 2:
        return
    c.desc = dict(px.desc(), params=p, sccd=k); c.data = dict(px=px, params=p, sccd=k); c.add_sig(px.d, px.b, px.qa, p, k)
    A = tuple(px.args())
    kr = dict(conse=p["conse"], pos=p["pos"], b_c2=p["b_c2"])
    br = c04.breaks(c.rngs(3), px, p)
    cm = dict(b_output_cm=True, starting_date=int(px.d[0]) - int(r.integers(0, 50)), cm_output_interval=int(r.integers(20, 200))) if r.random() < .5 else {}
    cut = max(1, int(px.n * r.uniform(.3, 1)))
    jobs = [("cold", A, dict(p, **cm), None), ("recon", A, kr, br), ("sccd", tuple(px.sub(slice(0, cut)).args()), k, None), ("pinpoint", A, k, None)]
    # a state to continue from, frozen so that nobody else owns its memory
    s = perform(jobs[2])
    if hasattr(s, "_fields") and cut < px.n:
        st = freeze(s)[1]
        jobs.append(("update", tuple(px.sub(slice(cut, px.n)).args()), k, st))
        s2 = perform(jobs[-1])
        if hasattr(s2, "_fields"):
            jobs.append(("identify", (), dict(dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([300., 1508.6])), transform_mode=bool(r.random() < .8)), freeze(s2)[1]))
    other = flow.pixel(c.rngs(9)); threads = []
    for j in jobs:
        f, args, prm, ex = j
        c.stats["fn:" + f] += 1
        guard = freeze((args, ex))
        base = perform(j)
        c.stats["guard"] += 1
        c.expect(all(flow.same_value(x, y) for x, y in zip(args, guard[0])) and (ex is None or not differs(list(ex) if not isinstance(ex, np.ndarray) else ex, list(guard[1]) if not isinstance(ex, np.ndarray) else guard[1])),
                 f"{f}:arguments-unmodified", f"{prm}")
        if not isinstance(base, str):
            c.nontrivial = True
        want = unplain(freeze(base))

        def same(how, got, det=""):
            c.stats[how] += 1
            d = differs(want, got)
            c.expect(not d, f"{f}:same-bits:{how}", lambda: f"{d} {det} {prm}")
        same("repeat", perform(j))
        # layouts
        lay = tuple(relayout(r, a) for a in args)
        ex2 = relayout(r, ex) if f == "recon" and len(ex) else ex
        same("layout", perform((f, lay, prm, ex2)), str([(a.dtype.str, a.strides, a.flags.writeable) for a in lay]))
        # other calls in between; the returned object must not be shared with later calls
        if other.n > 1:
            perform(("cold", tuple(other.args()), p, None)); perform(("sccd", tuple(other.args()), k, None)); perform(("recon", tuple(other.args()), kr, br))
        same("history", perform(j))
        c.stats["returned-kept"] += 1
        d = differs(want, base)
        c.expect(not d, f"{f}:returned-value-stays", lambda: f"{d} changed after later calls")
        # changing the arguments afterwards does not change what was returned
        if f == "update":
            e3 = freeze(ex); a3 = tuple(a.copy() for a in args)
            got = perform((f, a3, prm, e3))
            for a in a3:
                a[:] = 0
            for x in e3:
                if isinstance(x, np.ndarray) and x.size:
                    x.view(np.uint8)[...] = 7
            same("result-independent-of-argument-memory", got)
        # second process
        same("process", unplain(HELPER.ask((f, args, prm, ex))))
        threads.append((j, want))
    res = [None] * len(threads)

    def work(i):
        res[i] = perform(threads[i][0])
    ts = [threading.Thread(target=work, args=(i,)) for i in r.permutation(len(threads))]
    [t.start() for t in ts]; [t.join() for t in ts]
    for i, (j, want) in enumerate(threads):
        c.stats["thread"] += 1
        d = differs(want, res[i])
        c.expect(not d, f"{j[0]}:same-bits:thread", lambda: f"{d} {j[2]}")


if __name__ == "__main__":
    helper_main()
