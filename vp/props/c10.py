META = dict(technique="runtime monitor over an enumerated call table: every invalid argument must raise, every boundary value must be accepted, defaults compared bit by bit",
            level_note="Every entry of the table of invalid and boundary arguments is executed on many pixels; rejection must leave arguments and later calls unaffected. "
                       "Values outside the table are not decided.",
            N=dict(quick=4000, thorough=60000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one pixel with, for every public per-pixel function, several entries of the invalid-argument table, of the boundary table, and the default forms "
                 "(omitted, by name, by position); non-trivial = an invalid call was rejected and the following valid call gave the reference bits",
            must_observe=["rejected:cold_detect", "rejected:obcold_reconstruct", "rejected:sccd_detect", "rejected:sccd_update", "rejected:sccd_identify",
                          "accepted", "defaults", "unaffected", "kind:param", "kind:array-length", "kind:array-dim", "kind:order", "kind:qa", "kind:empty", "kind:type", "kind:state", "kind:short", "kind:slots"],
            assumptions=["+infinity as a threshold is not decided"])
OWN_EXCEPTIONS = True
import warnings
import numpy as np
import pycold
from .. import gen, flow
from . import c09, c04
warnings.simplefilter("ignore", FutureWarning)
REALPOS = [0, 0.0, -1, -1.5, -1e300, float("nan"), float("-inf"), None, "15.0", [15.0], 3j, np.array([15.0]), b"1"]
REALNN = [-1, -0.001, float("nan"), None, "365", [1.0], 2j]
INTPOS = [0, -1, -5, 1.0, 2.5, "1", None, float("nan"), [1], np.float64(3), np.array([1])]
INTNN = [-1, -60, 1.0, 2.5, "1", None, [1], np.float64(3)]
CONSE = [0, -1, 12, 13, 100, 6.0, "6", None, [6], np.float32(6)]
BOOL = [None, "x", "", "True", 1.0, 0.0, [], [True], np.array([True]), 2j]
D = dict(
    cold_detect=dict(t_cg=(15.0863, REALPOS), pos=(1, INTPOS + [2 ** 31, 2 ** 70]), conse=(6, CONSE), b_output_cm=(False, BOOL), starting_date=(0, INTNN), n_cm=(0, INTNN),
                     cm_output_interval=(0, INTNN), b_c2=(False, BOOL), gap_days=(365.25, REALNN)),
    obcold_reconstruct=dict(pos=(1, INTPOS + [2 ** 31]), conse=(6, CONSE), b_c2=(False, BOOL)),
    sccd_detect=dict(t_cg=(15.0863, REALPOS), pos=(1, INTPOS + [2 ** 31]), conse=(6, CONSE + [9, 10, 11]), b_c2=(False, BOOL), b_pinpoint=(False, BOOL), gate_tcg=(9.236, REALPOS), b_monitor_init=(False, BOOL)),
    sccd_update=dict(t_cg=(15.0863, REALPOS), pos=(1, INTPOS + [2 ** 31]), conse=(6, CONSE + [9, 10, 11]), b_c2=(False, BOOL), gate_tcg=(9.236, REALPOS), predictability_tcg=(9.236, REALPOS)),
    sccd_identify=dict(dist_conse=(6, [0, -1, 7, 8, 12, 6.0, "6", None]), t_cg_scale100=(1508.6, REALPOS), t_cg_singleband_scale1000=(-200, [float("nan"), None, "x", [1]]),
                       t_angle_scale100=(4500, [0, -1, 18000, 20000, 4500.0, None, "x"]), transform_mode=(True, BOOL)))
OKV = dict(t_cg=[1e-6, 0.5, 1000.0, 10 ** 6, np.float32(15.0), np.float64(9.2), 15], pos=[1, 2, 2 ** 31 - 1, np.int64(7), np.int32(9), np.uint8(200)],
           conse=[1, 2, 5, 8, np.int64(6), np.int16(4), 11], b_output_cm=[True, False, np.bool_(True), 0], starting_date=[0, 1, 700000], n_cm=[0, 5000], cm_output_interval=[0, 1, 30, 100000],
           b_c2=[True, False, np.bool_(False), 1, 0], gap_days=[0, 0.0, 1e-3, 365, 1e9], b_pinpoint=[False, np.bool_(False)], gate_tcg=[1e-3, 5, 100.0], b_monitor_init=[True, False],
           predictability_tcg=[1e-3, 5, 100.0], dist_conse=[1, 2, 6, np.int64(3)], t_cg_scale100=[1e-3, 1, 32767.0], t_cg_singleband_scale1000=[-1e6, 0, 200.5], t_angle_scale100=[1, 17999, np.int64(4500)],
           transform_mode=[True, False, np.bool_(True)])
BAND = ["dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas"]


def bad_arrays(r, A, fn):
    """(kind, arrays) with one thing wrong"""
    k = int(r.integers(0, 8)); i = int(r.integers(0, 9)); B = list(A); n = len(A[0])
    if k == 0:
        cutn = int(r.integers(1, min(n, 4) + 1))
        B[i] = A[i][:n - cutn] if r.random() < .5 else np.concatenate([A[i], A[i][-cutn:]])
        return "array-length", B
    if k == 1:
        how = int(r.integers(0, 4))
        if how == 0:
            B[i] = A[i][:, None]
        elif how == 1:
            B = [a[:, None] for a in A]
        elif how == 2:
            B[i] = np.stack([A[i], A[i]], 1)
        else:
            B[i] = np.array(5)
        return "array-dim", B
    if k == 2 and n > 1 and A[0][0] < A[0][-1]:
        d = A[0].copy()
        if r.random() < .5:
            j = int(r.choice(np.flatnonzero(np.diff(d) > 0))); d[j], d[j + 1] = d[j + 1], d[j]
            B[0] = d
        else:
            B[0] = d[::-1].copy()
        return "order", B
    if k == 3:
        q = A[8].copy(); q[int(r.integers(0, n))] = r.choice([5, 6, 7, -1, 100, 254, 256, -9999, 10 ** 6]); B[8] = q
        return "qa", B
    if k == 4:
        return "empty", [a[:0] for a in A]
    if k == 5:
        B[i] = [A[i].tolist(), None, "abc", 5][int(r.integers(0, 4))]
        return "type", B
    if k == 6:
        B[i] = A[i].astype(object); B[i][int(r.integers(0, n))] = ["x", None, [1]][int(r.integers(0, 3))]
        return "type", B
    if fn == "sccd_detect":
        m = int((A[0] - A[0][0] < 365.25).sum())
        return "short", [a[:m] for a in A]
    B[i] = np.array([A[i]])
    return "array-dim", B


def case(c):
    r = c.rng
    px = flow.pixel(r)
    if px.n < 3:
        return
    c.desc = px.desc(); c.data = dict(px=px); c.add_sig(px.d, px.b, px.qa)
    A = tuple(px.args()); br = c04.breaks(c.rngs(3), px, gen.cold_params(r))
    cut = int(px.n * .7) + 1
    states = []
    s = c09.perform(("sccd", tuple(px.sub(slice(0, cut)).args()), {}, None))
    rest = tuple(px.sub(slice(min(cut, px.n - 1), px.n)).args())
    calls = [("cold_detect", A, ()), ("obcold_reconstruct", A, (br,)), ("sccd_detect", A, ())]
    if hasattr(s, "_fields"):
        calls += [("sccd_update", rest, (s,)), ("sccd_identify", (), (s,))]

    def invoke(fn, arrays, extra, *pos, **kw):
        f = getattr(pycold, fn)
        return f(extra[0], *arrays, *pos, **kw) if fn in ("sccd_update", "sccd_identify") else f(*arrays, *extra, *pos, **kw)

    def attempt(fn, arrays, extra, *pos, **kw):
        try:
            x = invoke(fn, arrays, extra, *pos, **kw)
            return list(x) if isinstance(x, tuple) and not hasattr(x, "_fields") else x
        except Exception as e:
            return e
    for fn, arrays, extra in calls:
        base = attempt(fn, arrays, extra)
        dom = D[fn]

        def rejected(kind, got, what, param=None):
            c.stats["kind:" + kind] += 1; c.stats["rejected:" + fn] += 1
            ok = c.expect(isinstance(got, Exception) and str(got) != "", f"{fn}:rejects:{kind}", lambda: f"{what} accepted: {str(got)[:200]}")
            if ok and param:
                c.expect(isinstance(got, (ValueError, TypeError, OverflowError, RuntimeError)), f"{fn}:names-problem", f"{what}: {got!r}")
        # invalid parameters
        for name in r.permutation(list(dom))[:4]:
            bad = dom[name][1]; v = bad[int(r.integers(0, len(bad)))]
            keep = c09.unplain(c09.freeze([list(arrays), list(extra)]))
            got = attempt(fn, arrays, extra, **{name: v})
            rejected("param", got, f"{name}={v!r}", name)
            c.expect(not c09.differs(keep, [list(arrays), list(extra)]), f"{fn}:arguments-unmodified")
        # invalid arrays
        if arrays:
            for _ in range(3):
                kind, B = bad_arrays(r, arrays, fn)
                if kind == "short" and len(B[0]) == 0:
                    continue
                got = attempt(fn, B, extra); rejected(kind, got, f"{kind} {[getattr(b, 'shape', type(b)) for b in B]}")
            if fn == "obcold_reconstruct":
                b = [br[:, None], None, br.tolist(), np.array(3), np.array(["x"], object)][int(r.integers(0, 5))]
                rejected("type", attempt(fn, arrays, (b,)), f"break_dates={b!r:.80}")
            if fn == "cold_detect":
                lo, hi = int(px.d[0]), int(px.d[-1])
                v = [dict(starting_date=lo + 1), dict(starting_date=hi + 9999)] + ([dict(n_cm=(hi - lo) // 30, cm_output_interval=30)] if hi - lo >= 30 else [])
                v = v[int(r.integers(0, len(v)))]
                rejected("slots", attempt(fn, arrays, extra, b_output_cm=True, **v), str(v))
            rejected("type", attempt(fn, arrays[:-1], extra), "missing argument")
            rejected("type", attempt(fn, arrays, extra, no_such_option=1), "unknown option")
        if fn == "sccd_update":
            v = [None, 5, tuple(s), s._replace(nrt_mode=int(r.choice([-1, 6, 7, 8, 9, 10, 13, 14, 15, 22, 21, 99])), ), s._replace(nrt_mode="x"), s._replace(min_rmse=None)]
            v = v[int(r.integers(0, len(v)))]
            rejected("state", attempt(fn, arrays, (v,)), f"state {str(v)[:60]}")
        # a rejected call leaves no trace
        d = c09.differs(base if not isinstance(base, Exception) else str(base), (lambda x: x if not isinstance(x, Exception) else str(x))(attempt(fn, arrays, extra)))
        c.stats["unaffected"] += 1
        if c.expect(not d, f"{fn}:unaffected-by-rejected-call", d):
            c.nontrivial = True
        # boundary values are accepted: a failure may only come from the data
        for name in r.permutation(list(dom))[:3]:
            vals = OKV[name]; v = vals[int(r.integers(0, len(vals)))]
            if fn.startswith("sccd") and name == "conse" and v > 8:
                continue
            got = attempt(fn, arrays, extra, **{name: v})
            c.stats["accepted"] += 1
            c.expect(not isinstance(got, Exception) or (type(got) in (RuntimeError, Exception) and not ("must be" in str(got))), f"{fn}:accepts-boundary", f"{name}={v!r}: {got!r:.200}")
        # documented defaults
        names = list(dom)
        k = int(r.integers(1, len(names) + 1))
        forms = [((), {n: dom[n][0] for n in names}), (tuple(dom[n][0] for n in names[:k]), {}), (tuple(dom[n][0] for n in names), {}),
                 (tuple(dom[n][0] for n in names[:k]), {n: dom[n][0] for n in names[k:] if r.random() < .5}), ((), {n: dom[n][0] for n in names if r.random() < .5})]
        pos, kw = forms[int(r.integers(0, len(forms)))]
        got = attempt(fn, arrays, extra, *pos, **kw)
        c.stats["defaults"] += 1
        d = c09.differs(*[x if not isinstance(x, Exception) else str(x) for x in (base, got)])
        c.expect(not d, f"{fn}:documented-defaults", lambda: f"{d} with {pos} {kw}")
