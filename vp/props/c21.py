META = dict(technique="runtime monitor: returned models evaluated at the caller's own observations, compared with the returned errors and magnitudes and with the library's prediction functions",
            level_note="Holds on the explored pixels, dates and states. The harmonic model is written out independently; no reference detector is involved.",
            N=dict(quick=20000, thorough=50000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one pixel through reconstruction and detection (residuals of every regular segment against its error and magnitude) or one monitoring history (change magnitude of every state), "
                 "and predictions at random dates with 4, 6 and 8 coefficients; non-trivial = a segment or state was judged",
            must_observe=["rmse:4", "rmse:6", "rmse:8", "magnitude:reconstruct", "segments:detect", "cm:part", "cm:full", "cm:short-window", "predict:4", "predict:6", "predict:8",
                          "predict:int64", "predict:float64", "predict:vector-of-bands"],
            assumptions=["a segment of which observations were rejected as outliers is judged only by its magnitude"])
import numpy as np
import pycold
from pycold import utils
from .. import gen, flow
from ..props import c04, c12

W = 2 * np.pi / 365.25


def basis(x, k):
    x = np.atleast_1d(np.asarray(x, float))
    return np.array([np.ones_like(x), x / 10000, np.cos(W * x), np.sin(W * x), np.cos(2 * W * x), np.sin(2 * W * x), np.cos(3 * W * x), np.sin(3 * W * x)][:k])


def predictions(c, r, coefs):
    """coefs: (bands, 4..8)"""
    k = int(r.choice([n for n in (4, 6, 8) if n <= coefs.shape[1]])); t = [int, np.int64, np.int32, float, np.float64][r.integers(0, 5)]
    x = t(r.integers(1, 760000)); vec = r.random() < .5
    m = coefs[:, :k].astype(float) if vec else coefs[int(r.integers(0, len(coefs))), :k].astype(float)
    if r.random() < .3: m = r.normal(0, 1000, m.shape)
    want = m @ basis(x, k)[:, 0]
    got = utils.predict_ref(m, x) if k == 6 and r.random() < .5 else utils.predict_ref(m, x, num_coefficients=k)
    tol = 1e-9 * (np.abs(m).sum() * 100 + 1)
    c.expect(np.shape(got) == np.shape(want) and np.allclose(got, want, atol=tol, rtol=0), "prediction", f"date {x} ({t.__name__}), {k} coefficients {m.tolist()}: predicted {got}, the model gives {want}")
    row = utils.coefficient_matrix(x, k)
    c.expect(np.shape(row) == (k,) and np.allclose(row, basis(x, k)[:, 0], atol=1e-9, rtol=1e-12), "design-row", f"date {x}, {k} coefficients: {row}")
    c.stats["predict:%d" % k] += 1; c.stats["predict:" + t.__name__] += 1; c.stats["predict:vector-of-bands"] += vec


def residuals(rec, px, idx, band):
    k = int(rec["category"]) % 10
    x = px.d[idx]
    y = px.b[band][idx].astype(float)
    if band == 6: y = y * 10 - 27320
    return y - rec["coefs"][band].astype(float)[:k] @ basis(x, k)


def tol(rec, band):
    a = np.abs(rec["coefs"][band].astype(float))       # the code evaluates the curve in single precision
    return .05 + 2e-6 * max(a[0], 75 * a[1]) + 2e-3 * a[2:].sum()


def segments(c, px, recs, ok, what, conse):
    idx = np.flatnonzero(ok); idx = idx[np.unique(px.d[idx], return_index=True)[1]]
    d = px.d[idx]
    for q in recs:
        cat = int(q["category"])
        if cat // 10 != 0 or cat % 10 not in (4, 6, 8):
            continue
        bands = range(6)
        inside = idx[(d >= q["t_start"]) & (d <= q["t_end"])]
        after = idx[d >= q["t_break"]] if q["t_break"] else idx[:0]
        for b in bands:
            c.expect(np.all(q["coefs"][b][cat % 10:] == 0), what + ":unused-coefficients", f"segment of category {cat}, band {b}: {q['coefs'][b].tolist()}")
            if what == "reconstruct" and len(inside) == q["num_obs"] and len(inside) > cat % 10:
                e = residuals(q, px, inside, b); k = cat % 10
                want = np.sqrt((e ** 2).sum() / (len(e) - k))
                c.stats["rmse:%d" % k] += 1
                c.expect(abs(want - q["rmse"][b]) <= tol(q, b) + 1e-3 * want, what + ":rmse", f"band {b} of {q}: residual error {want}")
            # (detection takes its magnitudes while its window moves, with the model of that moment; C02 judges them)
            if what == "reconstruct" and q["change_prob"] == 100 and len(after):
                k = min(conse, len(after)); e = residuals(q, px, after[:k], b)
                c.stats["magnitude:" + what] += 1
                c.expect(abs(np.median(e) - q["magnitude"][b]) <= tol(q, b), what + ":magnitude", f"band {b}: magnitude {q['magnitude'][b]}, residuals after the break {e.round(2).tolist()}")
        c.stats["segments:" + what] += 1
        c.nontrivial = True


def case(c):
    r = c.rng
    if r.random() < .6:
        px = gen.pixel(r, ["series", "manybreaks", "temporary"]) if r.random() < .7 else gen.pixel(r)
        p = gen.cold_params(r); c.data = dict(px=px, params=p); c.desc = dict(px.desc(), params=p); c.add_sig(px.d, px.b, px.qa, p)
        if px.n == 0: return
        b_c2 = p["b_c2"]; ok = flow.usable(px, b_c2)
        try: br = c04.breaks(r, px, p)
        except Exception: br = np.zeros(1, np.int64)
        q = dict(conse=p["conse"], pos=p["pos"], b_c2=b_c2)
        for what, f in (("reconstruct", lambda: pycold.obcold_reconstruct(*px.args(), br, **q)), ("detect", lambda: pycold.cold_detect(*px.args(), **p))):
            try: recs = f()
            except Exception: continue
            if isinstance(recs, tuple): recs = recs[0]
            segments(c, px, recs, ok, what, p["conse"])
            if len(recs): predictions(c, r, recs[int(r.integers(0, len(recs)))]["coefs"])
    else:
        px = c12.end_change(r) if r.random() < .7 else flow.pixel(r)
        p = flow.params(r); c.data = dict(px=px, params=p); c.desc = dict(px.desc(), params=p); c.add_sig(px.d, px.b, px.qa, p)
        if px.n == 0 or px.d[0] < flow.L4 or px.d[-1] > flow.L4 + 32767 or np.abs(px.b).max() > 32767: return
        try: s = pycold.sccd_detect(*px.args(), **p)
        except Exception: return
        if len(s.nrt_model) and s.nrt_mode % 10 in (1, 5):
            m = s.nrt_model[0]; x = [int(v) + flow.L4 for v in m["obs_date_since1982"] if v]; n = len(x); k = int(m["conse_last"])
            predictions(c, r, m["nrt_coefs"])
            if 0 < k <= n:
                keep = c12.freeze(s); got = np.asarray(pycold.calculate_sccd_cm(s))
                want = np.array([np.median([float(m["obs"][b][j]) - float(m["nrt_coefs"][b].astype(float) @ basis(x[j], 6)[:, 0]) for j in range(n - k, n)]) for b in range(6)])
                c.expect(got.shape == (6,) and np.allclose(got, want, atol=.05, rtol=1e-5), "change-magnitude", f"state with {k} anomalies of {n}: {got}, residuals give {want}")
                c.expect(c12.freeze(s) == keep, "state-unmodified", "calculate_sccd_cm changed the state")
                c.stats["cm:full" if k == n else "cm:part"] += 1; c.stats["cm:short-window"] += n < 6; c.nontrivial = True
