"""Judging records of the real code against the reference model."""
import numpy as np
FIELDS = ("t_start", "t_end", "t_break", "pos", "num_obs", "category", "change_prob")
TOL = 1e-3            # discrete decisions closer than this (relatively) to flipping are not judged


def ints(real):
    return np.stack([real[f].astype(np.int64) for f in FIELDS], 1) if len(real) else np.zeros((0, 7), np.int64)


def curve(coefs, days):
    w = 2 * np.pi / 365.25
    c = np.asarray(coefs, float)
    d = np.asarray(days, float)[:, None]
    return c[:, 0] + c[:, 1] * d / 10000 + sum(c[:, 2 * h] * np.cos(h * w * d) + c[:, 2 * h + 1] * np.sin(h * w * d) for h in (1, 2, 3))


def close(a, b, atol, rtol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    both = np.isnan(a) & np.isnan(b) | (a == b)
    with np.errstate(invalid="ignore", over="ignore"):
        return bool(np.all(both | (np.abs(a - b) <= atol + rtol * np.abs(b))))


NVAR = 6


def records(c, real, ref, margin, where, rerun, what="record"):
    """c: lib.Ctx.  Discrete fields exactly, fitted values up to rounding.
    rerun() evaluates the model again; it is used under last-place noise only when something differs,
    to tell a wrong result from one that rounding decides."""
    shown = lambda: f"real={ints(real).tolist()} expected={ref['v'].tolist()} margin={margin:.2e}@{where}"
    ri, rv = ints(real), ref["v"]
    for f in FIELDS:
        c.stats["monitor:field:" + f] += len(ri)
    same = ri.shape == rv.shape and not (ri != rv).any()
    if same and all(np.array_equal(real[f], ref[f], equal_nan=True) for f in ("coefs", "rmse", "magnitude")):
        c.stats["bit-identical"] += 1
        return True
    if not same and margin < TOL:
        c.soft(f"near-threshold:{where}"); return False
    var = noisy(rerun)
    if any(isinstance(q, int) or len(q) != len(ref) or (q["v"] != rv).any() for q in var):
        c.soft("rounding-decides-discrete"); return False
    if not same:
        if len(ri) != len(rv):
            key = "segment-count"
        else:
            key = "+".join(f for k, f in enumerate(FIELDS) if (ri[:, k] != rv[:, k]).any())
        c.fail(f"{what}:{key}", shown()); return False
    ok = True
    for i, (a, b) in enumerate(zip(real, ref)):
        rm = np.nan_to_num(np.abs(np.asarray(b["rmse"], float)), posinf=0)
        days = np.linspace(int(a["t_start"]), max(int(a["t_end"]), int(a["t_start"]) + 1), 9)
        views = dict(rmse=lambda q: np.asarray(q["rmse"], float), magnitude=lambda q: np.asarray(q["magnitude"], float),
                     curve=lambda q: curve(q["coefs"], days), harmonics=lambda q: np.asarray(q["coefs"][:, 2:], float).T,
                     slope=lambda q: np.asarray(q["coefs"][:, 1], float) * (days[-1] - days[0]) / 10000)
        for n, view in views.items():
            c.stats["monitor:value:" + n] += 1
            x, y = view(a), view(b)
            with np.errstate(invalid="ignore", over="ignore"):
                spread = np.max([np.abs(view(q[i]) - y) for q in var], axis=0)
                tol = 0.05 + 1e-3 * rm + 1e-4 * np.abs(y) + 6 * np.nan_to_num(spread, nan=1e9)
                good = (np.isnan(x) & np.isnan(y)) | (x == y) | (np.abs(x - y) <= tol)
            if not good.all():
                c.fail(f"{what}:{n}", f"{n}: real={np.round(x, 4).tolist()} expected={np.round(y, 4).tolist()} tolerance={np.round(tol, 4).tolist()} "
                       f"segment {int(a['t_start'])}-{int(a['t_end'])} margin={margin:.2e}@{where}")
                ok = False
                break
    return ok


def noisy(rerun):
    from . import refm
    out = []
    for k in range(1, NVAR + 1):
        with refm.variant(k):
            out.append(rerun())
    return out


# --- monitor states -------------------------------------------------------------------------------------------------------------------

EXACT = dict(model=("t_start", "num_obs", "obs", "date", "last"), segs=("t_start", "t_break", "num_obs"), pins=("t_break", "obs", "date"), queue=("y", "date"))
WHOLE = dict(model=("norm", "angle"), pins=("norm", "angle"))      # whole numbers made from fitted values


def curve6(coefs, days):
    w = 2 * np.pi / 365.25
    c = np.asarray(coefs, float); d = np.asarray(days, float)[:, None]
    return c[:, 0] + c[:, 1] * d / 10000 + sum(c[:, 2 * h] * np.cos(h * w * d) + c[:, 2 * h + 1] * np.sin(h * w * d) for h in (1, 2))


def real_state(pack, pins=None):
    from . import refm
    s = refm.state(pack)
    s["segs"] = refm.conv(pack.rec_cg, refm.SEG, refm.seg_dt) if len(pack.rec_cg) else np.zeros(0, refm.seg_dt)
    p = np.asarray(pins.rec_cg_pinpoint) if pins is not None else np.zeros(0)
    s["pins"] = refm.conv(p, refm.PIN, refm.pin_dt) if len(p) else np.zeros(0, refm.pin_dt)
    return s


def discrete(a, b):
    """names of the discrete parts in which two states differ"""
    out = [n for n in ("mode", "nseg") if a[n] != b[n]] + ["min_rmse"] * (not np.array_equal(a["floor"], b["floor"]))
    for part, fields in EXACT.items():
        if len(a[part]) != len(b[part]):
            out.append("number of " + part)
        else:
            out += [f"{part}.{f}" for f in fields if not np.array_equal(a[part][f], b[part][f])]
    return out


def fitted(s):
    """name -> (values, scale) of everything computed from fits"""
    out = {}
    for part in ("model", "segs", "pins"):
        for i, x in enumerate(s[part]):
            t0 = int(x["t_start"]) + 723742 if part == "model" else int(x["t_start"]) if part == "segs" else int(x["t_break"]) - 700
            t1 = int(x["date"].max()) + 723742 if part == "model" else int(x["t_break"])
            days = np.linspace(t0, max(t1, t0 + 1), 7)
            co = x["coefs" if part != "model" else "coef"]
            rm = np.nan_to_num(np.asarray(x["rmse"], float) if part == "segs" else np.sqrt(np.maximum(np.asarray(x["H"], float), 0)) if part == "model" else np.zeros(6), posinf=0)
            k = f"{part}"
            out[k, i, "curve"] = curve6(co, days), rm
            out[k, i, "harmonics"] = np.asarray(co[:, 2:], float).T, rm
            out[k, i, "slope"] = np.asarray(co[:, 1], float) * (days[-1] - days[0]) / 10000, rm
            if part == "segs":
                out[k, i, "rmse"] = np.asarray(x["rmse"], float), rm
                out[k, i, "magnitude"] = np.asarray(x["magnitude"], float), rm
            if part == "model":
                out[k, i, "H"] = np.asarray(x["H"], float), rm
                out[k, i, "rmse_sum"] = np.asarray(x["sum"], float), 20 + np.asarray(x["sum"], float)
                out[k, i, "covariance"] = np.asarray(x["cov"], float).T, np.zeros(6)
            if part != "segs":
                for f in WHOLE[part]:
                    out[k, i, f] = np.atleast_1d(np.asarray(x[f], float)), np.full(1, 30.) + np.abs(np.atleast_1d(np.asarray(x[f], float)))
    return out


def states(c, a, b, margin, where, rerun, what):
    """a: real state, b: expected state (both in the model's form); rerun() evaluates the model again (under noise)"""
    diff = discrete(a, b)
    c.stats["monitor:states"] += 1
    shown = lambda: f"{what}: differs in {diff}; real mode={a['mode']} segs={a['segs'][['t_start', 't_break', 'num_obs']].tolist()} queue={len(a['queue'])}; expected mode={b['mode']} " \
                    f"segs={b['segs'][['t_start', 't_break', 'num_obs']].tolist()} queue={len(b['queue'])}; margin={margin:.2e}@{where}"
    if not diff and all(np.array_equal(a[p][f], b[p][f], equal_nan=a[p][f].dtype.kind == "f") for p in ("model", "segs", "pins") for f in a[p].dtype.names):
        c.stats["bit-identical"] += 1
        return True
    if diff and margin < TOL:
        c.soft("near-threshold:" + where); return False
    var = noisy(rerun)
    if any(isinstance(q, int) or discrete(q, b) for q in var):
        c.soft("rounding-decides-discrete"); return False
    if diff:
        c.fail(f"{what}:" + "+".join(diff[:4]), shown()); return False
    x, y, vs = fitted(a), fitted(b), [fitted(q) for q in var]
    for k, (v, rm) in y.items():
        c.stats["monitor:value:" + k[2]] += 1
        u = x[k][0]
        with np.errstate(invalid="ignore", over="ignore"):
            spread = np.max([np.abs(q[k][0] - v) for q in vs], axis=0)
            tol = (2.1 if k[2] in WHOLE["model"] else 0.05) + 1e-3 * rm + 1e-4 * np.abs(v) + 6 * np.nan_to_num(spread, nan=1e9)
            good = (np.isnan(u) & np.isnan(v)) | (u == v) | (np.abs(u - v) <= tol)
        if not good.all():
            c.fail(f"{what}:{k[0]}.{k[2]}", f"{k}: real={np.round(u, 4).tolist()} expected={np.round(v, 4).tolist()} tolerance={np.round(tol, 4).tolist()} margin={margin:.2e}@{where}")
            return False
    return True
