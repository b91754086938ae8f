META = dict(technique="runtime monitor: invariants asserted on every returned record and monitoring state",
            level_note="Holds on every record and state observed over the explored pixels, break lists and update histories; the invariants are evaluated independently of the algorithm.",
            N=dict(quick=14000, thorough=150000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one pixel run through detection, reconstruction, stochastic detection and a chain of updates; every returned record and state is checked "
                 "against the well-formedness invariants; non-trivial = at least one record or a non-void state came back",
            must_observe=["cold-records", "recon-records", "sccd-records", "update-records", "category:14", "category:24", "category:4", "category:44", "category:54",
                          "mode:1", "mode:3", "mode:4", "mode:5", "mode:12", "mode:11", "cold-breaks", "sccd-breaks"],
            assumptions=["stochastic detection is used within the range of its compact dates (1982-2071) and 16-bit band values"])
import numpy as np
import pycold
from .. import gen, flow
from . import c04
CATS = {4, 6, 8, 14, 24, 44, 54}


def cold_records(c, who, rec, px, p, dates=None):
    E = lambda ok, key, det="": c.expect(ok, f"{who}:{key}", lambda: f"{det} records={[[int(r[k]) for k in ('t_start', 't_end', 't_break', 'num_obs', 'category', 'change_prob')] for r in rec]}")
    d = set(px.d.tolist())
    E(len(rec) >= 1, "at-least-one-record")
    usable = flow.usable(px, p.get("b_c2", False)); rng_ok = flow.inrange(px, p.get("b_c2", False))
    for i, r in enumerate(rec):
        s, e, b = int(r["t_start"]), int(r["t_end"]), int(r["t_break"])
        cat = int(r["category"])
        E(s <= e, "start<=end", f"record {i}")
        E(s in d and e in d, "dates-are-input-dates", f"record {i}")
        E(cat in CATS, "category-documented", f"record {i}: {cat}")
        E(0 <= int(r["change_prob"]) <= 100, "probability-range", f"record {i}")
        E(int(r["pos"]) == p.get("pos", 1), "position-echoed", f"record {i}: {int(r['pos'])} for {p.get('pos', 1)}")
        nxt = int(rec[i + 1]["t_start"]) if i + 1 < len(rec) else None
        if nxt is not None:
            E(e < nxt, "ordered-and-disjoint", f"record {i}")
        if b:
            E(e < b, "break-after-end", f"record {i}")
            if who == "cold":
                E(nxt is None or b <= nxt, "break-before-next-start", f"record {i}")
                E(b in d, "break-is-input-date", f"record {i}")
                c.stats["cold-breaks"] += 1
            else:
                E(nxt is None or b <= nxt, "break-before-next-start", f"record {i}")
            if int(r["change_prob"]) not in (0, 100) and i + 1 < len(rec):
                E(False, "confirmed-break-prob-100", f"record {i}")
        else:
            E(int(r["change_prob"]) < 100 and i == len(rec) - 1 if who == "cold" else True, "no-break-only-last", f"record {i}")
        for f in ("coefs", "rmse", "magnitude"):
            E(np.isfinite(r[f]).all(), f + "-finite", f"record {i}: {np.asarray(r[f]).ravel().tolist()}")
        E((r["rmse"] >= 0).all(), "rmse-non-negative", f"record {i}: {r['rmse']}")
        m = (px.d >= s) & (px.d <= e)
        if cat == 54:
            n = int((m & ((px.qa == 3) | (px.qa < 2))).sum())
        elif cat == 44:
            n = len(set(px.d[m & rng_ok].tolist()))
        else:
            n = len(set(px.d[m & usable].tolist()))
        E(1 <= int(r["num_obs"]) <= n, "num_obs<=usable-observations", f"record {i}: {int(r['num_obs'])} of {n}")
        c.stats["category:%d" % cat] += 1
    c.stats[who + "-records"] += len(rec)


def state(c, who, s, px, p, first=None):
    """px: every observation given so far"""
    E = lambda ok, key, det="": c.expect(ok, f"{who}:{key}", lambda: f"{det} mode={s.nrt_mode} rec={[[int(r[k]) for k in ('t_start', 't_break', 'num_obs')] for r in s.rec_cg]}")
    lo, hi = (int(px.d[0]), int(px.d[-1])) if px.n else (0, 0)
    d = set(px.d.tolist())
    c.stats["mode:%d" % s.nrt_mode] += 1
    E(s.position == p.get("pos", 1), "position-echoed")
    E(s.nrt_mode in (0, 1, 3, 4, 5, 11, 12), "mode-documented")
    E(len(s.min_rmse) == 6 and s.min_rmse.dtype == np.int16 and (s.min_rmse >= 0).all(), "min_rmse", f"{s.min_rmse}")
    last = None
    for i, r in enumerate(s.rec_cg):
        a, b = int(r["t_start"]), int(r["t_break"])
        E(a < b, "start<break", f"record {i}")
        E(a in d and b in d, "dates-are-input-dates", f"record {i}")
        E(last is None or last <= a, "ordered-and-disjoint", f"record {i}")
        last = b
        for f in ("coefs", "rmse", "magnitude"):
            E(np.isfinite(r[f]).all(), f + "-finite", f"record {i}")
        E((r["rmse"] >= 0).all(), "rmse-non-negative", f"record {i}")
        n = len(set(px.d[flow.usable(px, p.get("b_c2", False)) & (px.d >= a) & (px.d <= b)].tolist()))
        E(0 <= int(r["num_obs"]) <= n, "num_obs<=usable-observations", f"record {i}: {int(r['num_obs'])} of {n}")
        c.stats["sccd-breaks"] += 1
    c.stats[who + "-records"] += len(s.rec_cg)
    has_model, has_queue = s.nrt_mode % 10 in (1, 3, 5), s.nrt_mode % 10 in (2, 4, 5)
    E((len(s.nrt_model) == 1) == has_model, "model-iff-monitoring", f"{len(s.nrt_model)}")
    E((len(s.nrt_queue) > 0) <= has_queue, "queue-only-in-queue-modes", f"{len(s.nrt_queue)}")
    if has_queue:
        q = np.asarray(s.nrt_queue["clrx_since1982"]).astype(int) + flow.L4 if len(s.nrt_queue) else np.array([], int)
        E(len(q) <= 240, "queue-capacity")
        E((np.diff(q) > 0).all() if s.nrt_mode != 4 else (np.diff(q) >= 0).all(), "queue-in-date-order", f"{q.tolist()}")
        E(all(x in d for x in q.tolist()), "queue-dates-are-input-dates")
        if len(q) and last is not None and s.nrt_mode != 4:
            E(q[0] >= last, "queue-after-last-break", f"{q[0]} {last}")
    if has_model:
        m = s.nrt_model[0]
        for f in ("covariance", "nrt_coefs", "H"):
            E(np.isfinite(m[f]).all(), f"model-{f}-finite", f"{np.asarray(m[f]).ravel().tolist()[:12]}")
        E((m["H"] >= 0).all(), "model-H-non-negative")
        E(int(m["num_obs"]) > 0, "model-num_obs-positive", f"{int(m['num_obs'])}")
        st = int(m["t_start_since1982"]) + flow.L4
        E(st in d, "model-start-is-input-date", f"{st}")
        od = m["obs_date_since1982"].astype(int)[:8 if s.nrt_mode == 3 else p.get("conse", 6)] + flow.L4
        E((np.diff(od) > 0).all() or s.nrt_mode == 3 and (np.diff(od) >= 0).all(), "model-window-in-date-order", f"{od.tolist()}")
        E(all(x in d for x in od.tolist()), "model-window-dates-are-input-dates", f"{od.tolist()}")
        if s.nrt_mode != 3:
            E(int(m["conse_last"]) <= p.get("conse", 6), "conse_last<=window", f"{int(m['conse_last'])}")
            E(int(m["conse_last"]) == 0 and int(m["norm_cm"]) == -9999 or int(m["norm_cm"]) >= 0 and 0 <= int(m["cm_angle"]) <= 18000, "change-metrics-range", f"{int(m['norm_cm'])} {int(m['cm_angle'])}")
            if s.nrt_mode in (1, 11) and last is not None:
                E(st >= last, "model-after-last-break", f"{st} {last}")


def case(c):
    r = c.rng
    px = flow.pixel(r); p = gen.cold_params(r)
    if px.n == 0:
        return
    c.data = dict(px=px, params=p); c.desc = dict(px.desc(), params=p)
    c.add_sig(px.d, px.b, px.qa, p)

    def call(who, f, *a, **k):
        try:
            return f(*a, **k)
        except (RuntimeError, Exception) as e:
            c.expect(type(e) in (RuntimeError, Exception) and str(e), f"{who}:explicit-error", repr(e)); c.stats[who + "-errors"] += 1
            return None
    rec = call("cold", pycold.cold_detect, *px.args(), **p)
    if rec is not None:
        c.nontrivial = True
        cold_records(c, "cold", rec, px, p)
    q = dict(conse=p["conse"], pos=p["pos"], b_c2=p["b_c2"])
    br = c04.breaks(c.rngs(3), px, p)
    rec = call("recon", pycold.obcold_reconstruct, *px.args(), br, **q)
    if rec is not None:
        c.nontrivial = True
        cold_records(c, "recon", rec, px, q)
    q = flow.params(r)
    cut = int(r.choice([px.n, max(1, int(px.n * r.random()))]))
    a = px.sub(slice(0, cut))
    s = call("sccd", pycold.sccd_detect, *a.args(), **q)
    if s is None:
        return
    state(c, "sccd", s, a, q)
    c.nontrivial |= s.nrt_mode != 0
    for hi in flow.cuts(r, px.n, cut):
        if s.nrt_mode != 0 and r.random() < .2:
            s, date = pycold.sccd_identify(s, dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([500., 1508.6])))
        s = call("update", pycold.sccd_update, s, *px.sub(slice(cut, hi)).args(), **q)
        if s is None:
            return
        cut = hi
        state(c, "update", s, px.sub(slice(0, hi)), q)
