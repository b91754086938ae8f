META = dict(technique="runtime monitor: the published decision rule recomputed from every monitored state and compared with the reported date; monotonicity over criteria; before/after state comparison",
            level_note="Holds on the explored states: states the monitor itself reaches near disturbances, and edited states on the edges of every criterion.",
            N=dict(quick=10000, thorough=50000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one monitoring history with a change near its end (loss, greening, outlier or none); identification is asked of each state, and of states with edited change "
                 "metrics, with several criteria including those exactly on the state's own metrics; non-trivial = a standard monitoring state was judged",
            must_observe=["detected", "none:mode", "none:conse", "none:norm", "none:angle", "none:greening", "window:short", "tail:part", "tail:full", "edge:conse", "edge:norm", "edge:angle",
                          "mode:0", "mode:1", "mode:3", "mode:4", "mode:5", "mode:11", "mode:12", "transformed", "untransformed", "monotone-pairs", "edited"],
            assumptions=["a median within 0.01 of the greening limits decides neither way"])
import pickle
import numpy as np
import pycold
from .. import gen, flow

W = 2 * np.pi / 365.25


def basis(x):
    return np.array([1, x / 10000, np.cos(W * x), np.sin(W * x), np.cos(2 * W * x), np.sin(2 * W * x)])


def rule(s, q):
    """(date or 0, why); date None when a value lies too near a limit"""
    if s.nrt_mode in (3, 4) or s.nrt_mode // 10 == 1 or s.nrt_mode == 0 or len(s.nrt_model) == 0:
        return 0, "mode"
    m = s.nrt_model[0]
    k = int(m["conse_last"])
    if k < q["dist_conse"]:
        return 0, "conse"
    if not int(m["norm_cm"]) > q["t_cg_scale100"]:
        return 0, "norm"
    if not int(m["cm_angle"]) < q["t_angle_scale100"]:
        return 0, "angle"
    x = [int(v) + flow.L4 for v in m["obs_date_since1982"] if v]
    tail = range(len(x) - k, len(x))
    t = q["t_cg_singleband_scale1000"]
    r = [np.median([float(m["obs"][b][j]) - float(np.dot(m["nrt_coefs"][b].astype(float), basis(x[j]))) for j in tail]) for b in (2, 3, 4)]
    near = min(abs(r[0] + t), abs(r[1] - t), abs(r[2] + t)) < .01
    green = r[0] < -t and r[1] > t and r[2] < -t
    if near:
        return None, "near"
    return (0, "greening") if green else (x[len(x) - k], "detected")


def end_change(r):
    """a pixel whose last few usable observations change"""
    px = gen.series(r, n=int(r.integers(60, 260)), breaks=0, cloud=float(r.choice([0, .3])), snow=0, noise=float(r.choice([20, 50])))
    kind = r.choice(["loss", "green", "mixed"])
    k = int(r.integers(1, 10)); k = min(k, px.n - 1)
    v = np.array(dict(loss=[100, 150, 400, -900, 600, 500], green=[-100, -150, -350, 1200, -500, -400], mixed=r.normal(0, 500, 6))[kind]) * r.uniform(.3, 2)
    px.b[:6, -k:] += np.rint(v).astype(int)[:, None]
    px.b[:6] = np.clip(px.b[:6], 1, 9999)
    px.tag = "end-" + kind
    return px


def criteria(r, s):
    q = dict(dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([200., 924., 1508.6, 2580.])), t_cg_singleband_scale1000=float(r.choice([-200., -200., 0., -500., 100.])),
             t_angle_scale100=int(r.choice([4500, 2000, 9000, 17999])), transform_mode=bool(r.random() < .6))
    if len(s.nrt_model):
        m = s.nrt_model[0]
        if r.random() < .35 and 1 <= m["conse_last"] <= 6:
            q["dist_conse"] = int(m["conse_last"])
        if r.random() < .2 and m["norm_cm"] > 1:
            q["t_cg_scale100"] = float(int(m["norm_cm"]) - int(r.integers(0, 2)))
        if r.random() < .2 and 1 <= m["cm_angle"] < 17998:
            q["t_angle_scale100"] = int(m["cm_angle"]) + int(r.integers(0, 2))
    return q


def freeze(s):
    return pickle.dumps([np.asarray(x) for x in s])


def judge(c, s):
    q = criteria(c.rng, s)
    before = freeze(s)
    s2, got = pycold.sccd_identify(s, **q)
    want, why = rule(s, q)
    c.stats["mode:%d" % s.nrt_mode] += 1
    c.stats["detected" if why == "detected" else "none:" + why] += 1
    if len(s.nrt_model):
        m = s.nrt_model[0]; nw = int((m["obs_date_since1982"] != 0).sum())
        c.nontrivial |= s.nrt_mode == 1
        if why in ("detected", "greening"):
            c.stats["window:short" if nw < 6 else "window:six" if nw == 6 else "window:long"] += 1
            c.stats["tail:full" if nw == m["conse_last"] else "tail:part"] += 1
        if why != "mode":
            c.stats["edge:conse"] += m["conse_last"] in (q["dist_conse"], q["dist_conse"] - 1)
            c.stats["edge:norm"] += m["norm_cm"] in (q["t_cg_scale100"], q["t_cg_scale100"] + 1)
            c.stats["edge:angle"] += m["cm_angle"] in (q["t_angle_scale100"], q["t_angle_scale100"] - 1)
    info = lambda: f"mode {s.nrt_mode} criteria {q} got {got} expected {want} ({why}) state {flow.dump(s)['nrt_model']}"
    if want is not None:
        c.expect(int(got) == want, "date", info)
    c.expect(freeze(s) == before, "argument-unmodified", info)
    hit = int(got) != 0
    mode = 11 if hit and q["transform_mode"] and s.nrt_mode == 1 else s.nrt_mode
    c.stats["transformed" if mode != s.nrt_mode else "untransformed"] += hit
    c.expect(s2.nrt_mode == mode, "mode-after", lambda: f"{s2.nrt_mode} expected {mode}; " + info())
    c.expect(not flow.diff(s, s2, skip=("nrt_mode",)), "only-the-mode", info)
    if mode == 11:
        c.expect(pycold.sccd_identify(s2, **q)[1] == 0, "reported-once", info)
    # tightening never detects more, and a detection's date does not depend on how tight the criteria are
    t = dict(q)
    for f, step in (("dist_conse", [0, 1, 2]), ("t_cg_scale100", [0, 1., 300.]), ("t_angle_scale100", [0, -1, -1000]), ("t_cg_singleband_scale1000", [0, -1., -300.])):
        if c.rng.random() < .5:
            t[f] = t[f] + step[c.rng.integers(0, 3)]
    t["dist_conse"] = min(6, t["dist_conse"]); t["t_angle_scale100"] = max(1, t["t_angle_scale100"])
    _, tight = pycold.sccd_identify(s, **t)
    c.stats["monotone-pairs"] += 1; c.stats["monotone-detected"] += int(tight) != 0
    c.expect(int(tight) in (0, int(got)) and (hit or not tight), "monotone", lambda: f"tightened {t} gives {tight}; " + info())
    return s2


def case(c):
    r = c.rng
    px = end_change(r) if r.random() < .7 else flow.pixel(r)
    k = flow.params(r)
    if px.n == 0:
        return
    c.add_sig(px.d, px.b, px.qa, k)
    cut = int(r.choice([px.n, max(1, px.n - int(r.integers(0, 14))), max(1, int(px.n * r.random()))]))
    c.desc = dict(px.desc(), params=k, first=cut); c.data = dict(px=px, params=k, first=cut)
    try:
        s = pycold.sccd_detect(*px.sub(slice(0, cut)).args(), **k)
    except RuntimeError:
        c.stats["short"] += 1
        return
    states = [s]
    for hi in flow.cuts(r, px.n, cut, int(r.choice([1, 3, 8]))):
        s = pycold.sccd_update(s, *px.sub(slice(cut, hi)).args(), **k); cut = hi
        states.append(s)
    for s in states[-4:]:
        s2 = judge(c, s)
        judge(c, s2)
        if len(s.nrt_model) and s.nrt_mode in (1, 5):
            for _ in range(2):              # edited metrics: every combination of tail length, magnitude, direction
                m = s.nrt_model.copy(); nw = int((m[0]["obs_date_since1982"] != 0).sum())
                if nw == 0:
                    continue
                m[0]["conse_last"] = r.integers(0, nw + 1)
                m[0]["norm_cm"] = r.choice([0, 923, 924, 925, 1508, 1509, 5000, 32767])
                m[0]["cm_angle"] = r.choice([0, 1999, 2000, 4499, 4500, 4501, 12000])
                if r.random() < .5:
                    m[0]["obs"][:, :nw] += (np.array([-1, -1, -1, 2, -1, -1])[:, None] * int(r.choice([-600, 600, 300]))).astype(np.int16)
                c.stats["edited"] += 1
                judge(c, s._replace(nrt_model=m, nrt_mode=int(r.choice([s.nrt_mode, 1, 5]))))
