META = dict(technique="runtime differential monitor: the state and segments of retrospective stochastic detection compared with an independent reference model",
            level_note="Holds on the explored pixels. Trusts the reference model in ref/.",
            N=dict(quick=18000, thorough=200000), kinds=["plain"], ref=True, level="exploration", cpu=60,
            rule="one case = one pixel series x one parameter set run through sccd_detect (a third of them also with pinpoint output) and the reference model; "
                 "non-trivial = the model closed a segment or keeps a model or a queue",
            must_observe=["mode:0", "mode:1", "mode:3", "mode:4", "mode:12", "segments:1", "segments:2+", "rejected", "pinpoint", "pinpoints", "tail-anomaly", "re-initialised", "conse:1", "conse:8"],
            assumptions=["a discrete disagreement whose closest decision margin is below 1e-3 is counted inconclusive", "dates 1982-2071 and 16-bit band values"])
import numpy as np
import pycold
from .. import cmp, flow, refm


def segments(c, real, px):
    """what holds for any answer, independently of the model"""
    s = real.rec_cg
    for i in range(len(s)):
        c.expect(int(s[i]["t_start"]) < int(s[i]["t_break"]), "segment:order", f"{s[i]['t_start']} {s[i]['t_break']}")
        c.expect(int(s[i]["t_break"]) in px.d, "segment:break-not-an-observation", str(s[i]["t_break"]))
        if i:
            c.expect(int(s[i]["t_start"]) >= int(s[i - 1]["t_break"]), "segment:overlap", f"{s[i - 1]['t_break']} {s[i]['t_start']}")
    c.expect(np.isfinite(np.asarray(s["coefs"], float)).all() if len(s) else True, "segment:not-finite", "")


def case(c):
    r = c.rng
    px = flow.pixel(r); p = flow.params(r)
    if px.n == 0:
        return
    if px.n > 30 and r.random() < .06:          # few observations, often all snow
        px = px.sub(np.unique(np.r_[0, r.integers(0, px.n, int(r.integers(2, 30))), px.n - 1]))
        if r.random() < .6:
            px.qa[:] = 3
    if r.random() < .1:
        p["conse"] = int(r.choice([1, 2, 8]))
    c.data = dict(px=px, params=p); c.desc = dict(px.desc(), params=p); c.add_sig(px.d, px.b, px.qa, p)
    for pin in (False, True) if r.random() < .33 else (False,):
        run = lambda: refm.sccd(px, pin=pin, **p)
        ref, margin, where = run()
        bad = isinstance(ref, int) or int(px.d[-1]) - int(px.d[0]) < 365.25
        try:
            out = pycold.sccd_detect(*px.args(), b_pinpoint=pin, **p) if pin else pycold.sccd_detect(*px.args(), **p)
        except RuntimeError as e:
            c.stats["rejected"] += bad
            c.expect(bad, "unexpected-exception", f"{e}")
            return
        if bad:
            c.fail("accepted-invalid", f"expected rejection, {ref if isinstance(ref, int) else 'span below a year'}"); return
        real, pins = out if pin else (out, None)
        c.stats["mode:%d" % ref["mode"]] += 1; c.stats["conse:%d" % p["conse"]] += 1; c.stats["pinpoint"] += pin; c.stats["pinpoints"] += len(ref["pins"])
        k = len(ref["segs"])
        c.stats["segments:%s" % (k if k < 2 else "2+")] += 1
        if len(ref["model"]):
            c.stats["tail-anomaly"] += int(ref["model"][0]["last"]) > 0; c.stats["re-initialised"] += k > 0
        c.nontrivial |= ref["mode"] != 0
        c.expect(int(real.position) == p["pos"], "position", f"{real.position} {p['pos']}")
        if pin:
            c.expect(int(pins.position) == p["pos"], "pinpoint:position", f"{pins.position} {p['pos']}")
        segments(c, real, px)
        cmp.states(c, cmp.real_state(real, pins), ref, margin, where, lambda: run()[0], "pinpoint" if pin else "detect")
