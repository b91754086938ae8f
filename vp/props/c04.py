META = dict(technique='runtime differential monitor: reconstructed records compared with an independent reference model',
            level_note='Holds on the explored pixels and break lists. Trusts the reference model in ref/.',
            N=dict(quick=60000, thorough=300000), kinds=["plain"], ref=True, level="exploration", cpu=60,
            rule="one case = one pixel series x one break list (none, zeros, the detector's own breaks, random, observation dates, adjacent, "
                 "outside, unsorted) run through obcold_reconstruct and the reference model; non-trivial = the model returned a segment",
            must_observe=["breaks:0", "breaks:1", "breaks:2+", "segments", "fallback", "exception-expected", "unsorted"],
            assumptions=["a break closer than a year to the previously accepted one is not accepted",
                         "a discrete disagreement whose closest decision margin is below 1e-3 is counted inconclusive"])
import numpy as np
import pycold
from .. import gen, refm, cmp


def breaks(r, px, p):
    k = r.integers(0, 8)
    lo, hi = int(px.d[0]), int(px.d[-1])
    if k == 0:
        b = np.zeros(int(r.integers(0, 4)), int)
    elif k in (1, 2):
        try:
            q = pycold.cold_detect(*px.args(), **p)["t_break"]
            b = q[q > 0].astype(int)
        except Exception:
            b = np.array([], int)
        if k == 2 and len(b):
            b = b + r.integers(-40, 40, len(b))
    elif k == 3:
        b = r.choice(px.d, int(r.integers(1, 5)))
    elif k == 4:
        b = r.integers(lo - 800, hi + 800, int(r.integers(1, 7)))
    elif k == 5:       # adjacent
        b = int(r.integers(lo, hi + 1)) + np.cumsum(r.choice([0, 1, 30, 364, 365, 366, 367, 730], int(r.integers(2, 6))))
    elif k == 6:       # midway between observations
        i = int(r.integers(0, max(1, px.n - 1)))
        b = np.array([(int(px.d[i]) + int(px.d[min(i + 1, px.n - 1)])) // 2 + int(r.integers(0, 2))])
    else:              # near the ends
        b = np.array([lo + int(r.integers(-5, 60)), hi + int(r.integers(-60, 5))])
    if r.random() < .4 and len(b):
        b = np.concatenate([b, np.zeros(int(r.integers(1, 4)), int)])
    if r.random() < .3:
        b = r.permutation(b)
    return b.astype(np.int64)


def case(c):
    r = c.rng
    px = gen.pixel(r); p = gen.cold_params(r)
    if px.n == 0:
        return
    q = dict(conse=p["conse"], pos=p["pos"], b_c2=p["b_c2"])
    br = breaks(r, px, p)
    c.data = dict(px=px, params=q, breaks=br); c.desc = dict(px.desc(), params=q, breaks=br.tolist())
    c.add_sig(px.d, px.b, px.qa, q, br)
    ref, margin, where = refm.recon(px, br, **q)
    kw = {k: v for k, v in q.items() if not (v == dict(conse=6, pos=1, b_c2=False)[k] and r.random() < .5)}
    keep = br.copy()
    try:
        real = pycold.obcold_reconstruct(*px.args(), br, **kw)
    except Exception as e:
        if isinstance(ref, int) or len(ref) == 0:
            c.stats["exception-expected"] += 1; return
        if margin < cmp.TOL:
            c.soft("near-threshold:" + where); return
        c.fail("unexpected-exception", f"{e!r}; expected {ref['v'].tolist()}"); return
    c.expect(np.array_equal(br, keep), "break-list-unmodified", f"{keep} became {br}")
    if isinstance(ref, int) or len(ref) == 0:
        if not isinstance(ref, int) and margin < cmp.TOL:
            c.soft("near-threshold:" + where); return
        c.fail("result-where-none-expected", f"real={cmp.ints(real).tolist()}"); return
    c.nontrivial = True
    nb = int((ref["v"][:, 2] > 0).sum())
    c.stats["breaks:%s" % (nb if nb < 2 else "2+")] += 1
    c.stats["segments"] += len(ref); c.stats["fallback"] += int(ref["v"][0, 5] in (44, 54))
    c.stats["unsorted"] += int((np.diff(br) < 0).any())
    cmp.records(c, real, ref, margin, where, lambda: refm.recon(px, br, **q)[0])
