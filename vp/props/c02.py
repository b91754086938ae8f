META = dict(technique='runtime differential monitor: every record compared with an independent reference model of COLD',
            level_note='Holds on the explored pixels and parameters (seeded workload, boundary and hostile families). Trusts the reference model in ref/ (written from the published algorithm) and the same GSL/glmnet-equivalent lasso definition; decisions closer to a threshold than rounding are inconclusive.',
            N=dict(quick=40000, thorough=400000), kinds=["plain"], ref=True, level="exploration", cpu=60,
            rule="one case = one generated pixel series with one parameter set run through cold_detect and through the independent "
                 "reference model; non-trivial = the model returned at least one segment; distinct by series+parameters digest",
            must_observe=["category:4", "category:6", "category:8", "category:14", "category:24", "category:44", "category:54",
                          "breaks", "prob:partial", "exception-expected"],
            assumptions=["a discrete disagreement whose closest decision margin is below 1e-3 is counted inconclusive",
                         "the harmonic regression and robust regression algorithms are re-implemented from their published form; GSL is trusted"])
import numpy as np
import pycold
from .. import gen, refm, cmp

DEFAULTS = dict(t_cg=15.0863, pos=1, conse=6, b_c2=False, gap_days=365.25)


def case(c):
    px = gen.pixel(c.rng); p = gen.cold_params(c.rng)
    if c.rng.random() < .25:
        p = dict(DEFAULTS)
    kw = {k: v for k, v in p.items() if not (v == DEFAULTS[k] and c.rng.random() < .5)}
    c.data = dict(px=px, params=p); c.desc = dict(px.desc(), params=p)
    c.add_sig(px.d, px.b, px.qa, p)
    ref, margin, where, _ = refm.cold(px, **p)
    try:
        real = pycold.cold_detect(*px.args(), **kw)
    except Exception as e:
        if isinstance(ref, int) or len(ref) == 0:
            c.stats["exception-expected"] += 1; return
        if margin < cmp.TOL:
            c.soft("near-threshold:" + where); return
        c.fail("unexpected-exception", f"{e!r}; expected {ref['v'].tolist()}"); return
    if isinstance(ref, int) or len(ref) == 0:
        if not isinstance(ref, int) and margin < cmp.TOL:
            c.soft("near-threshold:" + where); return
        c.fail("result-where-none-expected", f"real={cmp.ints(real).tolist()} model={ref if isinstance(ref, int) else 'no segment'}"); return
    c.nontrivial = True
    c.stats["family:" + px.tag.split("/")[0]] += 1
    for v in ref["v"]:
        c.stats["category:%d" % v[5]] += 1
        c.stats["breaks"] += int(v[6] == 100)
        c.stats["prob:partial"] += int(0 < v[6] < 100)
    cmp.records(c, real, ref, margin, where, lambda: refm.cold(px, **p)[0])
