META = dict(technique="runtime differential monitor: every change-magnitude slot compared with the reference model's evidence log",
            level_note='Holds on the explored pixels, start dates and intervals; records are additionally compared with a run without the output. Trusts the reference model in ref/.',
            N=dict(quick=36000, thorough=250000), kinds=["plain"], ref=True, level="exploration", cpu=60,
            rule="one case = one pixel series x detection parameters x slot layout (origin, interval, count, or their defaults) run through "
                 "cold_detect with and without the output, and through the reference model; non-trivial = at least one slot holds evidence",
            must_observe=["slots-filled", "slots-empty", "capped", "records-unchanged", "default-layout"],
            assumptions=["date disagreements between two windows whose evidence differs by less than one part in a thousand are not judged"])
import numpy as np
import pycold
from .. import gen, refm, cmp
from .c02 import DEFAULTS


def case(c):
    r = c.rng
    px = gen.pixel(r, ("series", "gap", "temporary", "manybreaks", "boundary", "flat", "saturated", "few", "snow")); p = gen.cold_params(r)
    if r.random() < .3:
        p = dict(DEFAULTS)
    if r.random() < .1:      # noiseless, strong change: evidence beyond the stored range
        px = gen.series(r, n=int(r.integers(100, 200)), breaks=0, noise=1, cloud=0, snow=0, tag="strong")
        cut = int(r.integers(40, px.n)); px.b[:6, cut:] = np.clip(px.b[:6, cut:] + r.integers(1500, 6000), 1, 9999)
    px = px.sub(np.flatnonzero(px.d <= 723742 + 32767))         # slot dates are 16-bit day counts since 1982
    if px.n == 0 or (np.diff(px.d) < 0).any():
        return
    first, last = int(px.d[0]), int(px.d[-1])
    kw = dict(p); default = r.random() < .25
    step = int(r.choice([1, 7, 16, 30, 60, 90, 365, 2000])); start = first - int(r.choice([0, 0, 1, 59, 60, 100, 1000]))
    if default:
        if r.random() < .5: step = 60
        else: kw["cm_output_interval"] = step
        if r.random() < .5: start = first
        else: kw["starting_date"] = start
    else:
        kw.update(cm_output_interval=step, starting_date=start)
    n = -(-(last - start + 1) // step) + 1
    if not default and r.random() < .5:
        n = (last - start) // step + 1 + int(r.choice([0, 0, 1, 5])); kw["n_cm"] = n
    c.data = dict(px=px, params=kw); c.desc = dict(px.desc(), params=kw, slots=n)
    c.add_sig(px.d, px.b, px.qa, kw)
    ref, margin, where, (v, d, rival) = refm.cold(px, cm=(start, n, step), **p)
    try:
        real = pycold.cold_detect(*px.args(), b_output_cm=True, **kw)
    except Exception as e:
        try:
            base = pycold.cold_detect(*px.args(), **p)
        except Exception:
            c.stats["exception-expected"] += 1; return
        c.fail("cm-output-fails", f"{e!r} although the call without the output returns {len(base)} segments"); return
    try:
        base = pycold.cold_detect(*px.args(), **p)
    except Exception as e:
        c.fail("only-with-cm-output", f"without the output: {e!r}"); return
    if not (isinstance(real, (list, tuple)) and len(real) == 3):
        c.fail("shape", f"expected [records, magnitudes, dates], got {type(real)}"); return
    rec, cmv, cmd = real
    c.stats["records-unchanged"] += 1
    if rec.tobytes() != base.tobytes():
        c.fail("records-altered", f"{cmp.ints(rec).tolist()} with the output, {cmp.ints(base).tolist()} without")
    if default:
        c.stats["default-layout"] += 1
    if len(cmv) != n or len(cmd) != n:
        c.fail("slot-count", f"{len(cmv)} magnitudes, {len(cmd)} dates, expected {n} (first {first} last {last} start {start} step {step})"); return
    cmv, cmd = cmv.astype(int), cmd.astype(int); v, d, rival = v.astype(int), d.astype(int), rival.astype(int)
    c.stats["slots-filled"] += int((v != -9999).sum()); c.stats["slots-empty"] += int((v == -9999).sum()); c.stats["capped"] += int((v == 32767).sum())
    c.nontrivial = bool((v != -9999).any())
    # self-consistency, independent of the model
    bad = np.flatnonzero((cmv == -9999) != (cmd == -9999))
    if len(bad):
        c.fail("fill-mismatch", f"slot {bad[0]}: magnitude {cmv[bad[0]]} date {cmd[bad[0]]}")
    f = np.flatnonzero(cmv != -9999)
    slot = (cmd[f] + 723742 - start) // step
    if (slot != f).any():
        k = f[np.flatnonzero(slot != f)[0]]
        c.fail("date-outside-slot", f"slot {k} (start {start} step {step}) holds date {cmd[k] + 723742}")
    if not np.isin(cmd[f] + 723742, px.d).all():
        c.fail("date-not-observed", "a slot date is no observation date")
    # against the model
    tol = 1 + np.abs(v) * 1e-3
    wrong = (np.abs(cmv - v) > tol) | ((cmv == -9999) != (v == -9999))
    wdate = ~wrong & (cmd != d) & (v - rival > tol)
    for key, w in (("magnitude", wrong), ("date", wdate)):
        if w.any():
            if margin < cmp.TOL:
                c.soft("near-threshold:" + where)
            else:
                var = cmp.noisy(lambda: refm.cold(px, cm=(start, n, step), **p)[3])
                lo = np.min([q[0] for q in var], axis=0).astype(int); hi = np.max([q[0] for q in var], axis=0).astype(int)
                w = w & ~((hi - lo > tol / 3) | np.any([(q[0] == -9999) != (v == -9999) for q in var], axis=0)
                          | np.any([q[1] != d for q in var], axis=0))
                if not w.any():
                    c.soft("rounding-decides-slot"); continue
                k = int(np.flatnonzero(w)[0])
                c.fail("slot-" + key, f"slot {k} of {n}: real {cmv[k]}@{cmd[k]} expected {v[k]}@{d[k]} (runner-up {rival[k]}), {int(w.sum())} slots differ, margin {margin:.1e}@{where}")
            break
