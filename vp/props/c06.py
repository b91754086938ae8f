META = dict(technique="runtime differential monitor: every update of a monitoring history compared with an independent reference model, with bookkeeping monitors over the saved states",
            level_note="Holds on the explored histories. The reference model starts each step from the real saved state, so an error of one step cannot hide in the next.",
            N=dict(quick=18000, thorough=160000), kinds=["plain"], ref=True, level="exploration", cpu=60,
            rule="one case = one pixel history: a retrospective start and a split of the remaining observations into updates (single observations, small and large batches, batches without a "
                 "usable observation), with identification between; non-trivial = an update took in a usable observation",
            must_observe=["from:0", "from:1", "from:3", "from:4", "from:5", "from:11", "from:12", "updates", "single", "nothing-usable", "closed-kept", "closed-new", "identified", "queue-full", "queued", "absorbed", "same-date", "followed"],
            assumptions=["a discrete disagreement whose closest decision margin is below 1e-3 is counted inconclusive", "dates 1982-2071 and 16-bit band values", "an update brings at least one scene"])
import pickle
import numpy as np
import pycold
from .. import cmp, flow, gen, refm

NEXT = {0: (0, 1, 3, 4, 12), 1: (1, 5, 12), 11: (1, 5, 11, 12), 12: (1, 12), 3: (3,), 4: (3, 4), 5: (1, 5, 12)}


def freeze(s):
    return pickle.dumps([np.asarray(x) for x in s])


def snow_like(s, px):
    clear, snow = int((px.qa <= 1).sum()), int((px.qa == 3).sum())
    return s.nrt_mode in (3, 4) or s.nrt_mode == 0 and snow / (snow + clear + 0.01) >= 0.75


def taken(s, px, c2):
    """usable observations of an update: in range, clear, and of a new date"""
    ok = (px.qa <= 1) | (px.qa == 3) if snow_like(s, px) else flow.usable(px, c2)
    d = px.d[ok]
    last = known(s)[-1:] if s.nrt_mode else []
    return d[np.r_[True, np.diff(d) > 0] & ~np.isin(d, last)] if len(d) else d


def known(s):
    """dates kept in a saved state, oldest first"""
    d = sorted(int(x) + flow.L4 for x in s.nrt_queue["clrx_since1982"]) if len(s.nrt_queue) else []
    if not d and len(s.nrt_model):
        d = [int(x) + flow.L4 for x in s.nrt_model[0]["obs_date_since1982"] if x]
    return d


def bookkeeping(c, s, t, px, p):
    """what holds for any update, independently of the model"""
    k = len(s.rec_cg)
    c.expect(len(t.rec_cg) >= k and (k == 0 or flow.same_value(s.rec_cg, t.rec_cg[:k])), "closed-segment-changed", f"mode {s.nrt_mode}->{t.nrt_mode}, {k} then {len(t.rec_cg)} segments")
    c.stats["closed-kept"] += k > 0; c.stats["closed-new"] += len(t.rec_cg) > k
    ok = t.nrt_mode in NEXT.get(int(s.nrt_mode), ())
    c.expect(ok or len(t.rec_cg) > k, "mode-change", f"{s.nrt_mode} -> {t.nrt_mode}")
    c.expect(int(t.position) == p["pos"], "position", f"{t.position}")
    new = taken(s, px, p["b_c2"])
    q = [int(x) + flow.L4 for x in t.nrt_queue["clrx_since1982"]] if len(t.nrt_queue) else []
    c.expect(all(np.diff(q) > 0), "queue-order", f"{q[:20]}")
    if len(new) == 0:
        c.stats["nothing-usable"] += 1
        if s.nrt_mode:
            c.expect(not flow.diff(s, t, skip=("position",)), "no-observation-changes-state", f"mode {s.nrt_mode}->{t.nrt_mode}: {flow.diff(s, t, skip=('position',))}")
        return
    c.nontrivial = True
    if s.nrt_mode in (4, 12) and t.nrt_mode in (4, 12) and len(t.rec_cg) == k:
        c.stats["queued"] += 1
        if s.nrt_mode == 4:
            want = (known(s) + new.tolist())[-240:]
            c.expect(q == want, "queue-lost-or-repeated", f"lost {sorted(set(want) - set(q))[:5]} extra {sorted(set(q) - set(want))[:5]}")
        else:                                   # outliers of the standard queue may be removed; nothing foreign may appear, nothing recent may vanish unscreened
            c.expect(set(q) <= set(known(s)) | set(new.tolist()), "queue-foreign-date", f"{sorted(set(q) - set(known(s)) - set(new.tolist()))[:5]}")
        c.stats["queue-full"] += len(q) == 240
    if s.nrt_mode % 10 == 1 and t.nrt_mode % 10 == 1 and len(t.rec_cg) == k:
        c.stats["absorbed"] += 1
        m, n = s.nrt_model[0], t.nrt_model[0]
        c.expect(0 <= int(n["num_obs"]) - int(m["num_obs"]) <= len(new), "observations-counted", f"{m['num_obs']} -> {n['num_obs']} with {len(new)} new")
        c.expect(int(n["t_start_since1982"]) == int(m["t_start_since1982"]), "segment-start-moved", f"{m['t_start_since1982']} {n['t_start_since1982']}")


def case(c):
    r = c.rng
    kind = r.integers(0, 8)
    if kind == 0:                              # long queue without a model
        n = int(r.integers(245, 350))
        px = gen.series(r, n=n, breaks=0, cloud=0, snow=0)
        px.d = px.d[0] + np.r_[0, 370 + np.arange(n - 1)] if r.random() < .7 else px.d     # daily scenes after a gap: too short for a model
        px.qa[1:] = 0
        if r.random() < .3:
            px = snow(r, n)
    elif kind == 1:
        px = snow(r, int(r.integers(8, 60)))
    else:
        px = flow.pixel(r)
    r2 = c.rngs(1); follow = kind > 2 and r2.random() < .18
    if follow:
        px, start = followed(r2)
    px = clip(px); p = flow.params(r)
    if px.n < 2:
        return
    c.add_sig(px.d, px.b, px.qa, p)
    cut = int(r.choice([max(1, int(px.n * r.random())), max(1, px.n - int(r.integers(1, 30))), max(1, int(np.searchsorted(px.d, px.d[0] + 366)) + 1)]))
    cut = min(start if follow else cut, px.n - 1); c.stats["followed"] += follow
    first = px.sub(slice(0, cut))
    if r.random() < .08:
        first.qa[:] = 4                        # nothing usable at the start: empty state
    c.desc = dict(px.desc(), params=p, first=cut); c.data = dict(px=px, params=p, first=first)
    try:
        s = pycold.sccd_detect(*first.args(), **p)
    except RuntimeError:
        return
    if kind == 2:                              # batches without anything usable
        for i in r.integers(cut, px.n, 3):
            px.qa[i:i + int(r.integers(1, 6))] = int(r.choice([2, 4, 255]))
    u = dict(p)
    if r.random() < .3:
        u["predictability_tcg"] = float(r.choice([9.236, 15.086, 2.0]))
    pieces = int(r.choice([1, 2, 3, 6, 12, 40]))
    lo = cut
    for hi in (range(cut + 1, px.n + 1) if follow else flow.cuts(r, px.n, cut, pieces)):
        if r.random() < .3:
            s, _ = pycold.sccd_identify(s, dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([100., 924., 1508.6])), t_angle_scale100=int(r.choice([4500, 17999])))
            c.stats["identified"] += 1
        a = lo - 1 if lo and r.random() < .1 else lo         # a scene delivered twice
        step = px.sub(slice(a, hi))
        c.stats["same-date"] += a < lo; c.stats["single"] += hi - a == 1; c.stats["updates"] += 1
        lo = hi
        state = refm.state(s); before = freeze(s)
        kw = {("pred" if n == "predictability_tcg" else n): v for n, v in u.items()}
        run = lambda: refm.sccd(step, state=state, **kw)
        ref, margin, where = run()
        try:
            t = pycold.sccd_update(s, *step.args(), **u)
        except Exception as e:
            c.expect(isinstance(ref, int), "unexpected-exception", f"{e!r}"); return
        c.expect(freeze(s) == before, "caller-state-modified", f"mode {s.nrt_mode}")
        if isinstance(ref, int):
            c.fail("accepted-invalid", f"model {ref}"); return
        c.stats["from:%d" % s.nrt_mode] += 1
        bookkeeping(c, s, t, step, p)
        real = cmp.real_state(t)
        real["segs"] = real["segs"][len(s.rec_cg):]
        if not cmp.states(c, real, ref, margin, where, lambda: run()[0], "update"):
            return
        s = t


def followed(r):
    """a change near the end of a modelled pixel, then days or weeks observed one scene at a time"""
    px = gen.series(r, n=int(r.integers(50, 200)), breaks=0, cloud=float(r.choice([0, .2])), snow=0, noise=float(r.choice([20, 50])))
    k = int(r.integers(4, 24)); k = min(k, px.n - 2)
    px.b[:6, -k:] += np.rint(r.choice([-1, 1], 6) * r.uniform(50, 900, 6) * r.uniform(.3, 2)).astype(int)[:, None]
    if r.random() < .3:                        # and back again
        j = int(r.integers(1, k + 1)); px.b[:6, -j:] = px.b[:6, -k - j:px.n - k] if px.n >= k + j else px.b[:6, -j:]
    px.b[:6] = np.clip(px.b[:6], 1, 9999)
    px.d[-k:] = px.d[-k - 1] + np.cumsum(r.integers(1, int(r.choice([3, 7, 17])), k))
    return px, px.n - k + int(r.integers(-2, 3))


def snow(r, n):
    px = gen.series(r, n=n, breaks=0, cloud=0)
    px.qa[r.random(px.n) < .95] = 3
    return px


def clip(px):
    px.b[:] = np.clip(px.b, -32768, 32767)
    if px.n and (px.d[-1] > flow.L4 + 32767 or px.d[0] < flow.L4):
        px.d += flow.L4 + 1 - px.d[0]
    return px
