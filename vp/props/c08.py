META = dict(technique="runtime metamorphic monitor: bitwise comparison of runs on inputs that differ only in unusable observations",
            level_note="Holds on the explored pixels and mutations; the oracle is equality of every output bit between two runs of the real code, so it needs no model of the algorithm.",
            N=dict(quick=12000, thorough=150000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one pixel and one mutated copy (unusable observations rewritten, relabelled, added, removed; later duplicates rewritten) run through "
                 "detection with change magnitudes, reconstruction, stochastic detection and a chain of updates; non-trivial = the copy differs and a record or state came back",
            must_observe=["compared:cold", "compared:recon", "compared:sccd", "compared:update", "regime:ordinary", "regime:snow", "regime:cloud",
                          "mut:values", "mut:relabel", "mut:add", "mut:remove", "mut:duplicate", "mut:out-of-range", "mut:clear-added"],
            assumptions=["unusable means: cloud, shadow, fill, snow or out of range for an ordinary pixel; cloud, shadow, fill for a snow pixel; fill and out of range for "
                         "the cloud fallback; counts of clear and snow observations keep the regime; the first and last date of the series stay"])
import numpy as np
import pycold
from .. import gen, flow
from . import c04


def counts(px):
    return int((px.qa < 2).sum()), int((px.qa == 3).sum())


def regime_cold(px):
    a, s = counts(px)
    if a >= 24:
        return "ordinary"
    return "snow" if np.float32(s / (s + a + 0.01)) > 0.75 else "cloud"


def regime_sccd(px):
    a, s = counts(px)
    return "snow" if s / (s + a + 0.01) >= 0.75 else "ordinary"


HUGE = [-2 ** 31, -32768, -9999, -1, 0, 1, 77, 3000, 9999, 10000, 20000, 32767, 65535, 2 ** 31 - 1]


def anything(r, shape):
    return np.where(r.random(shape) < .5, r.choice(HUGE, shape), r.integers(-500, 12000, shape))


def spoil(r, px, i, c2):
    """out-of-range values for observation i, whatever its quality flag"""
    v = anything(r, 7)
    k = int(r.integers(0, 6 if c2 else 7))
    v[k] = r.choice([-9999, -200, 10000, 20000, -300, 65535]) if k < 6 else r.choice([-100, 100, 1799, 3439, 9000, -9999])
    px.b[:, i] = v


def later_dups(px, ok):
    """usable observations whose date an earlier usable observation already has"""
    out = np.zeros(px.n, bool); last = None
    for i in range(px.n):
        if ok[i]:
            if last is not None and px.d[i] == last:
                out[i] = True
            last = px.d[i]
    return out


def mutate(c, r, px, mode, c2, loose, tag):
    """a copy that must give the same result; c.stats counts what was done"""
    q = px.copy()
    inr = flow.inrange(px, c2)
    masked = np.isin(px.qa, (2, 4, 255))
    st = c.stats
    # 1 rewrite values
    if mode == "snow":
        w = masked
    elif mode == "cloud":
        w = px.qa == 255
        for i in np.flatnonzero(~inr & (px.qa != 255)):
            if r.random() < .7:
                spoil(r, q, i, c2); st["mut:out-of-range"] += 1
    else:
        w = masked | (px.qa == 3)
        for i in np.flatnonzero(~inr & (px.qa < 2)):
            if r.random() < .7:
                spoil(r, q, i, c2); st["mut:out-of-range"] += 1
        for i in np.flatnonzero(later_dups(px, inr & (px.qa < 2))):
            if r.random() < .7:
                q.b[:, i] = r.integers(1, 9999, 7) if r.random() < .5 else anything(r, 7); st["mut:duplicate"] += 1
    w = np.flatnonzero(w & (r.random(px.n) < r.choice([.3, 1])))
    q.b[:, w] = anything(r, (7, len(w))); st["mut:values"] += len(w)
    # 2 relabel
    if mode == "cloud":
        pass
    else:
        k = np.flatnonzero(masked & (r.random(px.n) < .5))
        q.qa[k] = r.choice([2, 4, 255], len(k)); st["mut:relabel"] += len(k)
    # 3 remove
    drop = (masked if mode != "cloud" else (px.qa == 255)) & (r.random(px.n) < r.choice([0, .3, .9]))
    if loose:
        drop |= (((px.qa == 3) | (px.qa < 2) & ~inr) & (r.random(px.n) < .5))
    drop[[0, -1]] = False
    st["mut:remove"] += int(drop.sum())
    q = q.sub(np.flatnonzero(~drop))
    # 4 add
    k = int(r.choice([0, 1, 5, 40]))
    if k and q.n > 1:
        at = r.integers(int(px.d[0]), int(px.d[-1]) + 1, k)
        at = np.where(r.random(k) < .3, r.choice(px.d, k), at)
        add = gen.Px(at, anything(r, (7, k)), r.choice([2, 4, 255] if mode != "cloud" else [255], k))
        if loose:
            for i in range(k):
                u = r.random()
                if u < .4:
                    add.qa[i] = r.integers(0, 2); spoil(r, add, i, c2); st["mut:clear-added"] += 1
                elif u < .6:
                    add.qa[i] = 3
        st["mut:add"] += k
        d = np.concatenate([q.d, add.d]); o = np.lexsort((np.concatenate([np.arange(q.n), r.uniform(-1, q.n + 1, k)]), d))
        b = np.concatenate([q.b, add.b], 1); qa = np.concatenate([q.qa, add.qa])
        q = gen.Px(d[o], b[:, o], qa[o], q.tag)
        if loose and mode == "ordinary" and r.random() < .3:       # a usable duplicate right after a usable observation
            us = np.flatnonzero(flow.inrange(q, c2) & (q.qa < 2))
            if len(us):
                i = int(r.choice(us))
                q = gen.Px(np.insert(q.d, i + 1, q.d[i]), np.insert(q.b, i + 1, r.integers(1, 9999, 7), 1), np.insert(q.qa, i + 1, 0), q.tag)
                st["mut:duplicate"] += 1
    return q


def run(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def same(c, who, x, y, px, q, p):
    c.stats["compared:" + who] += 1
    if isinstance(x, str) or isinstance(y, str):
        c.stats["errors:" + who] += 1
        return c.expect(type(x) is type(y) and x == y, f"{who}:same-outcome", lambda: f"{x!r:.300} / {y!r:.300} {p}", dict(a=px, b=q, params=p))
    if isinstance(x, pycold.colds.SccdOutput) or hasattr(x, "_fields"):
        d = flow.diff(x, y)
        det = lambda: f"differs in {d}: modes {x.nrt_mode}/{y.nrt_mode} {p}"
        ok = not d
    else:
        xs, ys = (x, y) if isinstance(x, list) else ([x], [y])
        ok = all(flow.same_value(u, v) for u, v in zip(xs, ys))
        det = lambda: f"{[r[['t_start', 't_end', 't_break', 'num_obs', 'category']].tolist() for r in (xs[0], ys[0])]} slots differ: {[int((u != v).sum()) for u, v in zip(xs[1:], ys[1:])]} {p}"
    if not (isinstance(x, str)):
        c.nontrivial = True
    return c.expect(ok, f"{who}:same-result", det, dict(a=px, b=q, params=p))


def case(c):
    r = c.rng
    px = flow.pixel(r); p = gen.cold_params(r)
    if px.n < 2:
        return
    if r.random() < .6:                      # more duplicates
        k = r.integers(1, px.n, max(1, px.n // 15)); px.d[k] = px.d[k - 1]; px.d = np.sort(px.d)
    c.desc = dict(px.desc(), params=p)
    c.add_sig(px.d, px.b, px.qa, p)
    # detection
    m = regime_cold(px); c.stats["regime:" + m] += 1
    loose = m == "ordinary" and r.random() < .5
    q = mutate(c, r, px, m, p["b_c2"], loose, "cold")
    if regime_cold(q) == m:
        cm = dict(b_output_cm=True, starting_date=int(px.d[0]) - int(r.integers(0, 50)), cm_output_interval=int(r.integers(20, 200)))
        same(c, "cold", run(pycold.cold_detect, *px.args(), **cm, **p), run(pycold.cold_detect, *q.args(), **cm, **p), px, q, dict(p, **cm))
        br = c04.breaks(c.rngs(3), px, p); k = dict(conse=p["conse"], pos=p["pos"], b_c2=p["b_c2"])
        a, b = run(pycold.obcold_reconstruct, *px.args(), br, **k), run(pycold.obcold_reconstruct, *q.args(), br, **k)
        if not (m == "ordinary" and (isinstance(a, str) or a[0]["category"] in (44, 54))):      # an ordinary pixel that ended in a fallback
            same(c, "recon", a, b, px, q, dict(k, breaks=br))
    # stochastic detection and updates, chunk by chunk
    k = flow.params(r)
    ds = np.unique(px.d)
    if len(ds) < 3:
        return
    n = int(r.choice([1, 1, 2, 4, 9]))
    first = int(r.choice([len(ds), int(len(ds) * r.uniform(.2, 1))]))
    bounds = sorted({first, len(ds)} | set(r.integers(first, len(ds) + 1, n).tolist()) - {0})
    lo = 0; s = t = None
    for hi in bounds:
        if hi <= lo:
            continue
        i = np.flatnonzero((px.d >= ds[lo]) & (px.d <= ds[hi - 1])); a = px.sub(i); lo = hi
        if s is None:
            m = regime_sccd(a)
        else:
            m = "snow" if s.nrt_mode in (3, 4) else "ordinary" if s.nrt_mode else regime_sccd(a)
        loose = m == "ordinary" and r.random() < .5
        b = mutate(c, r, a, m, k["b_c2"], loose, "sccd") if a.n > 1 else a
        if (s is None or s.nrt_mode == 0) and regime_sccd(b) != m:
            b = a
        if s is None:
            s, t = run(pycold.sccd_detect, *a.args(), **k), run(pycold.sccd_detect, *b.args(), **k)
            who = "sccd"
        else:
            s, t = run(pycold.sccd_update, s, *a.args(), **k), run(pycold.sccd_update, t, *b.args(), **k)
            who = "update"
        if not same(c, who, s, t, a, b, k) or isinstance(s, str):
            return
