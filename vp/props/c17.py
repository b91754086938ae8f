META = dict(technique="runtime monitor: object segmentation, object vote, result files and per-pixel reconstruction run on generated change maps; every superpixel, vote, break date and record compared with an independent evaluation of the documented rule",
            level_note="Holds on the explored maps. Cases where a decision hangs on the last bits of a floating-point comparison are counted and left out.",
            N=dict(quick=8000, thorough=60000), kinds=["plain"], level="exploration", cpu=120,
            rule="one case = one map pair with its options (segmentation by flood fill, watershed or slic; vote on given objects; date sequence through files and blocks; reconstruction of a block); "
                 "non-trivial = at least one object, or one reconstructed record",
            must_observe=["floodfill", "watershed", "slic", "vote", "files", "reconstruct", "more-than-255-seeds", "date-gap:60", "date-gap:61", "filled-from-previous", "previous-too-weak", "below-threshold-hole", "no-seed", "probability-map",
                          "two-objects-one-patch", "diagonal", "vote:class", "groups", "year-end", "year-end:leap", "year-end:long-after", "vote:255", "vote:none", "vote:uniform", "vote:mode-tie", "scale-capped", "change", "no-change", "first-date", "thematic-year-clamped", "thematic-year-before",
                          "several-blocks", "non-square", "ten-or-more-blocks", "breaks-in-time-order", "ratio-given", "interval-given", "stack-read", "c2"],
            assumptions=["astropy's convolve, scikit-image's watershed and slic compute what they document"])
import datetime, os, shutil
import numpy as np
from astropy.convolution import Gaussian2DKernel, convolve
from skimage.segmentation import slic, watershed
from scipy import ndimage
from scipy.stats import chi2
from pycold import ob_analyst as ob
from pycold import obcold_reconstruct
from pycold.common import DatasetInfo
import pandas as pd
from vp import gen, flow
NAN = -9999
PEAK = 9.236356899781123        # chi2(5) at 0.90
LOW = 6.0644299841548945        # chi2(5) at 0.70
LAUNCH = 723742
RULE = {255: (11.07, 0), 1: (11.07, .1), 2: (15.086, .05), 3: (15.086, .05), 4: (11.07, .1), 5: (15.086, .05), 6: (11.07, .1), 7: (15.086, .05), 8: (15.086, .05)}


class Edge(Exception):
    pass


def fields(r, R, C, prob=False):
    """a magnitude map (int16, hundredths) and its dates"""
    s = float(r.choice([.7, 1.5, 3]))
    f = ndimage.gaussian_filter(r.normal(0, 1, (R, C)), s); f /= f.std() + 1e-9
    m = float(r.choice([6, 9, 12, 16])) + float(r.choice([2, 5])) * f + r.normal(0, .3, (R, C))
    if r.random() < .12: m = np.full((R, C), 3.) + r.normal(0, .5, (R, C))
    if prob: m = np.clip(m / 20, 0, 1)
    hole = r.random((R, C)) < r.choice([0, .05, .3, .6])
    d = np.full((R, C), int(r.integers(5000, 9000)))
    for _ in range(int(r.integers(0, 4))):
        i, j = int(r.integers(0, R)), int(r.integers(0, C))
        d[i:i + int(r.integers(1, R + 1)), j:j + int(r.integers(1, C + 1))] += int(r.choice([60, 61, 59, 30, -60, -61, 200]))
    if r.random() < .4: d = d + r.integers(-30, 31, (R, C))
    if prob:
        a = m.astype(np.float32); a[hole] = 0
    else:
        a = np.clip(m * 100, 0, 30000).astype(np.int16); a[hole] = NAN
    d = d.astype(np.int32); d[hole] = NAN
    return a, d


def margin(a, b, eps=1e-5):
    """a > b for arrays, unless a comparison is too close to tell"""
    if (np.abs(a - b) < eps * np.maximum(1, np.abs(b))).any():
        raise Edge
    return a > b


def smooth(v):
    g = convolve(v, Gaussian2DKernel(x_stddev=1, y_stddev=1), boundary="extend", preserve_nan=True)
    return g


def fill_from(c, a, d, pa, pd_, empty, weak):
    """the current map completed from the previous one"""
    a, d = a.copy(), d.copy()
    if pa is not None:
        p = pa.copy(); low = p < weak; c.stats["previous-too-weak"] += bool((low & (p != empty) & (a == empty)).any()); p[low] = empty
        k = a == empty; c.stats["filled-from-previous"] += bool((k & (p != empty)).any()); a[k] = p[k]
    if pd_ is not None:
        k = d == NAN; d[k] = pd_[k]
    return a, d


def regions(mask):
    lab, n = ndimage.label(mask, structure=np.ones((3, 3)))
    return lab


def flood(c, v, d, peak, ratio, interval, prob=False):
    """label = 1 + rank of the seed"""
    R, C = v.shape
    lab = np.zeros((R, C), np.int64)
    ok = ~np.isnan(v); vv = np.where(ok, v, 0)
    if (np.abs(vv[ok] - peak) < (1e-6 if prob else 1e-7) * peak).any(): raise Edge
    seeds = [(i, j) for i, j in np.argwhere(ok & (vv > peak))]
    seeds.sort(key=lambda p: -v[tuple(p)])
    vals = np.array([v[s] for s in seeds])
    if len(vals) > 1 and (np.diff(-vals) < (1e-6 if prob else 1e-10)).any(): raise Edge       # probabilities are kept in single precision
    f = np.where(ok, v, 0 if np.isnan(peak) else -9999.).astype(np.float32).astype(float)
    for n, s in enumerate(seeds):
        if lab[s]: continue
        g = v[s] * ratio; lab[s] = n + 1; todo = [s]
        while todo:
            i, j = todo.pop()
            for y in range(max(0, i - 1), min(R, i + 2)):
                for x in range(max(0, j - 1), min(C, j + 2)):
                    if lab[y, x] or not ok[y, x]: continue
                    dd = abs(int(d[y, x]) - int(d[s])); dv = abs(f[y, x] - f[s])
                    if abs(dv - g) < 1e-5 * max(1, g) and dd <= interval: raise Edge
                    if dv <= g:
                        if dd in (60, 61): c.stats[f"date-gap:{dd}"] += 1
                        if dd <= interval:
                            lab[y, x] = n + 1; todo.append((y, x)); c.stats["diagonal"] += y != i and x != j
    c.stats["more-than-255-seeds"] += len(seeds) > 255; c.stats["no-seed"] += not len(seeds)
    return lab


def same_partition(a, b):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if not np.array_equal(a == 0, b == 0): return False
    m = {}
    for x, y in zip(a.tolist(), b.tolist()):
        if m.setdefault(x, y) != y: return False
    return len(set(m.values())) == len(m)


def check_objects(c, key, got, v, lab, dates, exact, info, background=NAN):
    s1, d, s2, inf = got
    ok = c.expect(np.shape(s1) == lab.shape and (np.array_equal(s1, lab) if exact else same_partition(s1, lab)), key + ":superpixels", lambda: f"{int((np.asarray(s1) != lab).sum())} pixels differ {info()}")
    c.expect(np.array_equal(d, dates), key + ":dates", lambda: f"{int((np.asarray(d) != dates).sum())} dates differ {info()}")
    want2 = regions(lab > 0)
    ok &= c.expect(same_partition(s2, want2), key + ":patches", lambda: info())
    if not ok: return
    c.stats["two-objects-one-patch"] += len(np.unique(lab)) > len(np.unique(want2)); c.nontrivial |= bool(lab.any())
    rows = {int(l): float(m) for l, m in zip(inf["label"], inf["mean_intensity"])}
    w = {int(l): float(NAN) if l == 0 else float(np.mean(v[np.asarray(s1) == l])) for l in np.unique(s1)}
    c.expect(rows.keys() == w.keys() and len(inf) == len(w) and all(abs(rows[k] - w[k]) <= 1e-6 * max(1, abs(w[k])) for k in w), key + ":means", lambda: f"{sorted(rows.items())[:8]} expected {sorted(w.items())[:8]} {info()}")


def segment(c, method, a, d, pa, pd_, prob=False, ratio=None, interval=None, peak=None):
    """(smoothed map, labels, completed dates) by the documented rule"""
    if method == "floodfill":
        ratio = .4 if ratio is None else ratio; interval = 60 if interval is None else interval
        peak = (.5 if prob else PEAK) if peak is None else peak
        a, d = fill_from(c, a, d, pa, pd_, 0 if prob else NAN, np.float32(peak) if prob else PEAK * 100)
        low = peak * (1 - ratio)
    else:
        a, d = fill_from(c, a, d, pa, pd_, NAN, -10 ** 9); low = LOW
    v = a.astype(float) if prob else a / 100
    if prob and (np.abs(v - low) < 1e-6).any(): raise Edge
    if (np.abs(v - low) < 1e-9 * low).any(): raise Edge
    c.stats["below-threshold-hole"] += bool(((v < low) & (v > 0)).any())
    v[v < low] = np.nan
    g = smooth(v)
    if method == "floodfill":
        return g, flood(c, g, d, peak, ratio, interval, prob), d
    h = np.where(np.isnan(v), float(NAN), g)
    if (np.abs(h - low) < 1e-9 * low).any(): raise Edge
    mask = np.zeros_like(h); mask[h > low] = 1
    if method == "watershed":
        s = watershed(-h, connectivity=2, compactness=0, mask=mask); s[h < low] = 0
    elif not mask.any():
        s = np.zeros(h.shape, int)
    else:
        n = int(np.ceil(mask.sum() / 25)); s = slic(h, channel_axis=None, mask=mask, n_segments=n, compactness=.01, min_size_factor=n / h.shape[0] / h.shape[1])
    return h, np.asarray(s).astype(np.int64), d


def case_segment(c, method):
    r = c.rng; R, C = (int(v) for v in r.integers(3, int(r.choice([8, 16, 34])), 2))
    prob = method == "floodfill" and r.random() < .2
    a, d = fields(r, R, C, prob); pa, pd_ = fields(r, R, C, prob) if r.random() < .7 else (None, None)
    o = {}
    if method == "floodfill":
        if r.random() < .4: o["floodfill_ratio"] = float(r.choice([.1, .25, .5, .7])); c.stats["ratio-given"] += 1
        if r.random() < .4: o["date_interval"] = int(r.choice([30, 32, 60, 100])); c.stats["interval-given"] += 1
        if r.random() < .2 and (prob or pa is None): o["peak_threshold"] = .6 if prob else 12.
        if prob: o["b_dist_prob_map"] = True
    c.add_sig(method, a, d, pa, pd_, o); c.desc = dict(kind=method, shape=[R, C], previous=pa is not None, **o); c.data = dict(c.desc, cm=a, date=d, cm_l1=pa, date_l1=pd_)
    c.stats[method] += 1; c.stats["probability-map"] += prob; c.stats["non-square"] += R != C
    v, lab, dates = segment(c, method, a, d, pa, pd_, prob, o.get("floodfill_ratio"), o.get("date_interval"), o.get("peak_threshold"))
    f = getattr(ob, "segmentation_" + method)
    args = [a.copy(), d.copy()] + ([pa.copy(), pd_.copy()] if pa is not None else [])
    got = f(*args, **o)
    check_objects(c, method, got, v, lab, dates, method == "floodfill", lambda: str(c.desc))


def decide(c, mean, size, cls, thematic, thr, slope):
    if not thematic: t, s = RULE[255]
    elif thr is not None and slope is not None: t, s = thr, slope; c.stats["vote:uniform"] += 1
    elif cls in RULE: t, s = RULE[cls]; c.stats["vote:255" if cls == 255 else "vote:class"] += 1
    else: return False
    if not thematic: c.stats["vote:none"] += 1
    q = np.log10(size) * s + .95; c.stats["scale-capped"] += q > 2; q = min(q, 2)
    if abs(mean * q - t) < 1e-9 * t: raise Edge
    return mean * q > t


def vote(c, s1, s2, means, cls, thr, slope):
    w = np.zeros(s1.shape, np.uint8); sizes = {int(k): int((s2 == k).sum()) for k in np.unique(s2)}
    for l in np.unique(s1):
        k = s1 == l
        q = [sizes[int(x)] for x in s2[k]]; size = min(set(q), key=lambda x: (-q.count(x), x))
        m = None
        if cls is not None:
            u, n = np.unique(cls[k], return_counts=True); m = int(u[n == n.max()].min()); c.stats["vote:mode-tie"] += int((n == n.max()).sum()) > 1
        if decide(c, means[int(l)], size, m, cls is not None, thr, slope) and l != 0:
            w[k] = 1; c.stats["change"] += 1
        else:
            c.stats["no-change"] += l != 0
    return w


def groups(c):
    """mode (smallest of equally frequent values) and median (of the defined values) of each group, in order of the group number"""
    r = c.rngs(17); n = int(r.integers(1, 80)); ids = r.choice([0, 2, 3, 7, 40], n); a = r.integers(-2, 6, n).astype(np.int16); b = np.round(r.normal(0, 3, n), 3)
    b[r.random(n) < .2] = np.nan
    u = np.unique(ids)
    for k in u:
        if np.isnan(b[ids == k]).all(): b[np.flatnonzero(ids == k)[0]] = 1.5
    def mode(x):
        v, m = np.unique(x, return_counts=True); return v[m == m.max()].min()
    wm = [int(mode(a[ids == k])) for k in u]; wd = [float(np.nanmedian(b[ids == k])) for k in u]
    g = [int(v) for v in ob.modeby(a, ids)]; gm, gd = ob.mode_median_by(a, b, ids)
    c.expect(g == wm, "groups:mode", lambda: f"{g} expected {wm}")
    c.expect([int(v) for v in gm] == wm and np.allclose(np.array(gd, float), wd), "groups:mode-median", lambda: f"{gm} {gd} expected {wm} {wd}")
    c.stats["groups"] += len(u)


def case_vote(c):
    groups(c)
    r = c.rng; R, C = (int(v) for v in r.integers(2, int(r.choice([10, 40])), 2))
    base = r.random((R, C)) < r.choice([.3, .7, .97])
    s2 = regions(base); s1 = np.zeros((R, C), np.int32)
    cut = (np.arange(R)[:, None] // int(r.integers(1, R + 1)) * 100 + np.arange(C)[None] // int(r.integers(1, C + 1)))
    k = 0
    ids = r.permutation(R * C + 1) + 1
    for p in np.unique(s2[s2 > 0]):
        for q in np.unique(cut[s2 == p]):
            s1[(s2 == p) & (cut == q)] = ids[k]; k += 1
    means = {int(l): float(NAN) if l == 0 else float(r.choice([r.uniform(4, 20), r.uniform(5, 12)])) for l in np.unique(s1)}
    if r.random() < .3:
        for l in means:
            if l: means[l] = float(r.choice([11.07, 15.086])) / float(r.choice([.95, 2, 1.05, .96])) + float(r.choice([-.01, .01]))
    inf = pd.DataFrame(dict(label=list(means), mean_intensity=list(means.values())))
    cls = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 255], (R, C), p=r.dirichlet(np.full(9, .3))).astype(r.choice(["uint8", "int64", "int16"])) if r.random() < .8 else None
    uni = dict(uniform_threshold=float(r.uniform(5, 14)), uniform_sizeslope=float(r.choice([0, .05, .3, .8]))) if r.random() < .3 else {}
    if uni and r.random() < .2: del uni[str(r.choice(list(uni)))]
    c.add_sig(s1, means, cls, uni); c.desc = dict(kind="vote", shape=[R, C], objects=len(means), thematic=cls is not None, **uni); c.data = dict(c.desc, s1=s1, s2=s2, means=means, classes=cls)
    c.stats["vote"] += 1; c.nontrivial = len(means) > 1
    w = vote(c, s1, s2, means, cls, uni.get("uniform_threshold"), uni.get("uniform_sizeslope"))
    got = ob.object_analysis(s1.copy(), s2.copy(), inf, classification_map=None if cls is None else cls.copy(), **uni)
    c.expect(np.array_equal(got, w), "vote", lambda: f"{int((np.asarray(got) != w).sum())} pixels differ, first at {np.argwhere(np.asarray(got) != w)[:1].tolist()} {c.desc}")


def layout(r, many=False):
    if many:
        nx, ny, bw, bh = 11, int(r.choice([1, 2])), 1, 1
        if r.random() < .5: nx, ny = ny, nx
    else:
        nx, ny = (int(v) for v in r.choice([1, 2, 3, 4], 2)); bw, bh = (int(v) for v in r.integers(2, 7, 2))
    return DatasetInfo(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny)


def name(kind, date):
    y = datetime.date.fromordinal(date)
    return f"{kind}_{date}_{y.year}{date - datetime.date(y.year, 1, 1).toordinal() + 1:03d}"


def case_files(c):
    """maps of several dates through the result files of every block"""
    r = c.rng; info = layout(r, r.random() < .1); R, C = info.n_rows, info.n_cols
    step = int(r.choice([60, 60, 32, 90])); start = int(r.integers(724000, 733000)); n = int(r.integers(2, 5))
    q = c.rngs(23)
    if q.random() < .35:         # a snapshot on the last or first day of a year
        step = int(q.choice([step, 365, 366, 400, 730])); y = int(q.integers(1988, 2008)); y = y if q.random() < .4 else y // 4 * 4
        start = datetime.date(y, 12, 31).toordinal() + int(q.choice([0, 0, 0, 1, -1])) - step * int(q.integers(1, n))
    dates = [start + k * step for k in range(n)]
    thematic = r.random() < .6; method = str(r.choice(["floodfill", "floodfill", "watershed", "slic"])); ratio = float(r.choice([.25, .6])) if r.random() < .4 and method == "floodfill" else None
    uni = dict(uniform_threshold=float(r.uniform(6, 12)), uniform_sizeslope=float(r.choice([.05, .4]))) if r.random() < .2 and thematic else {}
    c.add_sig(c.index, dates, R, C); c.desc = dict(kind="files", grid=[info.n_block_x, info.n_block_y], block=[info.block_width, info.block_height], start=start, step=step, n=n, thematic=thematic, method=method, ratio=ratio, **uni)
    c.data = dict(c.desc, maps={})
    d = os.path.join(c.tmp, "ob"); shutil.rmtree(d, ignore_errors=True); cm = os.path.join(d, "res", "cm_maps"); os.makedirs(cm); th = os.path.join(d, "th"); os.makedirs(th); os.makedirs(os.path.join(d, "stack"))
    maps, cls = {}, {}
    for t in dates:
        a, q = fields(r, R, C); maps[t] = a, q
        np.save(os.path.join(cm, name("CM_maps", t) + ".npy"), a); np.save(os.path.join(cm, name("CM_date_maps", t) + ".npy"), q.astype(np.int16)); c.data["maps"][t] = dict(cm=a, date=q)
    y0 = datetime.date.fromordinal(start).year
    for y in range(y0 - 1, datetime.date.fromordinal(dates[-1]).year + 1):
        cls[y] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 255], (R, C), p=r.dirichlet(np.full(9, .3))).astype(np.uint8); np.save(os.path.join(th, f"yearlyclassification_{y}.npy"), cls[y])
    other = r.random() < .4; obia = os.path.join(d, "elsewhere") if other else os.path.join(d, "res", "OBIAresults")
    mk = lambda: ob.ObjectAnalystHPC(info, os.path.join(d, "stack"), os.path.join(d, "res"), start, thematic_path=th if thematic else None, obia_path=obia if other else None)
    an = mk(); an.hpc_preparation()
    c.stats["files"] += 1; c.stats["several-blocks"] += info.nblocks > 1; c.stats["non-square"] += R != C; c.stats["ten-or-more-blocks"] += info.nblocks > 9
    done = []; want = {}
    for t in [dates[k] for k in r.permutation(n)]:
        if t == start:
            w = np.zeros((R, C), np.int64); c.stats["first-date"] += 1
        else:
            (a, q), (pa, pq) = maps[t], maps[t - step]
            up = lambda z: np.where(z == NAN, NAN, z + LAUNCH).astype(np.int32)
            v, lab, ds = segment(c, method, a, up(q), pa, up(pq), ratio=ratio)
            yr = datetime.date.fromordinal(t).year - 1
            if thematic: c.stats["thematic-year-clamped" if yr < y0 else "thematic-year-before"] += 1
            e = datetime.date.fromordinal(t); c.stats["year-end:long-after" if yr >= y0 and (e.month, e.day) == (12, 31) else "year-end:leap" if (e.month, e.day) == (12, 31) and e.timetuple().tm_yday == 366 else "year-end" if (e.month, e.day) == (12, 31) else "date"] += 1
            s2 = regions(lab > 0); m = {int(l): float(NAN) if l == 0 else float(np.mean(v[lab == l])) for l in np.unique(lab)}
            k = vote(c, lab, s2, m, cls[max(yr, y0)] if thematic else None, uni.get("uniform_threshold"), uni.get("uniform_sizeslope"))
            w = np.where(k == 1, np.maximum(ds, 0), 0).astype(np.int64); c.nontrivial |= bool(lab.any())
        want[t] = w
        kw = dict(uni, method=method, cm_output_interval=step)
        if ratio is not None: kw["floodfill_ratio"] = ratio
        if step == 60 and r.random() < .5: del kw["cm_output_interval"]
        if method == "floodfill" and r.random() < .5: del kw["method"]
        c.expect(not an.is_finished_object_analysis(dates), "files:finished-too-early")
        mk().obia_execute(t, **kw); done.append(t)
        c.expect(bool(an.is_finished_object_analysis(done)), "files:not-marked", lambda: f"{t} {c.desc}")
    for x in range(1, info.n_block_x + 1):
        for y in range(1, info.n_block_y + 1):
            rows, cols = slice((y - 1) * info.block_height, y * info.block_height), slice((x - 1) * info.block_width, x * info.block_width)
            g = np.asarray(an.get_allobiaresult_asarray(x, y)); e = np.array([want[t][rows, cols].ravel() for t in dates])
            if not c.expect(g.shape == e.shape and np.array_equal(g, e), "files:" + method, lambda: f"block x{x} y{y}: {g.tolist()} expected {e.tolist()} {c.desc}"): return
    c.expect(set(os.listdir(obia)) == {name("obiaresult", t) + f"_x{x}_y{y}.npy" for t in dates for x in range(1, info.n_block_x + 1) for y in range(1, info.n_block_y + 1)} | {f"tmp_OBIA_{t}_finished.txt" for t in dates}, "files:names", lambda: str(sorted(os.listdir(obia))[:6]))


def case_reconstruct(c):
    r = c.rng; info = layout(r); R, C = info.n_rows, info.n_cols; n = info.block_width * info.block_height
    b = int(r.integers(1, info.nblocks + 1)); x, y = (b - 1) % info.n_block_x + 1, (b - 1) // info.n_block_x + 1
    d = os.path.join(c.tmp, "rc"); shutil.rmtree(d, ignore_errors=True); obia = os.path.join(d, "res", "OBIAresults"); os.makedirs(obia); st = os.path.join(d, "stack"); blk = os.path.join(st, f"block_x{x}_y{y}"); os.makedirs(blk)
    t0 = int(r.integers(724500, 732000)); T = int(r.integers(60, 160)); days = np.sort(r.choice(np.arange(t0, t0 + 9 * T), T, replace=False)).astype(np.int64)
    ph = 2 * np.pi * days / 365.25
    stack = np.zeros((n, 8, T), np.int16)
    for p in range(n):
        for k in range(7):
            s = 600 + 300 * k + 150 * np.cos(ph + k) + r.normal(0, 40, T)
            for _ in range(int(r.integers(0, 3))): s[int(r.integers(0, T)):] += r.normal(0, 400)
            stack[p, k] = np.clip(s, 1, 9999) if k < 6 else np.clip(s, 1, 5000) + 800
        stack[p, 7] = r.choice([0, 0, 0, 0, 1, 2, 4, 255], T)
        if r.random() < .1: stack[p, 7] = 255
        if r.random() < .1: stack[p, 7] = 3
    m = int(r.integers(1, 6)); slots = [t0 + int(v) for v in np.sort(r.choice(9 * T, m, replace=False))]
    br = np.where(r.random((m, n)) < .3, np.array(slots)[:, None] - r.integers(0, 60, (m, n)), 0).astype(np.int32)
    order = [int(v) for v in r.permutation(m)]
    for k in order:
        np.save(os.path.join(obia, name("obiaresult", slots[k]) + f"_x{x}_y{y}.npy"), br[k].reshape(info.block_height, info.block_width))
        np.save(os.path.join(obia, name("obiaresult", slots[k]) + f"_x{x + 1}_y{y}.npy"), br[k].reshape(info.block_height, info.block_width) * 0)
        np.save(os.path.join(obia, name("obiaresult", slots[k]) + f"_x{x}_y{y + 10}.npy"), br[k].reshape(info.block_height, info.block_width) * 0)
    open(os.path.join(obia, f"tmp_OBIA_{slots[0]}_finished.txt"), "w").close()
    conse = int(r.choice([6, 6, 4, 8])); c2 = bool(r.random() < .5); read = r.random() < .4
    c.add_sig(stack, br, conse, c2); c.desc = dict(kind="reconstruct", grid=[info.n_block_x, info.n_block_y], block=[info.block_width, info.block_height], id=b, conse=conse, c2=c2, slots=slots, read=read)
    c.data = dict(c.desc, days=days, breaks=br)
    c.stats["reconstruct"] += 1; c.stats["breaks-in-time-order"] += order != sorted(order); c.stats["c2"] += c2; c.stats["stack-read"] += read
    an = ob.ObjectAnalystHPC(info, st, os.path.join(d, "res"), t0); an.hpc_preparation()
    if read:
        for k, day in enumerate(days):
            dt = datetime.date.fromordinal(int(day))
            a = np.zeros((info.block_height, info.block_width, 8), np.int16)
            for p in range(n): a[p // info.block_width, p % info.block_width] = stack[p, :, k]
            np.save(os.path.join(blk, f"LT5{'015034'}{dt.year}{day - datetime.date(dt.year, 1, 1).toordinal() + 1:03d}.npy"), a)
        got = an.reconstruct_reccg(b, conse=conse, b_c2=c2)
    else:
        got = an.reconstruct_reccg(b, img_stack=stack.copy(), img_dates_sorted=days.copy(), conse=conse, b_c2=c2)
    want = []
    for p in range(n):
        row, col = (y - 1) * info.block_height + p // info.block_width + 1, (x - 1) * info.block_width + p % info.block_width + 1
        q = stack[p].astype(np.int64)
        try:
            want.append(obcold_reconstruct(days, *[q[k] for k in range(8)], br[:, p].astype(np.int64), conse=conse, b_c2=c2, pos=C * (row - 1) + col))
        except Exception:
            pass
    c.nontrivial = bool(want)
    ok = c.expect(len(got) == len(want), "reconstruct:pixels", lambda: f"{len(got)} expected {len(want)} {c.desc}")
    if ok:
        for g, w in zip(got, want):
            if not c.expect(g.tobytes() == w.tobytes(), "reconstruct:records", lambda: f"{flow.brief(g) if hasattr(flow, 'brief') else g} expected {w} {c.desc}"): return
        if want and len(got):
            an.save_obcoldrecords(b, got)
            f = os.path.join(d, "res", "obcold", f"record_change_x{x}_y{y}_obcold.npy")
            c.expect(os.path.exists(f) and np.load(f).tobytes() == np.hstack(want).tobytes(), "reconstruct:file", lambda: str(c.desc))


def case(c):
    k = c.index % 12
    try:
        if k < 4: case_segment(c, "floodfill")
        elif k == 4: case_segment(c, "watershed")
        elif k == 5: case_segment(c, "slic")
        elif k < 8: case_vote(c)
        elif k < 10: case_files(c)
        else: case_reconstruct(c)
    except Edge:
        c.stats["knife-edge"] += 1; c.nontrivial = False
