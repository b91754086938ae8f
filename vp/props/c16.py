META = dict(technique="runtime monitor: feature extraction, training, prediction and map assembly run on generated record files by concurrent block workers; every feature, training row and map value compared with the pixel's own records",
            level_note="Holds on the explored records, seed maps and worker orders. Most pipelines use a recording stand-in for the random forest, some the real one.",
            N=dict(quick=4000, thorough=40000), kinds=["plain"], level="exploration", cpu=90,
            rule="one case = one tile: features of random segment lists (direct or per block), a seed map for training, or the whole pipeline with concurrent workers; "
                 "non-trivial = at least one pixel had a segment in force",
            must_observe=["feature:a0", "feature:c1", "feature:a1", "feature:b1", "feature:a2", "feature:b2", "feature:a3", "feature:b3", "feature:rmse", "nan-coefficient", "day-is-start", "day-is-last-end", "gap-extended", "fill-year",
                          "empty-block", "missing-file", "non-square", "non-square-grid", "sample:all", "sample:proportional", "sample:max", "sample:min", "sample:absent-category", "foreign-label", "pipeline", "pipeline:real-forest",
                          "pipeline:now", "pipeline:clean", "pipeline:keep", "mask", "other-output-folder", "step2-waited", "bands:6", "partly-fill", "model-given"],
            assumptions=["scikit-learn's random forest computes what it documents"])
import builtins, datetime, os, shutil, threading, time
import joblib
import numpy as np
from osgeo import gdal
from pycold import pyclassifier as pc
from pycold.common import reccg_dt, DatasetInfo
gdal.UseExceptions()
NAN = -9999
NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]
_sleep = time.sleep
class Stuck(Exception): pass


class Model:
    """stands in for the forest: the answer is a fixed function of a row of features"""

    def predict(self, x):
        x = np.ascontiguousarray(x, dtype=np.float32)
        return answer(x)


def answer(x):
    k = np.ascontiguousarray(x, dtype=np.float32).view(np.uint32).astype(np.uint64)
    w = (np.arange(1, k.shape[1] + 1, dtype=np.uint64) * np.uint64(2654435761)) | np.uint64(1)
    return ((((k * w).sum(1)) >> np.uint64(7)) % np.uint64(8)).astype(np.int64) + 1


def segments(r, pos, days, n=None):
    n = int(r.choice([0, 1, 1, 2, 3, 5])) if n is None else n
    a = np.zeros(n, reccg_dt)
    day = int(r.choice(days)) - int(r.choice([0, 1, 20, 200, 800, 2000]))
    for k in range(n):
        a[k]["t_start"] = day
        end = day + int(r.choice([1, 20, 200, 365, 366, 1000, 3000]))
        if r.random() < .3:
            later = [d for d in days if d > day]
            if later: end = int(r.choice(later[:3])) + int(r.choice([-1, 0, 0, 1]))
            end = max(end, day + 1)
        a[k]["t_end"] = end; a[k]["t_break"] = end + 5; a[k]["pos"] = pos; a[k]["num_obs"] = 30
        day = end + int(r.choice([0, 1, 16, 100, 900]))
        if r.random() < .3:
            later = [d for d in days if d > end]
            if later: day = int(later[0])
    a["coefs"] = r.normal(0, 1, a["coefs"].shape) * np.array([3000, 5000, 300, 300, 100, 100, 30, 30])
    a["rmse"] = r.uniform(0, 300, a["rmse"].shape)
    if r.random() < .25:
        a["coefs"][r.random(a["coefs"].shape) < .1] = np.nan
        a["rmse"][r.random(a["rmse"].shape) < .1] = np.nan
    return a


def inforce(a, day):
    for k in range(len(a)):
        if a[k]["t_start"] <= day < (a[k + 1]["t_start"] if k + 1 < len(a) else a[k]["t_end"]):
            return a[k]
    return None


def feature(s, band, day, name):
    """(value, tolerance) of one feature"""
    if s is None:
        return NAN, 0
    c = [float(v) for v in s["coefs"][band]]
    if name == "a0":
        v, t = c[0] + c[1] * day / 10000, 1e-6 * (abs(c[0]) + abs(c[1] * day / 10000))
    else:
        v = float(s["rmse"][band]) if name == "rmse" else c[1] / 10000 if name == "c1" else c[NAMES.index(name)]
        t = 0
    return (0, 0) if np.isnan(v) else (v, t + 1e-6 * abs(v))


def watch(c, a, day):
    """coverage of the segment rule"""
    s = inforce(a, day)
    if len(a):
        c.stats["day-is-start"] += bool((a["t_start"] == day).any()); c.stats["day-is-last-end"] += int(a[-1]["t_end"] == day)
        c.stats["gap-extended"] += s is not None and day >= s["t_end"]; c.stats["fill-year"] += s is None
        c.nontrivial |= s is not None
        c.stats["nan-coefficient"] += s is not None and bool(np.isnan(s["coefs"]).any())
    return s


def expected(c, rec, info, days, names, nb):
    """{(row, col): [year, feature]} and tolerances for a tile"""
    w = np.full((len(days), info.n_rows, info.n_cols, nb * len(names)), float(NAN)); t = np.zeros_like(w)
    for (row, col), a in rec.items():
        for k, day in enumerate(days):
            s = watch(c, a, day)
            if s is None:
                continue
            for b in range(nb):
                for n, name in enumerate(names):
                    w[k, row, col, b * len(names) + n], t[k, row, col, b * len(names) + n] = feature(s, b, day, name)
    return w, t


def tile(r, top=5):
    nx, ny = (int(v) for v in r.choice([1, 2, 2, 3], 2)); bw, bh = (int(v) for v in r.integers(1, top, 2))
    return DatasetInfo(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny)


def block(info, k):
    """rows and columns of block k = 1.."""
    x, y = (k - 1) % info.n_block_x, (k - 1) // info.n_block_x
    return slice(y * info.block_height, (y + 1) * info.block_height), slice(x * info.block_width, (x + 1) * info.block_width), x + 1, y + 1


def near(c, got, want, tol, key, info):
    ok = got.shape == want.shape
    if c.expect(ok, key + ":shape", lambda: f"{got.shape} expected {want.shape} {info()}"):
        bad = ~(np.abs(got.astype(float) - want) <= tol + 1e-6 * np.abs(want))
        c.stats["monitor:" + key] += got.size
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            c.fail(key, f"at {i}: {got[i]} expected {want[i]} ({int(bad.sum())} of {bad.size}) {info()}")
            return False
    return ok


def case_extract(c):
    r = c.rng
    years = sorted({int(v) for v in r.integers(1983, 2022, int(r.integers(1, 8)))})
    days = [datetime.date(y, 7, 1).toordinal() for y in years] if r.random() < .5 else sorted(int(v) for v in r.integers(724000, 738000, len(years)))
    a = segments(r, 1, days, int(r.integers(1, 6)))
    names = [str(v) for v in r.choice(NAMES, int(r.integers(1, 10)), replace=False)]
    band = int(r.integers(0, 7)); fill = int(r.choice([NAN, NAN, -1]))
    c.add_sig(a, names, band, days)
    c.desc = dict(kind="extract", names=names, band=band, days=days); c.data = dict(c.desc, records=a)
    got = pc.extract_features(a, band, days, fill, feature_outputs=names)
    w = np.full((len(names), len(days)), float(fill)); t = np.zeros_like(w)
    for k, day in enumerate(days):
        s = watch(c, a, day)
        for n, name in enumerate(names):
            c.stats["feature:" + name] += 1
            if s is not None:
                w[n, k], t[n, k] = feature(s, band, day, name)
    near(c, np.array([np.asarray(g) for g in got]), w, t, "extract", lambda: f"{c.desc}")
    bad = str(r.choice(["cv", "a4", "", "A0"]))
    if any(inforce(a, d) is not None for d in days):
        try:
            pc.extract_features(a, band, days, fill, feature_outputs=[bad]); c.fail("extract:accepts-unknown", bad)
        except Exception:
            c.stats["monitor:extract:accepts-unknown"] += 1


def counts(label):
    n = [int((label == k).sum()) for k in range(1, 9)]
    out = []
    for v in n:
        k = round(v * 20000 / sum(n))
        k = min(k, 8000); k = max(k, 600)
        out.append(min(k, v))
    return n, out


def case_train(c):
    r = c.rng
    side = [int(v) for v in r.choice([5, 30, 60, 160, 220], 2)]
    if r.random() < .4: side = [int(v) for v in r.integers(150, 260, 2)]
    nf = int(r.integers(1, 4))
    p = r.dirichlet(np.full(10, float(r.choice([.3, 1, 5])))); p[r.integers(0, 10, 2)] = 0
    if p[1:9].sum() == 0: p[3] = 1
    values = np.array([int(r.choice([0, 255])), 1, 2, 3, 4, 5, 6, 7, 8, int(r.choice([9, 0, 10, 255]))])
    label = values[r.choice(10, side, p=p / p.sum())].astype(r.choice(["uint8", "int16", "int32"]))
    label.flat[int(r.integers(0, label.size))] = int(r.integers(1, 9))
    feats = r.normal(0, 1000, (*side, nf)).astype(np.float32)
    feats[..., 0] = np.arange(side[0] * side[1], dtype=np.float32).reshape(side)        # names the pixel
    c.add_sig(label, nf); n, want = counts(label); c.desc = dict(kind="train", side=side, per_category=n); c.data = dict(c.desc, want=want)
    c.nontrivial = True
    for v, k in zip(n, want):
        q = round(v * 20000 / sum(n)) if sum(n) else 0
        c.stats["sample:absent-category" if v == 0 else "sample:all" if k == v else "sample:max" if k == 8000 else "sample:min" if k == 600 and q < 600 else "sample:proportional"] += 1
    c.stats["foreign-label"] += bool(((label < 1) | (label > 8)).any())
    g = np.asarray(pc.generate_sample_num(label, pc.defaults["CLASSIFIER"]))
    c.expect(g.tolist() == want, "sample-number", lambda: f"{g.tolist()} expected {want} {c.desc}")
    info = DatasetInfo(n_rows=side[0], n_cols=side[1], n_block_x=1, n_block_y=1)
    cl = pc.PyClassifier(info, feature_outputs=["a0"], band_num=nf)
    seen = []
    def fit(self, X, y, *a, **k):
        seen.append((np.array(X), np.array(y))); return self
    old = pc.RandomForestClassifier.fit; pc.RandomForestClassifier.fit = fit
    try:
        keep = feats.copy(), label.copy()
        m = cl.train_rfmodel(feats, label)
        m2 = cl.train_rfmodel(feats, label)
    finally:
        pc.RandomForestClassifier.fit = old
    c.expect(isinstance(m, pc.RandomForestClassifier), "train:model", lambda: repr(m))
    if not c.expect(len(seen) == 2, "train:fits-once", lambda: f"{len(seen)} {c.desc}"):
        return
    X, y = seen[0]
    c.expect(np.array_equal(keep[0], feats) and np.array_equal(keep[1], label), "train:arguments-changed")
    c.expect(np.array_equal(X, seen[1][0]) and np.array_equal(y, seen[1][1]), "train:not-reproducible", lambda: str(c.desc))
    if not c.expect(X.shape == (sum(want), nf) and y.shape == (sum(want),), "train:rows", lambda: f"{X.shape} {y.shape} expected {sum(want)} {c.desc}"):
        return
    ids = X[:, 0].astype(np.int64)
    c.expect(len(set(ids.tolist())) == len(ids), "train:pixel-twice", lambda: str(c.desc))
    ok = ((ids >= 0) & (ids < label.size)).all()
    c.expect(ok and np.array_equal(feats.reshape(-1, nf)[ids], X), "train:features", lambda: str(c.desc))
    c.expect(ok and np.array_equal(label.ravel()[ids], y), "train:labels", lambda: str(c.desc))
    c.expect([int((y == k).sum()) for k in range(1, 9)] == want, "train:per-category", lambda: f"{want} {c.desc}")


def case_block(c):
    """features and answers of one block, no files"""
    r = c.rng; info = tile(r, 6)
    years = sorted({int(v) for v in r.integers(1983, 2022, int(r.integers(1, 6)))}); days = [datetime.date(y, 7, 1).toordinal() for y in years]
    names = [str(v) for v in r.choice(NAMES, int(r.integers(1, 5)), replace=False)]; nb = int(r.choice([7, 7, 6, 1]))
    k = int(r.integers(1, info.nblocks + 1)); rows, cols, x, y = block(info, k)
    rec = {}
    for row in range(rows.start, rows.stop):
        for col in range(cols.start, cols.stop):
            rec[row, col] = segments(r, row * info.n_cols + col + 1, days)
    if r.random() < .06: rec = {p: a[:0] for p, a in rec.items()}
    px = [a for a in rec.values()]
    if r.random() < .4: px = [px[i] for i in r.permutation(len(px))]
    arr = np.concatenate(px) if px else np.zeros(0, reccg_dt)
    c.add_sig(arr, years, names, nb); c.desc = dict(kind="block", grid=[info.n_block_x, info.n_block_y], block=[info.block_width, info.block_height], id=k, years=years, names=names, bands=nb)
    c.data = dict(c.desc, records={str(p): a for p, a in rec.items() if len(a)})
    c.stats["empty-block"] += not len(arr); c.stats["bands:%d" % nb] += 1
    cl = pc.PyClassifier(info, feature_outputs=names, band_num=nb)
    keep = arr.copy()
    got = cl.predict_features(k, arr, years)
    c.expect(keep.tobytes() == arr.tobytes(), "block:arguments-changed")
    w, t = expected(c, rec, info, days, names, nb)
    n = info.block_width * info.block_height
    if not near(c, got, w[:, rows, cols].reshape(len(years), n, -1), t[:, rows, cols].reshape(len(years), n, -1), "block:features", lambda: str(c.desc)):
        return
    for q in range(len(years)):
        f = got[q]
        if r.random() < .4:                     # a pixel with only some fill features is classified
            f = f.copy(); i = int(r.integers(0, n)); f[i, 0] = NAN
            if f.shape[1] > 1: f[i, 1] = 1.5; c.stats["partly-fill"] += 1
        m = np.asarray(cl.classification_block(Model(), f.copy()))
        e = answer(f); none = (f == NAN).all(1); e[none] = 255; c.stats["mask"] += bool(none.any())
        c.expect(m.shape == (info.block_height, info.block_width) and np.array_equal(m.ravel(), e), "block:classes", lambda: f"{m.tolist()} expected {e.tolist()} {c.desc}")


def case_pipeline(c):
    r = c.rng; info = tile(r)
    ref = int(r.choice([2001, 2001, r.integers(1990, 2015)]))
    years = sorted({int(v) for v in r.integers(1990, 2015, int(r.integers(1, 4)))} | {ref}); days = [datetime.date(y, 7, 1).toordinal() for y in years]
    names = [str(v) for v in r.choice(NAMES, int(r.integers(1, 4)), replace=False)]; nb = int(r.choice([7, 7, 6]))
    real = r.random() < .25; given = not real and r.random() < .4; now = r.random() < .25; clean = bool(r.random() < .5); other = r.random() < .5
    c.desc = dict(kind="pipeline", grid=[info.n_block_x, info.n_block_y], block=[info.block_width, info.block_height], years=years, ref=ref, names=names, bands=nb, real=real, given=given, now=now, clean=clean, other=other)
    c.add_sig(c.index, c.desc); d = os.path.join(c.tmp, "cl"); shutil.rmtree(d, ignore_errors=True); src = os.path.join(d, "rec"); os.makedirs(src)
    rec = {}
    for k in range(1, info.nblocks + 1):
        rows, cols, x, y = block(info, k)
        if r.random() < .1:
            c.stats["missing-file"] += 1
            continue
        px = []
        for row in range(rows.start, rows.stop):
            for col in range(cols.start, cols.stop):
                a = segments(r, row * info.n_cols + col + 1, days); px.append(a); rec[row, col] = a
        if r.random() < .3: px = [px[i] for i in r.permutation(len(px))]
        np.save(os.path.join(src, f"record_change_x{x}_y{y}_cold.npy"), np.concatenate(px))
    c.data = dict(c.desc, records={str(p): a for p, a in rec.items() if len(a)})
    label = r.integers(0, 10, (info.n_rows, info.n_cols)).astype(np.uint8); label.flat[0] = 3
    seed = os.path.join(d, "seed.tif"); ds = gdal.GetDriverByName("GTiff").Create(seed, info.n_cols, info.n_rows, 1, gdal.GDT_Byte); ds.GetRasterBand(1).WriteArray(label); ds = None
    rf = None
    if given:
        rf = os.path.join(d, "mine.model"); joblib.dump(Model(), rf); c.stats["model-given"] += 1
    tmp = os.path.join(d, "tmp") if r.random() < .6 else None; out = os.path.join(d, "out") if other else None
    c.stats["other-output-folder"] += other
    mk = lambda: pc.PyClassifierHPC(info, src, band_num=nb, year_list_to_predict=list(years), tmp_path=tmp, output_path=out, feature_outputs=names, seedmap_path=seed, rf_path=rf)
    tp = tmp or os.path.join(src, "feature_maps"); op = out or os.path.join(src, "feature_maps")
    w, t = expected(c, rec, info, days, names, nb)
    log, saw, fits = [], {}, []
    order = [int(v) for v in r.permutation(info.nblocks) + 1]; nw = int(r.integers(1, 4)); jit = r.integers(0, 4, 64)
    calls = iter(range(10 ** 9)); polls = {}; given_up, extra, joining, events = [], [], set(), [0]
    def sleep(s):
        me = threading.get_ident(); polls[me] = polls.get(me, 0) + 1
        if given_up: raise Stuck("all live workers wait for each other")
        log.append(s); _sleep(.001 + .001 * int(jit[next(calls) % 64]))
    def fit(self, X, y, *a, **k):
        fits.append((np.array(X), np.array(y)))
        if real: return fit0(self, X, y, *a, **k)
        return self
    fit0 = pc.RandomForestClassifier.fit
    pred0 = pc.RandomForestClassifier.predict
    pc.RandomForestClassifier.fit = fit; time.sleep = sleep
    io0 = np.save, np.load, builtins.open
    def counted(f):
        def g(*a, **k):
            events[0] += 1
            return f(*a, **k)
        return g
    np.save, np.load, builtins.open = map(counted, io0)
    if not real: pc.RandomForestClassifier.predict = lambda self, x: answer(np.asarray(x))
    errors = []; marks = os.path.join(tp, "tmp_step3_classification_{}_finished.txt")
    def work(me):
        try:
            cl = mk()
            cl.hpc_preparation()
            if me == 0 and not given and jit[0] % 2:        # the trainer may come before the features
                n0 = len(log); first = threading.Thread(target=guard, args=(cl.step2_train_rf, ref)); first.start(); extra.append(first)
            else: first = None
            for b in order[me::nw]:
                _sleep(.001 * int(jit[b % 64])); cl.step1_feature_generation(b)
            if me == 0 and not given:
                joining.add(threading.get_ident())
                if first: first.join()
                joining.clear()
                if not first: cl.step2_train_rf(ref_year=None if ref == 2001 and jit[1] % 2 else ref)
            for b in order[me::nw]:
                if now:
                    np.save(os.path.join(tp, f"tmp_feature_now_block{b}.npy"), np.load(os.path.join(tp, f"tmp_feature_year{ref}_block{b}.npy")))
                    cl.step3_classification_sccd(b)
                    if jit[b % 64] == 0 and not clean: cl.step3_classification_sccd(b)
                else: cl.step3_classification(b)
            if me == nw - 1:
                while not cl._is_finished_step3_classification(): sleep(.002)
                for f in os.listdir(tp):
                    if f.startswith("tmp_feature_year"): saw[f] = np.load(os.path.join(tp, f))
                if not now: c.expect(not cl.is_finished_step4_assemble(), "pipeline:finished-too-early")
                (cl.step4_assemble_sccd if now else cl.step4_assemble)(clean=clean)
                if not now: c.expect(bool(cl.is_finished_step4_assemble()), "pipeline:never-finished")
        except Exception as e:
            import traceback
            errors.append(traceback.format_exc()[-900:])
            for b in range(1, info.nblocks + 1):         # let the others go
                for f in (f"tmp_step1_predict_{b}_finished.txt", f"tmp_step3_classification_{b}_finished.txt"):
                    open(os.path.join(tp, f), "w").close() if os.path.isdir(tp) else None
            raise SystemExit
    def guard(f, *a):
        try: f(*a)
        except Exception:
            import traceback
            errors.append(traceback.format_exc()[-900:])
    try:
        mk().hpc_preparation()
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nw)]
        for th in ts: th.start()
        base = None; t0 = time.time()
        while any(th.is_alive() for th in ts) and time.time() - t0 < 100:
            _sleep(.002)
            live = tuple(th.ident for th in ts + extra if th.is_alive()), events[0]
            if base is None or base[0] != live: base = live, dict(polls)
            elif live[0] and all(polls.get(k, 0) - base[1].get(k, 0) > 1500 or k in joining for k in live[0]) and any(k not in joining for k in live[0]):      # nobody has done anything but poll
                given_up.append(1)
                for th in ts: th.join(20)
                return c.fail("pipeline:waits-forever", f"{len(log)} polls {c.desc}")
        stuck = any(th.is_alive() for th in ts)
    finally:
        time.sleep = _sleep; np.save, np.load, builtins.open = io0; pc.RandomForestClassifier.fit = fit0; pc.RandomForestClassifier.predict = pred0
    if errors:
        return c.fail("pipeline:raises", errors[0] + str(c.desc))
    if stuck:
        return c.soft("pipeline workers did not end")
    c.stats["pipeline"] += 1; c.stats["pipeline:real-forest"] += real; c.stats["pipeline:now"] += now; c.stats["pipeline:clean" if clean else "pipeline:keep"] += 1
    c.stats["non-square"] += info.n_rows != info.n_cols; c.stats["non-square-grid"] += info.n_block_x != info.n_block_y; c.stats["step2-waited"] += len(log) > 1
    n = info.block_width * info.block_height
    whole = np.full((len(years), info.n_rows, info.n_cols, nb * len(names)), np.nan, np.float32)
    for q, yr in enumerate(years):
        for b in range(1, info.nblocks + 1):
            f = f"tmp_feature_year{yr}_block{b}.npy"
            if not c.expect(f in saw, "pipeline:feature-files", lambda: f"{f} missing {c.desc}"):
                return
            rows, cols, _, _ = block(info, b)
            if not near(c, saw[f], w[q][rows, cols].reshape(n, -1), t[q][rows, cols].reshape(n, -1), "pipeline:features", lambda: f"{f} {c.desc}"):
                return
            whole[q][rows, cols] = saw[f].reshape(info.block_height, info.block_width, -1)
    if not given:
        if c.expect(len(fits) == 1, "pipeline:trains-once", lambda: f"{len(fits)} {c.desc}"):
            X, y = fits[0]
            for k in range(1, 9):
                a = sorted(X[y == k].tolist()); e = sorted(whole[years.index(ref)][label == k].astype(np.float32).tolist())
                c.expect(a == e, "pipeline:training-rows", lambda: f"category {k}: {len(a)} rows expected {len(e)} {c.desc}")
    model = joblib.load(rf or os.path.join(op, "rf.model")) if real or given else None
    want_files = set()
    for yr in (["now"] if now else years):
        f = whole[years.index(ref if now else yr)].reshape(info.n_rows * info.n_cols, -1)
        e = (model.predict(f) if real else answer(f)).astype(np.int64); e[(f == NAN).all(1)] = 255; c.stats["mask"] += bool((e == 255).any())
        p = os.path.join(op, f"yearlyclassification_{yr}.npy"); want_files.add(os.path.basename(p))
        if c.expect(os.path.exists(p), "pipeline:map-missing", lambda: f"{p} {c.desc}"):
            g = np.load(p)
            c.expect(g.shape == (info.n_rows, info.n_cols) and np.array_equal(g.astype(np.int64).ravel(), e), "pipeline:map", lambda: f"year {yr}: {g.tolist()} expected {e.reshape(info.n_rows, info.n_cols).tolist()} {c.desc}")
    if not given: want_files.add("rf.model")
    if clean:
        c.expect(not any(f.startswith("tmp_") for f in os.listdir(tp)), "pipeline:temporary-files-left", lambda: str(sorted(os.listdir(tp))[:5]))
    c.expect({f for f in os.listdir(op) if not f.startswith("tmp_")} == want_files, "pipeline:files", lambda: f"{sorted(os.listdir(op))[:9]} expected {sorted(want_files)} {c.desc}")
    c.expect(sorted(f for f in os.listdir(src) if f.startswith("record")) == sorted(f"record_change_x{block(info, b)[2]}_y{block(info, b)[3]}_cold.npy" for b in range(1, info.nblocks + 1) if (block(info, b)[0].start, block(info, b)[1].start) in rec), "pipeline:records-touched")


def case(c):
    k = c.index % 10
    if k < 3: case_extract(c)
    elif k < 6: case_block(c)
    elif k < 7: case_train(c)
    else: case_pipeline(c)
