META = dict(technique="runtime monitor: the tile processor run by real worker processes with injected delays, kills at chosen file events, I/O errors, failing pixels and restarts; results on disk compared with per-pixel API calls and with an undisturbed run",
            level_note="Holds on the explored tiles, worker counts, schedules and interruption points (any file write: before, in the middle, after; one or more workers; the dead or all workers restarted).",
            N=dict(quick=240, thorough=5000), kinds=["plain"], level="exploration", cpu=120, 
            rule="one case = one tile (stack folders of a few blocks) processed by 1-5 worker processes, with 0-3 interrupted rounds; non-trivial = more than one worker or an interruption",
            must_observe=["COLD", "OBCOLD", "SCCDOFFLINE", "seedmap", "bounds", "b_c2", "empty-block", "failing-pixel", "workers:1", "workers:2", "more-workers-than-blocks", "killed", "killed:before", "killed:middle", "killed:after", "io-error",
                          "restart:all", "restart:dead", "two-rounds", "delays", "records", "cm-maps", "obia-results", "obcold-records", "reconstructed-breaks", "rerun-finished", "packs", "report", "several-blocks-per-worker", "slow-worker", "killed-while-publishing"],
            assumptions=["a killed worker stops between two system calls (no power failure: what was written stays written)", "the per-pixel algorithms behave as C01-C08 check"])
import builtins, datetime, hashlib, inspect, io, mmap, os, pickle, shutil, signal, struct, sys, time
import joblib
import numpy as np
import yaml
from osgeo import gdal
from scipy.stats import chi2
import pycold
from pycold import utils, cold_detect, sccd_detect, obcold_reconstruct
from pycold.common import DatasetInfo
from pycold.imagetool import tile_processing as tp
from vp import gen
gdal.UseExceptions()
_sleep, _save, _load, _open, _replace = time.sleep, np.save, np.load, builtins.open, os.replace
STUCK = 400            # polls of every live worker without any file event
MAXR = 8
TARGETS = {("COLD", False): ["record_change", "finished"], ("SCCDOFFLINE", False): ["pickle", "record_change", "finished"],
           ("OBCOLD", False): ["CM_x", "CM_date_x", "publish CM_maps", "publish CM_date", "publish obia", "tmp_OBIA", "_obcold", "report", "finished"],
           ("OBCOLD", True): ["tmp_feature", "tmp_step1", "model", "publish rf", "tmp_yearly", "tmp_step3", "publish yearly", "publish yearly", "publish obia", "_obcold"]}


class Shared:
    """event and poll counters of the workers, readable while they run"""

    def __init__(self):
        self.m = mmap.mmap(-1, 16 * (MAXR + 1)); self.reset()

    def reset(self):
        self.m[:] = b"\0" * len(self.m)

    def add(self, rank, k):
        o = 16 * rank + 8 * k
        struct.pack_into("q", self.m, o, struct.unpack_from("q", self.m, o)[0] + 1)

    def get(self, rank):
        return struct.unpack_from("qq", self.m, 16 * rank)


def child(rank, n, call, plan, shared, seed, fails, log):
    """a worker process; plan = (event number, when) or None"""
    r = np.random.default_rng([seed, rank])
    count = [0]
    delays, slow = plan.get("delays"), plan.get("slow", 0)

    def event(name, half=None):
        """one write to the file system; returns 'middle' if it has to stop in the middle"""
        count[0] += 1
        shared.add(rank, 0)
        if delays and r.random() < .3:
            _sleep(float(r.choice([.0005, .002, .01])))
        if slow: _sleep(slow)
        if plan.get("on") and plan["on"] in name:
            plan["nth"] -= 1
        if plan.get("at") == count[0] or plan.get("on") and plan["on"] in name and plan["nth"] == 0:
            with _open(log, "a") as f:
                f.write(f"{rank} {plan['when']} {name}\n")
            if plan["when"] == "before" or plan["when"] == "middle" and half is None:
                os._exit(9)
            if plan["when"] == "error":
                raise OSError(28, "No space left on device", name)
            if plan["when"] == "middle":
                half(); os._exit(9)
            return True
        return False

    def after(stop):
        if stop: os._exit(9)

    def save(f, a, *k, **kw):
        b = io.BytesIO(); _save(b, a, *k, **kw); b = b.getvalue()
        cut = int(r.integers(0, len(b)))
        name = f if isinstance(f, str) else getattr(f, "name", "?")
        fd = _open(f, "wb") if isinstance(f, (str, os.PathLike)) else f
        def half():
            fd.write(b[:cut]); fd.flush()
        stop = False
        try:
            stop = event("save " + os.path.basename(str(name)), half)
            if delays and r.random() < .5:
                half(); _sleep(float(r.choice([.001, .005, .02]))); fd.write(b[cut:])
            else:
                fd.write(b)
            fd.flush()
        finally:
            if fd is not f: fd.close()
        after(stop)

    def dump(o, f, *a, **k):
        b = pickle.dumps(o)
        def half():
            f.write(b[:len(b) // 2]); f.flush()
        stop = event("pickle", half)
        f.write(b)
        if stop: f.flush()
        after(stop)

    def jdump(o, f, *a, **k):
        def half():
            with _open(f, "wb") as g: g.write(b"\x78\x9c half")
        stop = event("model", half)
        if delays:
            half(); _sleep(.01)
        x = joblib_dump(o, f, *a, **k)
        after(stop); return x

    def op(f, mode="r", *a, **k):
        if "w" in mode and isinstance(f, (str, os.PathLike)) and not str(f).startswith("/dev"):
            stop = event("open " + os.path.basename(str(f)))
            x = _open(f, mode, *a, **k)
            if stop: x.flush(); after(stop)
            return x
        return _open(f, mode, *a, **k)

    def replace(a, b, *k, **kw):
        stop = event("publish " + os.path.basename(str(b)))
        _replace(a, b, *k, **kw)
        after(stop)

    def load(*a, **k):
        if slow: _sleep(slow)
        return _load(*a, **k)

    def sleep(t):
        shared.add(rank, 1)
        _sleep(.001)

    def guard(f):
        sig = inspect.signature(f)
        def g(*a, **k):
            if sig.bind(*a, **k).arguments.get("pos") in fails: raise RuntimeError("injected failure of a pixel")
            return f(*a, **k)
        return g
    rc = 0
    try:
        signal.setitimer(signal.ITIMER_PROF, 0)
        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1)
        er = os.open(log + f".err{rank}", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644); os.dup2(er, 2)
        joblib_dump = joblib.dump
        time.sleep, np.save, np.load, builtins.open, os.replace, joblib.dump = sleep, save, load, op, replace, jdump
        tp.pickle = type("P", (), dict(dump=staticmethod(dump), load=staticmethod(pickle.load)))
        for name in ("cold_detect", "sccd_detect"):
            f = getattr(pycold, name); g = guard(f)
            for m in [m for k, m in sys.modules.items() if k.split(".")[0] == "pycold"]:
                if getattr(m, name, None) is f: setattr(m, name, g)
        tp.main.callback(rank=rank, n_cores=n, **call)
    except SystemExit as e:
        rc = 3
    except BaseException:
        import traceback
        traceback.print_exc(file=_open(log + f".err{rank}", "a"))
        rc = 1
    finally:
        try:
            sys.stderr.flush()
        finally:
            os._exit(rc)


def run(c, n, call, plans, seed, fails, log, only=None):
    """starts the workers, waits until each has ended or none can make progress; {rank: exit code or None}"""
    shared = Shared(); pid = {}
    order = list(range(1, n + 1))
    np.random.default_rng([seed, 99]).shuffle(order)
    for rank in order:
        if only is not None and rank not in only: continue
        p = os.fork()
        if p == 0:
            child(rank, n, call, plans.get(rank, {}), shared, seed, fails, log)
        pid[rank] = p
        if plans.get("stagger"): _sleep(.01)
    rc = {}; base = None; t0 = time.time()
    while len(rc) < len(pid):
        for k, p in pid.items():
            if k not in rc:
                q, s = os.waitpid(p, os.WNOHANG)
                if q: rc[k] = os.waitstatus_to_exitcode(s); base = None
        live = [k for k in pid if k not in rc]
        if not live: break
        now = {k: shared.get(k) for k in live}
        ev = sum(v[0] for v in now.values())
        if base is None or base[0] != ev:
            base = (ev, {k: v[1] for k, v in now.items()})
        elif all(now[k][1] - base[1].get(k, 0) > STUCK for k in live):        # everybody has been polling in vain
            for k in live:
                os.kill(pid[k], signal.SIGKILL); os.waitpid(pid[k], 0); rc[k] = None
            break
        if time.time() - t0 > 100:
            for k in live:
                os.kill(pid[k], signal.SIGKILL); os.waitpid(pid[k], 0)
            return None, shared
        _sleep(.002)
    return rc, shared


def pixels(r, dates, n, w):
    """(8, dates) of one pixel; w = tile-wide shift of the region it belongs to (or None)"""
    m = len(dates)
    p = gen.series(r, n=m, mode="16day", start=int(dates[0]), breaks=int(r.choice([0, 0, 1, 2])), noise=float(r.choice([20, 50])), cloud=float(r.choice([.05, .3, .6])), snow=float(r.choice([0, .1])))
    b = p.b.astype(float)
    if w is not None:
        day, shift, dur = w
        k = (dates >= day) & (dates < day + dur)
        b[:6, k] += shift[:, None]
    x = np.vstack([b, p.qa])
    kind = r.random()
    if kind < .05: x[7] = 255; x[:7] = -9999            # never observed
    elif kind < .1: x[7] = r.choice([2, 3, 4], m)
    elif kind < .13: x[7, r.random(m) < .9] = 4
    return np.clip(np.rint(x), -32000, 32000).astype(np.int16)


def tile(c, r, method):
    """writes the stack; returns everything the oracle needs"""
    nx, ny = (int(v) for v in r.choice([1, 1, 2, 2, 3], 2)); bw, bh = (int(v) for v in r.integers(1, 4, 2))
    if method == "OBCOLD": bw, bh = bw + 1, bh + 1
    R, C = ny * bh, nx * bw
    root = os.path.join(c.tmp, "tile"); shutil.rmtree(root, ignore_errors=True)
    stack = os.path.join(root, "stack"); os.makedirs(stack)
    n = int(r.integers(60, 170)) if r.random() < .85 else int(r.integers(1, 40))
    step = int(r.choice([8, 16, 16]))
    start = int(r.integers(725000, 736000))
    dates = start + np.cumsum(r.choice([step, step, step, 2 * step], n))
    region = np.zeros((R, C), bool)
    w = None
    if r.random() < .8:
        w = (int(r.integers(dates[n // 3], dates[-1] + 1)), r.normal(0, 1, 6) * float(r.choice([500, 1000])), int(r.choice([200, 5000])))
        y, x = int(r.integers(0, R)), int(r.integers(0, C))
        region[max(0, y - 2):y + 3, max(0, x - 2):x + 3] = True
    cube = {}
    for row in range(R):
        for col in range(C):
            cube[row, col] = pixels(r, dates, n, w if region[row, col] else None)
    have = {}                       # block -> indexes of the scenes it has
    sensor = [str(s) for s in r.choice(["LT5", "LE7", "LC8", "LT4", "S2A"], n)]
    for by in range(ny):
        for bx in range(nx):
            os.makedirs(os.path.join(stack, f"block_x{bx + 1}_y{by + 1}"))
            idx = np.arange(n)
            k = r.random()
            if k < .08: idx = idx[:0]
            elif k < .5: idx = idx[r.random(n) < .9]
            have[bx, by] = idx
            for i in idx:
                day = datetime.date.fromordinal(int(dates[i]))
                a = np.stack([np.stack([cube[by * bh + j, bx * bw + k2][:, i] for k2 in range(bw)]) for j in range(bh)])
                _save(os.path.join(stack, f"block_x{bx + 1}_y{by + 1}", f"{sensor[i]}018032{day.year}{day.timetuple().tm_yday:03d}C1V01.npy"), a)
    # dates equal to an ordinal day name scenes uniquely
    first, last = int(dates[0]) - int(r.choice([0, 0, 7])), int(dates[-1]) + int(r.choice([0, 0, 20]))
    with open(os.path.join(stack, "starting_last_dates.txt"), "w") as f:
        f.write(f"{first}\n{last}\n")
    return dict(root=root, stack=stack, nx=nx, ny=ny, bw=bw, bh=bh, R=R, C=C, dates=dates, cube=cube, have=have, first=first, last=last, n=n)


def bands(x):
    return [np.ascontiguousarray(x[k]).astype(np.int64) for k in range(8)]


def blocks(t):
    for by in range(t["ny"]):
        for bx in range(t["nx"]):
            yield by * t["nx"] + bx + 1, bx, by


def members(t, bx, by):
    for j in range(t["bh"]):
        for i in range(t["bw"]):
            row, col = by * t["bh"] + j, bx * t["bw"] + i
            yield row, col, row * t["C"] + col + 1


def digest(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".npy"):
                out[os.path.relpath(os.path.join(p, f), d)] = hashlib.blake2b(open(os.path.join(p, f), "rb").read()).hexdigest()
    return out


def eq(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def case(c):
    r = c.rng
    method = str(r.choice(["COLD", "OBCOLD", "OBCOLD", "SCCDOFFLINE"]))
    t = tile(c, r, method)
    c2 = bool(r.random() < .4); conse = int(r.choice([6, 6, 4, 8 if method != "COLD" else 3])); pr = float(r.choice([.99, .99, .95])) if method != "OBCOLD" else .99
    interval = int(max(r.choice([32, 60, 120, 365]), (t["last"] - t["first"] + 1) // 24 + 1))
    n_cm = int((t["last"] - t["first"] + 1) / interval) + 1
    lo = hi = None
    if r.random() < .4:
        a, b = np.sort(r.choice(t["dates"], 2))
        if r.random() < .7: a, b = t["dates"][min(t["n"] - 1, int(r.integers(0, 5)))], t["dates"][max(0, t["n"] - int(r.integers(1, 6)))]
        lo = int(a) + int(r.choice([0, 1])) if r.random() < .8 else None
        hi = int(b) - int(r.choice([0, 1])) if r.random() < .8 else None
    iso = lambda d: None if d is None else datetime.date.fromordinal(d).isoformat()
    cfg = os.path.join(t["root"], "config.yaml")
    with open(cfg, "w") as f:
        yaml.safe_dump(dict(DATASETINFO=dict(n_rows=t["R"], n_cols=t["C"], n_block_x=t["nx"], n_block_y=t["ny"]), ALGORITHMINFO=dict(probability_threshold=pr, conse=conse, CM_OUTPUT_INTERVAL=interval)), f)
    seedmap = None; year = None
    y0 = datetime.date.fromordinal(t["first"]).year; y1 = datetime.date.fromordinal(t["first"] + (n_cm - 1) * interval).year
    if method == "OBCOLD" and r.random() < .5 and y1 - y0 >= 2:
        seedmap = os.path.join(t["root"], "seed.tif")
        ds = gdal.GetDriverByName("GTiff").Create(seedmap, t["C"], t["R"], 1, gdal.GDT_Byte)
        ds.GetRasterBand(1).WriteArray(r.integers(1, 9, (t["R"], t["C"])).astype(np.uint8)); ds = None
        year = int(r.integers(y0, y1))
    fails = set()
    if r.random() < .4:
        fails = {int(v) for v in r.integers(1, t["R"] * t["C"] + 1, int(r.integers(1, 4)))}
        if r.random() < .15: fails = set(range(1, t["R"] * t["C"] + 1))
    n = int(r.choice([1, 2, 2, 3, 5])); nb = t["nx"] * t["ny"]
    res = os.path.join(t["root"], "result")
    call = dict(stack_path=t["stack"], result_path=res, yaml_path=cfg, method=method, seedmap_path=seedmap, low_datebound=iso(lo), upper_datebound=iso(hi), b_c2=c2, seedmap_year=year)
    rounds = int(r.choice([0, 1, 1, 2, 3])); seed = int(r.integers(0, 2**31)); delays = bool(r.random() < .6)
    c.add_sig(method, t["R"], t["C"], nb, t["dates"], n, rounds, seed, sorted(fails), lo, hi)
    what = dict(method=method, grid=[t["nx"], t["ny"]], block=[t["bh"], t["bw"]], scenes=t["n"], workers=n, b_c2=c2, conse=conse, probability=pr, interval=interval, n_cm=n_cm, bounds=[iso(lo), iso(hi)],
                seedmap=bool(seedmap), year=year, failing=sorted(fails)[:5], rounds=rounds, delays=delays)
    c.desc = what; c.data = what
    c.nontrivial = n > 1 or rounds > 0
    c.stats[method] += 1; c.stats["seedmap"] += bool(seedmap); c.stats["bounds"] += bool(lo or hi); c.stats["b_c2"] += c2; c.stats["failing-pixel"] += len(fails) > 0
    c.stats["workers:%d" % n] += 1; c.stats["more-workers-than-blocks"] += n > nb; c.stats["several-blocks-per-worker"] += nb > n; c.stats["delays"] += delays; c.stats["two-rounds"] += rounds > 1
    log = os.path.join(t["root"], "events"); open(log, "w").close()
    said = lambda: f"{what} events={open(log).read().splitlines()} errors={errs()}"

    def errs():
        out = {}
        for k in range(1, n + 1):
            if os.path.exists(log + f".err{k}"):
                x = open(log + f".err{k}").read()
                if x: out[k] = x[-500:]
        return out
    # undisturbed run by one worker: for the map-based products
    ref = os.path.join(t["root"], "reference")
    if method == "OBCOLD":
        rc, _ = run(c, 1, dict(call, result_path=ref), {}, seed, fails, log + "0")
        if rc is None: return c.soft("time limit")
        if rc.get(1) != 0:
            return c.fail("undisturbed:" + ("stuck" if rc.get(1) is None else "fails"), f"exit {rc}; {what}; {open(log + '0.err1').read()[-900:]}")
    snail = int(r.integers(1, n + 1)) if delays and n > 1 and r.random() < .3 else None
    c.stats["slow-worker"] += snail is not None
    total = 40 if method != "OBCOLD" else 90
    only = None
    for k in range(rounds):
        plans = {}
        for rank in range(1, n + 1):
            plans[rank] = dict(delays=delays, slow=.03 if rank == snail else 0)
            if r.random() < .7 and (only is None or rank in only):
                plans[rank].update(when=str(r.choice(["before", "middle", "after", "middle", "error"])))
                if r.random() < .5: plans[rank].update(at=int(np.exp(r.uniform(0, np.log(max(3, total / n))))))
                else: plans[rank].update(on=str(r.choice(TARGETS[method, bool(seedmap)])), nth=int(r.choice([1, 1, 2, 5])))
        plans["stagger"] = r.random() < .3
        rc, _ = run(c, n, call, plans, seed + k, fails, log, only)
        if rc is None: return c.soft("time limit")
        for line in open(log).read().splitlines():
            pass
        for rank, v in rc.items():
            p = plans[rank]
            if v == 9: c.stats["killed"] += 1; c.stats["killed:" + p["when"]] += 1
            elif v == 1 and p.get("when") == "error": c.stats["io-error"] += 1
            elif v not in (0, None):
                bad = "fails-beside-interrupted"
                if any(x in (9, 1) for q, x in rc.items() if q != rank): c.stats["died-beside-interrupted"] += 1
                return c.fail(bad, f"worker {rank} exit {v} of {rc}; {said()}")
            elif v is None and not any(x not in (0, None) for x in rc.values()):
                return c.fail("stuck", f"{rc}; {said()}")
        dead = {q for q, v in rc.items() if v != 0}
        if not dead: break
        if r.random() < .5: only = set(dead); c.stats["restart:dead"] += 1
        else: only = None; c.stats["restart:all"] += 1
    c.stats["killed-while-publishing"] += "publish" in open(log).read()
    plans = {k: dict(delays=delays, slow=.03 if k == snail else 0) for k in range(1, n + 1)}; plans["stagger"] = r.random() < .3
    rc, _ = run(c, n, call, plans, seed + 77, fails, log, only)
    if rc is None: return c.soft("time limit")
    if not c.expect(all(v == 0 for v in rc.values()), "completes", lambda: f"workers ended with {rc}; {said()}"):
        return
    check(c, t, res, method, c2, conse, pr, interval, n_cm, lo, hi, fails, said)
    if method == "OBCOLD" and not c.violations:
        a, b = digest(ref), digest(res)
        a = {k: v for k, v in a.items() if "tmp" not in k}; b = {k: v for k, v in b.items() if "tmp" not in k}
        diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        c.expect(not diff, "same-as-undisturbed", lambda: f"{diff[:5]}; {said()}")
    if r.random() < .3 and not c.violations:                     # everything is finished: running again changes nothing
        c.stats["rerun-finished"] += 1
        a = digest(res)
        rc, _ = run(c, n, call, {}, seed + 78, fails, log)
        if rc is None: return c.soft("time limit")
        b = digest(res)
        c.expect(all(v == 0 for v in rc.values()) and a == b, "rerun", lambda: f"workers ended with {rc}, changed {sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:5]}; {said()}")


def check(c, t, res, method, c2, conse, pr, interval, n_cm, lo, hi, fails, said):
    thr = chi2.ppf(pr, 5)
    cmfull = {k: np.full((n_cm, t["R"], t["C"]), -9999, d) for k, d in (("CM", np.int16), ("CM_date", np.int32))}
    names = set(os.listdir(res))
    expected = set()
    for b, bx, by in blocks(t):
        idx = [i for i in t["have"][bx, by] if (lo is None or t["dates"][i] >= lo) and (hi is None or t["dates"][i] <= hi)]
        d = np.ascontiguousarray(t["dates"][idx]).astype(np.int64)
        tag = f"x{bx + 1}_y{by + 1}"
        expected.add(f"COLD_block{b}_finished.txt")
        c.stats["empty-block"] += not idx
        recs = []; packs = []; obs = []
        cms, cds = [], []
        oc = []
        files = sorted((f for f in os.listdir(os.path.join(res, "OBIAresults")) if f.startswith("obiaresult_") and f.endswith(f"_{tag}.npy")), key=lambda f: int(f[11:17])) if method == "OBCOLD" else []
        if method == "OBCOLD":
            want = [t["first"] + k * interval for k in range(n_cm)]
            if not c.expect([int(f[11:17]) for f in files] == want, "obia-dates", lambda: f"block {tag}: {files} expected days {want}; {said()}"): return
            br = np.stack([np.load(os.path.join(res, "OBIAresults", f)).reshape(-1) for f in files]); c.stats["obia-results"] += len(files)
            c.stats["reconstructed-breaks"] += bool((br > 0).any())
        for k, (row, col, pos) in enumerate(members(t, bx, by)):
            if not idx: 
                cms.append(np.full(n_cm, -9999, np.int16)); cds.append(cms[-1]); continue
            x = bands(t["cube"][row, col][:, idx])
            cm = cd = np.full(n_cm, -9999, np.int16)
            try:
                if pos in fails: raise RuntimeError
                if method == "COLD": recs.append(cold_detect(d, *x, t_cg=thr, conse=conse, b_c2=c2, pos=pos))
                elif method == "SCCDOFFLINE": packs.append(sccd_detect(d, *x, t_cg=thr, conse=conse, b_c2=c2, pos=pos))
                else:
                    a, cm, cd = cold_detect(d, *x, pos=pos, conse=conse, starting_date=t["first"], n_cm=n_cm, b_c2=c2, cm_output_interval=interval, b_output_cm=True)
                    recs.append(a)
            except Exception:
                c.stats["pixel-without-result"] += 1
            cms.append(cm); cds.append(cd)
            if method == "OBCOLD":
                try: oc.append(obcold_reconstruct(d, *x, br[:, k].astype(np.int64), conse=conse, b_c2=c2, pos=pos))
                except Exception: pass
        if method == "SCCDOFFLINE":
            f = f"record_change_{tag}_sccd.npy"
            if idx:
                expected.add(f)
                got = []
                if c.expect(f in names, "packs:file", lambda: f"{f} missing; {said()}"):
                    with open(os.path.join(res, f), "rb") as h:
                        try:
                            while True: got.append(pickle.load(h))
                        except EOFError: pass
                        except Exception as e: got.append(repr(e))
                    c.stats["packs"] += len(got)
                    same = len(got) == len(packs)
                    if same:
                        for g, w in zip(got, packs):
                            g = utils.index_sccdpack(g)
                            same = same and int(g.position) == int(w.position) and int(g.nrt_mode) == int(w.nrt_mode) and list(g.min_rmse) == list(w.min_rmse)
                            for a, q in ((g.rec_cg, w.rec_cg), (g.nrt_model, w.nrt_model), (g.nrt_queue, w.nrt_queue)):
                                a, q = np.asarray(a), np.asarray(q)
                                same = same and len(a) == len(q) and (len(a) == 0 or str(a.tolist()) == str(q.tolist()))
                    c.expect(same, "packs", lambda: f"block {tag}: {len(got)} packs at {[int(g[0]) if not isinstance(g, str) else g for g in got][:12]}, expected {len(packs)} at {[int(w.position) for w in packs][:12]}; {said()}")
            continue
        f = f"record_change_{tag}_cold.npy"
        if recs:
            expected.add(f)
            if c.expect(f in names, "records:file", lambda: f"{f} missing; {said()}"):
                got, want = np.load(os.path.join(res, f)), np.hstack(recs)
                c.stats["records"] += len(want)
                c.expect(eq(got, want), "records", lambda: f"block {tag}: {got['pos'].tolist()[:20]} {got['t_break'].tolist()[:20]} expected {want['pos'].tolist()[:20]} {want['t_break'].tolist()[:20]}; {said()}")
        if method == "OBCOLD":
            for kind, arr in (("CM", cms), ("CM_date", cds)):
                f = f"{kind}_{tag}.npy"; expected.add(f)
                want = np.hstack(arr)
                if c.expect(f in names, "cm:file", lambda: f"{f} missing; {said()}"):
                    got = np.load(os.path.join(res, f))
                    c.expect(got.shape == want.shape and np.array_equal(got, want), "cm", lambda: f"{f}: {got.tolist()[:30]} expected {want.tolist()[:30]}; {said()}")
                for (row, col, pos), v in zip(members(t, bx, by), arr):
                    cmfull[kind][:, row, col] = v
            f = os.path.join(res, "obcold", f"record_change_{tag}_obcold.npy")
            if oc:
                if c.expect(os.path.exists(f), "obcold:file", lambda: f"{f} missing; {said()}"):
                    got, want = np.load(f), np.hstack(oc)
                    c.stats["obcold-records"] += len(want)
                    c.expect(eq(got, want), "obcold", lambda: f"block {tag}: {got['pos'].tolist()[:20]} {got['t_break'].tolist()[:20]} expected {want['pos'].tolist()[:20]} {want['t_break'].tolist()[:20]}; {said()}")
    if method == "OBCOLD":
        have = set(os.listdir(os.path.join(res, "cm_maps"))); wanted = set()
        for kind in ("CM", "CM_date"):
            for k in range(n_cm):
                o = t["first"] + k * interval; day = datetime.date.fromordinal(o)
                f = f"{kind}_maps_{o}_{day.year}{day.timetuple().tm_yday:03d}.npy"; wanted.add(f)
                if c.expect(f in have, "cm-maps:file", lambda: f"{f} not among {sorted(have)[:6]}; {said()}"):
                    m = np.load(os.path.join(res, "cm_maps", f)); c.stats["cm-maps"] += 1
                    c.expect(np.array_equal(m, cmfull[kind][k]), "cm-maps", lambda: f"{f}: {m.tolist()} expected {cmfull[kind][k].tolist()}; {said()}")
        c.stats["report"] += "tile_processing_report.log" in names
        c.expect("tile_processing_report.log" in names, "report", said)
        expected |= {"cm_maps", "OBIAresults", "obcold", "tile_processing_report.log"}
    left = {f for f in names - expected if ".tmp" not in f and f not in ("feature_maps", "rf.model", "tile_processing_report.log")}
    c.expect(not left and not (expected - names), "files", lambda: f"unexpected {sorted(left)[:5]} missing {sorted(expected - names)[:5]}; {said()}")
