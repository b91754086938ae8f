META = dict(technique="runtime monitor: exporter run (one process, or several ranks) on generated record files; every exported raster decoded and compared pixel by pixel with the pixel's own records",
            level_note="Holds on the explored record sets. Ranks are real processes that meet through a stand-in for mpi4py, which is not installed here.",
            N=dict(quick=1500, thorough=10000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one tile (geometry, method, year range, coefficient selection, number of ranks) with 0..6 segments per pixel, breaks of every type on and around the limits; "
                 "non-trivial = at least one break was exported",
            must_observe=["method:COLD", "method:OBCOLD", "method:SCCDOFFLINE", "break:1", "break:2", "break:3", "break:4", "several-in-a-year", "outside-years", "unconfirmed", "missing-block", "empty-pixel", "ranks:1",
                          "ranks:many", "coefs", "cv", "fill-year", "extended", "non-square", "non-square-grid", "day-366", "last-pixel-breaks", "first-disturbance", "recent-disturbance", "segment-boundary-july", "empty-block", "shuffled-pixels"],
            assumptions=["mpi4py's bcast and Barrier behave as documented"])
import datetime, os, pickle, shutil, subprocess, sys
import numpy as np
import yaml
from osgeo import gdal, osr
from pycold import utils
from pycold.common import reccg_dt, sccd_dt, SccdOutput, nrtmodel_dt
from pycold.imagetool import export_change_map as ex
gdal.UseExceptions()
NAN = -9999
COEFS = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "cv", "rmse"]


def year(o):
    return datetime.date.fromordinal(int(o)).year


def mags(r, n, t):
    """change vectors on every side of the greening limits"""
    m = r.normal(0, 600, n).astype(np.float32)
    k = r.random()
    if k < .45:
        m[3] = abs(m[3]) - t + 1; m[2] = -abs(m[2]); m[4] = -abs(m[4])
    elif k < .65:
        m[2:5] = np.array([t, -t, t], np.float32) + r.choice([-1, 0, 1], 3).astype(np.float32)
    return m


def pixel_records(r, pos, y0, y1, method):
    """segments of one pixel in time order"""
    t = 250 if method == "OBCOLD" else 200
    n = int(r.choice([0, 1, 1, 2, 3, 4, 6]))
    out = []
    day = datetime.date(int(r.integers(max(1983, y0 - 3), y1 + 1)), int(r.integers(1, 13)), int(r.integers(1, 29))).toordinal()
    nb = 6 if method == "SCCDOFFLINE" else 7
    for k in range(n):
        a = np.zeros(1, sccd_dt if nb == 6 else reccg_dt)
        last = k == n - 1
        start = day; brk = start + int(r.choice([30, 200, 365, 366, 700, 2500, r.integers(20, 1500)]))
        if r.random() < .15:
            brk = datetime.date(year(brk) // 4 * 4 + (4 if year(brk) % 4 else 0), 12, 31).toordinal() if r.random() < .7 else datetime.date(year(brk) + 1, 1, 1).toordinal()
        if out and out[-1]["t_break"][0] and r.random() < .12 and not last:        # about five years after the break before
            brk = max(start + 20, int(out[-1]["t_break"][0]) + int(r.choice([1825, 1826, 1826, 1827, 1828])))
        a["t_start"] = start; a["num_obs"] = 20 + k
        a["coefs"] = r.normal(0, 300, a["coefs"].shape)
        a["rmse"] = r.uniform(0, 200, a["rmse"].shape)
        a["magnitude"] = mags(r, nb, t)
        if out and nb == 7 and r.random() < .4:        # the next segment's slopes, relative to this one's, decide afforestation
            s = np.abs(out[-1]["coefs"][0, :, 1])
            a["coefs"][0, 3, 1] = s[3] + r.choice([1, 1, 0, -1]); a["coefs"][0, 2, 1] = -s[2] - r.choice([1, 1, 0, -1]); a["coefs"][0, 4, 1] = -s[4] - r.choice([1, 1, 0, -1])
        if out and method == "OBCOLD" and r.random() < .6:
            a["magnitude"] = -out[-1]["magnitude"]
            if r.random() < .4:
                a["magnitude"][0, r.integers(1, 6, 2)] *= -1
        a["t_break"] = 0 if last else brk
        if nb == 7:
            a["t_end"] = brk - int(r.integers(1, 17)); a["pos"] = pos; a["category"] = 10
            a["change_prob"] = 0 if last else 100
            if last and r.random() < .4:
                if r.random() < .5 or method == "OBCOLD":
                    a["t_break"] = brk; a["change_prob"] = 100          # a break at the very end
                else:
                    a["t_break"] = brk; a["change_prob"] = int(r.integers(1, 100))
        elif last and r.random() < .4:
            a["t_break"] = brk
        out.append(a)
        day = brk + int(r.choice([0, 16, 300, 20]))
        if r.random() < .2:
            day = datetime.date(year(day) + 1, 7, int(r.choice([1, 1, 2]))).toordinal()
    return np.concatenate(out) if out else np.zeros(0, sccd_dt if nb == 6 else reccg_dt)


def kind(method, rec, k, last):
    m, t = rec[k]["magnitude"], -250 if method == "OBCOLD" else -200
    if m[3] > t and m[2] < -t and m[4] < -t:
        if method != "SCCDOFFLINE" and k + 1 < len(rec):
            a, b = rec[k]["coefs"][:, 1], rec[k + 1]["coefs"][:, 1]
            if b[3] > abs(a[3]) and b[2] < -abs(a[2]) and b[4] < -abs(a[4]):
                return 3
        return 2
    if method == "OBCOLD" and k > 0 and last == 1 and not rec[k]["t_break"] - rec[k - 1]["t_break"] > 5 * 365.25:
        if sum(rec[k]["magnitude"][b] * rec[k - 1]["magnitude"][b] < 0 for b in range(1, 6)) >= 4:
            return 4
    return 1


def feature(rec, band, day, name):
    """(value, tolerance)"""
    if name == "cv":
        y = year(day)
        for s in rec:
            if s["t_break"] > 0 and s["change_prob"] == 100 and year(s["t_break"]) == y:
                return float(s["magnitude"][band]), 0
        return NAN, 0
    for k, s in enumerate(rec):
        end = rec[k + 1]["t_start"] if k + 1 < len(rec) else datetime.date(year(s["t_end"]), 12, 31).toordinal()
        if s["t_start"] <= day < end:
            c = s["coefs"][band].astype(float)
            if name == "a0":
                return c[0] + c[1] * day / 10000, 1e-5 * (abs(c[0]) + abs(c[1] * day / 10000)) + 1e-3
            v = dict(c1=c[1] / 10000, a1=c[2], b1=c[3], a2=c[4], b2=c[5], a3=c[6], b3=c[7], rmse=float(s["rmse"][band]))[name]
            return v, 1e-6 * abs(v) + 1e-9
    return NAN, 0


def case(c):
    r = c.rng
    method = str(r.choice(["COLD", "OBCOLD", "SCCDOFFLINE"]))
    nx, ny = (int(v) for v in r.choice([1, 2, 2, 3], 2)); bw, bh = (int(v) for v in r.integers(1, 5, 2))
    R, C = ny * bh, nx * bw
    y0 = int(r.integers(1984, 2018)); y1 = y0 + int(r.integers(0, 7))
    coefs = [str(v) for v in r.choice(COEFS, int(r.integers(1, 5)), replace=False)] if r.random() < .5 and method != "SCCDOFFLINE" else None
    bands = [int(v) for v in r.choice(7, int(r.integers(1, 4)), replace=False)]
    ranks = int(r.choice([1, 2, 3, nx * ny + 1])) if r.random() < .08 else 1
    c.add_sig(method, nx, ny, bw, bh, y0, y1, c.index); c.desc = dict(method=method, grid=[nx, ny], block=[bw, bh], years=[y0, y1], coefs=coefs, ranks=ranks)
    d = os.path.join(c.tmp, "ex"); shutil.rmtree(d, ignore_errors=True)
    src = os.path.join(d, "rec"); out = os.path.join(d, "out"); where = os.path.join(src, "obcold") if method == "OBCOLD" else src
    os.makedirs(where); os.makedirs(out) if r.random() < .5 else None
    with open(os.path.join(d, "p.yaml"), "w") as f:
        yaml.safe_dump(dict(DATASETINFO=dict(n_rows=R, n_cols=C, n_block_x=nx, n_block_y=ny), OTHER=1), f)
    trans = (float(r.integers(1, 900000)), 30.0, 0.0, float(r.integers(1, 5000000)), 0.0, -30.0)
    sr = osr.SpatialReference(); sr.ImportFromEPSG(int(r.choice([32618, 5070])))
    ds = gdal.GetDriverByName("GTiff").Create(os.path.join(d, "ref.tif"), C, R, 1, gdal.GDT_Int16); ds.SetGeoTransform(trans); ds.SetProjection(sr.ExportToWkt()); ds = None
    rec = {}; missing = set()
    for y in range(ny):
        for x in range(nx):
            if r.random() < .12:
                missing.add((x, y)); continue
            px = []
            nothing = r.random() < .05
            for j in range(bh):
                for i in range(bw):
                    row, col = y * bh + j, x * bw + i
                    a = pixel_records(r, row * C + col + 1, y0, y1, method)
                    if nothing: a = a[:0]
                    rec[row, col] = a; px.append((row, col))
            if r.random() < .3:
                px = [px[k] for k in r.permutation(len(px))]; c.stats["shuffled-pixels"] += 1
            name = os.path.join(where, f"record_change_x{x + 1}_y{y + 1}_{dict(COLD='cold', OBCOLD='obcold', SCCDOFFLINE='sccd')[method]}.npy")
            c.stats["empty-block"] += not any(len(rec[p]) for p in px)
            if any((rec[px[-1]]["t_break"] > 0)): c.stats["last-pixel-breaks"] += 1
            if method != "SCCDOFFLINE" and not any(len(rec[p]) for p in px):
                missing.add((x, y)); continue           # the tile processor writes no file then
            if method == "SCCDOFFLINE":
                with open(name, "wb+") as f:
                    for p in px:
                        a = rec[p]
                        pickle.dump(utils.unindex_sccdpack(SccdOutput(p[0] * C + p[1] + 1, a if len(a) else np.array([]), np.zeros(6, np.int16), 1, np.zeros(1, nrtmodel_dt), np.array([]))), f)
            else:
                np.save(name, np.hstack([rec[p] for p in px]))
    c.stats["method:" + method] += 1; c.stats["missing-block"] += len(missing); c.stats["ranks:1" if ranks == 1 else "ranks:many"] += 1
    c.stats["non-square"] += R != C; c.stats["non-square-grid"] += nx != ny; c.stats["coefs"] += coefs is not None
    c.data = dict(c.desc, records={str(k): v for k, v in rec.items() if len(v)})
    sep = str(r.choice([",", ", "]))
    args = dict(reccg_path=src, reference_path=os.path.join(d, "ref.tif"), out_path=out, method=method, year_lowbound=y0, year_uppbound=y1, yaml_path=os.path.join(d, "p.yaml"),
                coefs=sep.join(coefs) if coefs else None, coefs_bands=sep.join(map(str, bands)))
    info = lambda: f"{c.desc} bands={bands} missing={sorted(missing)}"
    if ranks == 1:
        try:
            ex.main.callback(**args)
        except Exception as e:
            import traceback
            return c.fail("export:raises:" + type(e).__name__, traceback.format_exc()[-700:] + info())
    else:
        os.makedirs(os.path.join(d, "mpi"))
        cmd = [sys.executable, "-m", "pycold.imagetool.export_change_map"] + [f"--{k}={v}" for k, v in args.items() if v is not None]
        ps = [subprocess.Popen(cmd, env=dict(os.environ, VP_MPI_RANK=str(k), VP_MPI_SIZE=str(ranks), VP_MPI_DIR=os.path.join(d, "mpi")), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for k in range(ranks)]
        err = [p.communicate()[1] for p in ps]
        if any(p.returncode for p in ps):
            return c.fail("export:rank-fails", f"{[p.returncode for p in ps]} {err[0][-400:]!r} {info()}")
    od = os.path.join(out, dict(COLD="cold_maps", OBCOLD="obcold_maps", SCCDOFFLINE="sccd_maps")[method])
    years = range(y0, y1 + 1)
    want = {y: np.full((R, C), NAN, np.int16) for y in years}
    nbr = 0
    for (row, col), a in rec.items():
        last = 0; per = {}
        c.stats["empty-pixel"] += not len(a)
        for k in range(len(a)):
            if a[k]["t_break"] == 0:
                continue
            if method != "SCCDOFFLINE" and a[k]["change_prob"] < 100:
                c.stats["unconfirmed"] += 1
                continue
            last = kind(method, a, k, last)
            y = year(a[k]["t_break"])
            if y not in want:
                c.stats["outside-years"] += 1
                continue
            nbr += 1
            doy = int(a[k]["t_break"]) - datetime.date(y, 1, 1).toordinal() + 1
            c.stats["break:%d" % last] += 1; c.stats["several-in-a-year"] += y in per; c.stats["day-366"] += doy == 366
            per[y] = last
            want[y][row, col] = last * 1000 + doy
    c.nontrivial = nbr > 0
    files = set()

    def raster(name, w, T, tol=None):
        files.add(name)
        p = os.path.join(od, name)
        if not c.expect(os.path.exists(p), "exported", lambda: f"{name} is missing {info()}"):
            return
        ds = gdal.Open(p); g = np.atleast_2d(ds.ReadAsArray())
        what = name.split("_", 1)[1].rsplit("_", 1)[0] if name[0].isdigit() else name.rsplit("_", 1)[0]
        ok = c.expect((ds.RasterXSize, ds.RasterYSize) == (C, R), "shape", lambda: f"{name} {ds.RasterXSize}x{ds.RasterYSize} {info()}")
        c.expect(ds.GetGeoTransform() == trans and osr.SpatialReference(ds.GetProjection()).IsSame(sr), "georeference", lambda: f"{name} {ds.GetGeoTransform()} {info()}")
        if ok:
            bad = g.astype(float) != w if tol is None else ~(np.abs(g.astype(float) - w) <= tol)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                c.fail("values:" + ("break" if "break" in name else "coefs" if "coefs" in name else what), f"{name} row {i} col {j}: {g[i, j]} expected {w[i, j]} {info()} records {rec.get((i, j))}")
            c.stats["monitor:values:" + ("coefs" if "coefs" in name else "break" if "break" in name else what)] += g.size

    for y in years:
        raster(f"{y}_break_map_{method}.tif", want[y], np.int16)
        if coefs:
            day = datetime.date(y, 7, 1).toordinal()
            for b in bands:
                for n in coefs:
                    w = np.full((R, C), float(NAN)); tol = np.zeros((R, C))
                    for p, a in rec.items():
                        v, t = feature(a, b, day, n)
                        w[p], tol[p] = np.float32(v), t + 1e-6 * abs(v)
                        c.stats["cv"] += n == "cv" and v != NAN
                        if n != "cv" and len(a):
                            c.stats["fill-year"] += v == NAN; c.stats["extended"] += v != NAN and day > a[-1]["t_end"]
                            c.stats["segment-boundary-july"] += any(a["t_start"] == day)
                    raster(f"{y}_coefs_{method}_{b}_{n}.tif", w, np.float32, tol)
    dist = {p: [y for y in years if want[y][p] // 1000 == 1] for p in rec}
    for name, pick in (("recent", max), ("first", min)):
        w = np.zeros((R, C))
        for p, ys in dist.items():
            if ys:
                w[p] = pick(ys); c.stats[name + "-disturbance"] += 1
        raster(f"{name}_disturbance_map_{method}.tif", w, np.int16)
    c.expect({f for f in os.listdir(od)} == files, "files", lambda: f"{sorted(os.listdir(od))} {info()}")
