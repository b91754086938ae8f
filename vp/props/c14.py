META = dict(technique="runtime monitor: every quality word through the decoders, and generated scenes of every collection (archives, folders, rasters) through the stacking script, also killed in the middle of a write and run again; every stacked value compared with the source rasters",
            level_note="The decoders are observed on every word of their product; stacking holds on the explored scenes. HDF scenes are read through a stand-in for the raster library's container, which cannot be written here.",
            N=dict(quick=3000, thorough=20000), kinds=["plain"], level="exploration", cpu=120,
            rule="one case = all words of one decoder, one scene of a collection with its quality words, sensor, date, block layout, clear limit, date bounds and single-path map, or one stacking run of several scenes by several ranks "
                 "(optionally killed at a chosen point and run again); non-trivial = a scene was stacked",
            must_observe=["run:HLS", "run:HLS14", "run:ARD", "run:ARD-C2", "run:C2", "decode:HLS", "decode:C1", "decode:C2", "HLS:L30", "HLS:S30", "HLS14:L30", "HLS14:S30", "ARD:4", "ARD:5", "ARD:7", "ARD:8", "ARD:9", "ARD-C2:5", "ARD-C2:8", "ARD-C2:7", "ARD-C2:9", "ARD-C2:4", "C2:4", "C2:5", "C2:7", "C2:8", "C2:9",
                          "not-clear-enough", "clear-enough", "at-the-limit", "before-lower", "on-lower", "after-upper", "on-upper", "whole-image", "blocks", "block-without-valid", "single-path", "single-path-tile", "area-shifted", "area-outside", "area-off-grid",
                          "non-square", "non-square-grid", "run", "run:ranks", "run:killed", "run:killed-in-write", "leap-day", "day-366", "bad-archive"],
            assumptions=["the fill bit of a quality word stands alone, as in the products", "GDAL reads, writes and warps rasters as documented", "scenes have the tile's number of rows and columns"])
import datetime, io, logging, os, shutil, signal, tarfile, time, warnings
import numpy as np
import yaml
from osgeo import gdal, osr
warnings.filterwarnings("ignore")
gdal.PushErrorHandler("CPLQuietErrorHandler")
from pycold.imagetool import prepare_ard as ard
from pycold.common import DatasetInfo
from pycold import utils
LOG = logging.getLogger("c14"); LOG.addHandler(logging.NullHandler()); LOG.propagate = False
COLLECTIONS = ["HLS", "HLS14", "ARD", "ARD-C2", "C2"]


def decode(kind, w):
    """class of each quality word: fill > cloud > shadow > snow > water > clear"""
    w = w.astype(np.int64)
    bit = lambda k: (w >> k) & 1 == 1
    if kind == "HLS": order = [(w == 255, 255), (bit(1) | bit(2), 4), (bit(3), 2), (bit(4), 3), (bit(5), 1), (w == w, 0)]
    elif kind == "C1": order = [(bit(5), 4), (bit(3), 2), (bit(4), 3), (bit(2), 1), (bit(1), 0), (w == w, 255)]
    else: order = [(bit(3) | bit(1), 4), (bit(4), 2), (bit(5), 3), (bit(7), 1), (bit(6), 0), (w == w, 255)]
    out = np.full(w.shape, -1)
    for k, v in order: out[(out == -1) & k] = v
    return out


FUN = dict(HLS="qabitval_array_HLS", C1="qabitval_array", C2="qabitval_array_c2")


def case_decode(c):
    r = c.rng; kind = ["HLS", "C1", "C2"][c.index // 10 % 3]
    w = np.arange(256 if kind == "HLS" else 65536)
    if kind != "HLS": w = w[(w % 2 == 0) | (w == 1)]
    w = w[r.permutation(len(w))]
    w = w[:len(w) // 8 * 8].reshape([(-1, 8), (8, -1), (-1,)][int(r.integers(0, 3))]) if kind == "HLS" else w[:32768].reshape([(-1, 64), (256, -1)][int(r.integers(0, 2))])
    w = w.astype(r.choice(["uint8", "int16", "uint16"] if kind == "HLS" else ["uint16", "int32"]))
    c.add_sig(kind, w); c.desc = dict(kind="decode", decoder=kind, dtype=str(w.dtype), words=w.size); c.nontrivial = True
    keep = w.copy(); g = np.asarray(getattr(ard, FUN[kind])(w)); e = decode(kind, w)
    c.stats["decode:" + kind] += 1; c.stats["monitor:decode"] += w.size
    if g.shape != e.shape or (g != e).any():
        i = np.argwhere(g != e)[0] if g.shape == e.shape else None
        c.fail("decode:" + kind, f"{'shape' if i is None else f'word {int(w[tuple(i)])}: {g[tuple(i)]} expected {e[tuple(i)]}'} ({int((g != e).sum()) if i is not None else 0} words) {c.desc}")
    c.expect(np.array_equal(keep, w), "decode:argument-changed")


def words(r, kind, shape, p=None):
    """quality words as a scene has them; p = share of good pixels"""
    good = dict(HLS=[0, 64, 32, 192 + 32], C1=[322, 386, 324, 66, 68], C2=[21824, 21952, 5440, 128, 64])[kind]
    other = dict(HLS=[2, 4, 8, 16, 6, 10, 24, 18, 255, 255, 48], C1=[352, 328, 336, 1, 1, 480, 72, 376], C2=[22280, 23888, 13600, 30048, 1, 1, 21762, 21896, 23826, 1152])[kind]
    p = float(r.choice([.05, .3, .7, .95])) if p is None else p
    w = np.where(r.random(shape) < p, r.choice(good, shape), r.choice(other, shape))
    if r.random() < .3:
        x = r.integers(0, 256 if kind == "HLS" else 65536, shape); x = np.where((x % 2 == 1) & (x != 1) & (kind != "HLS"), x - 1, x)
        w = np.where(r.random(shape) < .3, x, w)
    return w


def tif(path, a, dtype, trans=(0, 30, 0, 0, 0, -30), proj=None):
    a = np.asarray(a)
    ds = gdal.GetDriverByName("GTiff").Create(path, a.shape[1], a.shape[0], 1, dtype); ds.SetGeoTransform(trans)
    ds.SetProjection(proj or UTM); ds.GetRasterBand(1).WriteArray(a); ds = None


_s = osr.SpatialReference(); _s.ImportFromEPSG(32618); UTM = _s.ExportToWkt()


class Scene:
    """one scene: its name, rasters, quality words and what its stack has to hold"""

    def __init__(self, r, coll, info, date, sensor=None, trans=None, size=None, path=14, p=None):
        self.coll, self.date, self.info, self.path = coll, date, info, path
        doy = date.timetuple().tm_yday; ymd = date.strftime("%Y%m%d"); R, C = size or (info.n_rows, info.n_cols)
        hls = coll in ("HLS", "HLS14")
        self.sensor = s = sensor or str(r.choice(["L30", "S30"] if hls else list("45789")))
        pre = dict(zip("45789", ["LT4", "LT5", "LE7", "LC8", "LC9"])).get(s)
        full = dict(zip("45789", ["LT04", "LT05", "LE07", "LC08", "LC09"])).get(s)
        if hls:
            self.folder = f"HLS.{s}.T18TYM.{date.year}{doy:03d}{'T154532' if coll == 'HLS' else ''}.{'v2' if coll == 'HLS' else 'v1'}.{'0' if coll == 'HLS' else '4'}"
            self.file = f"{s}T18TYM{date.year}{doy:03d}"
        elif coll == "C2":
            self.folder = f"{full}_L2SP_{int(r.integers(1, 200)):03d}{int(r.integers(1, 100)):03d}_{ymd}_20200914_02_T1"; self.file = f"{pre}{self.folder[10:16]}{date.year}{doy:03d}"
        else:
            self.folder = f"{full}_CU_{int(r.integers(1, 33)):03d}{int(r.integers(1, 23)):03d}_{ymd}_20190430_{'C01_V01' if coll == 'ARD' else '02'}_SR"; self.file = f"{pre}{self.folder[8:14]}{date.year}{doy:03d}"
        self.words = words(r, dict(HLS="HLS", HLS14="HLS", ARD="C1").get(coll, "C2"), (R, C), p)
        unsigned = coll in ("ARD-C2", "C2")
        lo, hi = (1, 65535) if unsigned else (-2000, 16000)
        names = [f"B{k:02d}" for k in range(1, 13)] + ["B8A"] if hls else [f"B{k}" for k in range(1, 12)]
        self.src = {n: r.integers(lo, hi, (R, C)).astype(np.uint16 if unsigned else np.int16) for n in names}
        for n, a in self.src.items():          # smallest, largest and special numbers
            m = r.random((R, C)) < .08; a[m] = r.choice([1, 2, 7272, 7273, 65534, 65535] if unsigned else [-9999, -1, 0, 1, 10000, 20000, 32767], int(m.sum())).astype(a.dtype)
        if unsigned:
            for n in self.src: self.src[n][self.words == 1] = 0
        tm = s in "457"
        self.order = (["B02", "B03", "B04", "B05", "B06", "B07"] if s == "L30" else ["B02", "B03", "B04", "B8A", "B11", "B12"]) if hls else ["B1", "B2", "B3", "B4", "B5", "B7"] if tm else ["B2", "B3", "B4", "B5", "B6", "B7"]
        self.tband = "B6" if tm else "B10"
        self.thermal = None if hls else r.integers(28000 if unsigned else 2400, 50000 if unsigned else 3300, (R, C)).astype(np.uint16 if unsigned else np.int16)
        self.trans = trans or (300000, 30, 0, 4500000, 0, -30)

    def write(self, d, broken=False):
        coll, f = self.coll, self.folder
        t = gdal.GDT_UInt16 if coll in ("ARD-C2", "C2") else gdal.GDT_Int16
        if coll == "HLS":
            o = os.path.join(d, f); os.makedirs(o)
            for n, a in self.src.items(): tif(os.path.join(o, f"{f}.{n}.tif"), a, t, self.trans)
            tif(os.path.join(o, f"{f}.Fmask.tif"), self.words, gdal.GDT_Byte, self.trans)
            return
        if coll == "HLS14":
            FAKE[os.path.join(d, f + ".hdf")] = self; open(os.path.join(d, f + ".hdf"), "wb").close()
            return
        work = os.path.join(d, "_w"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
        files = {"SR": [], "BT": []}

        def put(where, n, a, dt):
            tif(os.path.join(work, n), a, dt, self.trans); files[where].append(n)
        b = f[:-3]
        for n, a in self.src.items():
            if coll == "C2": put("SR", f"{f}_SR_{n}.TIF", a, t)
            elif coll == "ARD": put("SR", f"{f}{n}.tif", a, t)
            else: put("SR", f"{f}_{n}.TIF", a, t)
        if coll == "C2":
            put("SR", f"{f}_ST_{self.tband}.TIF", self.thermal, t); put("SR", f"{f}_QA_PIXEL.TIF", self.words, gdal.GDT_UInt16)
        else:
            put("SR", f"{b}_PIXELQA.tif" if coll == "ARD" else f"{b}_QA_PIXEL.TIF", self.words, gdal.GDT_UInt16)
            for k in ("B6", "B10", "B11"):
                if k == self.tband or k != "B6" and self.tband == "B10":
                    put("BT", f"{b}_BT{k}.tif" if coll == "ARD" else f"{b}_BT_{k}.TIF", self.thermal if k == self.tband else self.thermal + 77, t)
            x = (f'<ard_metadata xmlns="https://landsat.usgs.gov/ard/v1"><scene_metadata><index>1</index><global_metadata><wrs path="{self.path}" row="31" system="2"/></global_metadata></scene_metadata></ard_metadata>' if coll == "ARD" else
                 f"<LANDSAT_METADATA_FILE><SCENE_METADATA><IMAGE_ATTRIBUTES><A>x</A><B>y</B><C>2</C><WRS_PATH>{self.path}</WRS_PATH><WRS_ROW>31</WRS_ROW></IMAGE_ATTRIBUTES></SCENE_METADATA></LANDSAT_METADATA_FILE>")
            n = f.replace("_SR", ".xml"); open(os.path.join(work, n), "w").write(x); files["SR"].append(n)
        for k, names in files.items():
            if names:
                p = os.path.join(d, (f if k == "SR" else f.replace("SR", "BT")) + ".tar")
                with tarfile.open(p, "w") as z:
                    for n in names: z.add(os.path.join(work, n), n)
                if broken and k == "SR":
                    s = open(p, "rb").read(); open(p, "wb").write(s[:len(s) // 3])
        shutil.rmtree(work)

    def expected(self, thr, low, upp, path_array=None, cut=None):
        """None when the scene is to be skipped, else rows x cols x 8 exact values"""
        info = self.info
        take = (lambda a, fill: a) if cut is None else (lambda a, fill: cut(a, fill))
        q = decode(dict(HLS="HLS", HLS14="HLS", ARD="C1").get(self.coll, "C2"), take(self.words, 1))
        valid = (q != 255).sum()
        if thr > 0 and (valid == 0 or not ((q == 0) | (q == 1)).sum() / valid >= thr): return None
        if low and self.date < low or upp and self.date > upp: return None
        x = np.zeros((info.n_rows, info.n_cols, 8)); sc = self.coll in ("ARD-C2", "C2")
        for k, n in enumerate(self.order):
            a = take(self.src[n], 0).astype(float); x[..., k] = a * .275 - 2000 if sc else a
        if self.thermal is not None:
            a = take(self.thermal, 0).astype(float); x[..., 6] = a * .0341802 + 1490 if sc else a
        if path_array is not None: q = np.where(path_array != self.path, 255, q)
        x[..., 7] = q
        return x

    def limit(self, cut=None):
        q = decode(dict(HLS="HLS", HLS14="HLS", ARD="C1").get(self.coll, "C2"), self.words if cut is None else cut(self.words, 1))
        return ((q == 0) | (q == 1)).sum() / max(1, (q != 255).sum())


FAKE = {}


class FakeGdal:
    """raster library whose HDF containers are the scenes of this process"""

    def __getattr__(self, k):
        return getattr(gdal, k)

    class Set:
        def __init__(self, a): self.a = a
        def ReadAsArray(self): return self.a.copy()

    class File:
        def __init__(self, s): self.s = s
        def GetSubDatasets(self): return [(f"FAKE:{self.s}:{k}", "") for k in range(11 if FAKE[self.s].sensor == "L30" else 14)]

    def Open(self, p, *a):
        if p in FAKE: return self.File(p)
        if str(p).startswith("FAKE:"):
            _, f, k = p.rsplit(":", 2) if p.count(":") == 2 else (None, p[5:].rsplit(":", 1)[0], p.rsplit(":", 1)[1])
            s = FAKE[f]; k = int(k); n = 11 if s.sensor == "L30" else 14
            if k == n - 1: return self.Set(s.words.astype(np.uint8))
            names = ["B01", "B02", "B03", "B04", "B05", "B06", "B07"] + ["B09", "B10", "B11"] if s.sensor == "L30" else ["B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B8A", "B09", "B10", "B11", "B12"]
            return self.Set(s.src[names[k]])
        return gdal.Open(p, *a)


def same(c, got, want, key, info):
    """stacked values against the exact ones: scaled bands lose less than one unit"""
    if not c.expect(got.dtype == np.int16 and got.shape == want.shape, key + ":shape", lambda: f"{got.dtype} {got.shape} expected {want.shape} {info()}"): return False
    ok = np.abs(got - want) < np.where(want == np.round(want), np.where(np.arange(8) < 7, 1.0, 1e-9), 1 + 1e-6)
    ok |= (np.abs(want - np.round(want)) < 1e-6) & (np.abs(got - want) < 1 + 1e-6)
    ok[..., 7] = got[..., 7] == want[..., 7]
    c.stats["monitor:" + key] += ok.size
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0]); k = "quality" if i[-1] == 7 else "thermal" if i[-1] == 6 else "band"
        c.fail(f"{key}:{k}", f"at {i}: {got[i]} expected {want[i]} ({int((~ok).sum())} of {ok.size}) {info()}")
        return False
    return True


def check_out(c, out, info, part, exp, key, txt, extra=()):
    """exp: {file name prefix: expected array or None}"""
    seen = {}
    folders = [(f"block_x{x + 1}_y{y + 1}", slice(y * info.block_height, (y + 1) * info.block_height), slice(x * info.block_width, (x + 1) * info.block_width)) for y in range(info.n_block_y) for x in range(info.n_block_x)] if part else [("", slice(None), slice(None))]
    for f, rows, cols in folders:
        names = [n for n in os.listdir(os.path.join(out, f)) if n.endswith(".npy")]
        want = {}
        for n, x in exp.items():
            if x is None: continue
            b = x[rows, cols]
            if part and not np.isin(b[..., 7], [0, 1, 3]).any():
                c.stats["block-without-valid"] += 1
                continue
            want[n] = b
        got = {}
        for n in names:
            got.setdefault(n[:16], []).append(n)
        if not c.expect(set(got) == set(want) and all(len(v) == 1 for v in got.values()), key + ":files", lambda: f"{f or 'folder'}: {sorted(names)} expected {sorted(want)} {txt()}"): return
        for n, b in want.items():
            a = np.load(os.path.join(out, f, got[n][0]))
            c.nontrivial = True
            if not same(c, a, b, key, lambda: f"{f} {n} {txt()}"): return



def tile(r):
    nx, ny = (int(v) for v in r.choice([1, 2, 2, 3], 2)); bw, bh = (int(v) for v in r.integers(1, 7, 2))
    return DatasetInfo(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny)


def anyday(r, lo=1983, hi=2023):
    y = int(r.integers(lo, hi))
    k = r.random()
    if k < .1: y -= y % 4; return datetime.date(y, 2, 29)
    if k < .2: y -= y % 4; return datetime.date(y, 12, 31)
    if k < .3: return datetime.date(y, int(r.choice([1, 12])), int(r.choice([1, 31])))
    return datetime.date.fromordinal(datetime.date(y, 1, 1).toordinal() + int(r.integers(0, 365)))


def bounds(c, r, date):
    low = upp = None
    if r.random() < .4:
        d = int(r.choice([-400, -1, 0, 0, 1])); low = date + datetime.timedelta(d); c.stats["on-lower"] += d == 0; c.stats["before-lower"] += d > 0
    if r.random() < .4 and not (low and low > date):
        d = int(r.choice([400, 1, 0, 0, -1])); upp = date + datetime.timedelta(d); c.stats["on-upper"] += d == 0; c.stats["after-upper"] += d < 0
    return low, upp


def blocks(out, info):
    for y in range(info.n_block_y):
        for x in range(info.n_block_x): os.makedirs(os.path.join(out, f"block_x{x + 1}_y{y + 1}"))


def case_scene(c):
    r = c.rng; coll = COLLECTIONS[c.index % 5]; info = tile(r); date = anyday(r); part = bool(r.random() < .8)
    d = os.path.join(c.tmp, "st"); shutil.rmtree(d, ignore_errors=True); src, out, tmp = (os.path.join(d, k) for k in ("src", "out", "out/tmp1"))
    os.makedirs(src); os.makedirs(tmp); FAKE.clear()
    if part: blocks(out, info)
    cut = None; bb = None; size = None; trans = None; off = None
    if coll == "C2":            # an area somewhere on, at the edge of, or off the grid of the scene
        size = (info.n_rows + int(r.integers(0, 6)), info.n_cols + int(r.integers(0, 6))); trans = (300000., 30., 0., 4500000., 0., -30.)
        di, dj = (int(r.integers(-2, v + 1)) for v in (size[0] - info.n_rows + 2, size[1] - info.n_cols + 2)) if r.random() < .3 else (int(r.integers(0, size[0] - info.n_rows + 1)), int(r.integers(0, size[1] - info.n_cols + 1)))
        fx, fy = (float(v) for v in r.uniform(-12, 12, 2)) if r.random() < .3 else (0., 0.)
        x0 = trans[0] + 30 * dj + fx; y1 = trans[3] - 30 * di + fy
        bb = [x0, y1 - 30 * info.n_rows, x0 + 30 * info.n_cols, y1]; off = (di, dj)
        c.stats["area-off-grid"] += fx != 0; c.stats["area-shifted"] += (di, dj) != (0, 0)
        c.stats["area-outside"] += di < 0 or dj < 0 or di + info.n_rows > size[0] or dj + info.n_cols > size[1]

        def cut(a, fill):
            o = np.full((info.n_rows, info.n_cols), fill, a.dtype)
            for i in range(info.n_rows):
                for j in range(info.n_cols):
                    if 0 <= i + di < size[0] and 0 <= j + dj < size[1]: o[i, j] = a[i + di, j + dj]
            return o
    s = Scene(r, coll, info, date, trans=trans, size=size, path=int(r.choice([14, 15])))
    thr = 0.
    if r.random() < .6:
        f = s.limit(cut); thr = float(r.choice([f, f - .02, f + .02, .2, .5])); c.stats["at-the-limit"] += thr == f
        if thr <= 0: thr = 0.
    low, upp = bounds(c, r, date)
    pa = r.choice([14, 14, 15, 0], (info.n_rows, info.n_cols)).astype(np.uint8) if coll in ("ARD", "ARD-C2") and r.random() < .5 else None
    broken = coll in ("ARD", "ARD-C2") and r.random() < .06
    s.write(src, broken)
    c.add_sig(c.index, s.folder, thr, low, upp); c.desc = dict(kind=coll, scene=s.folder, tile=[info.n_rows, info.n_cols], grid=[info.n_block_x, info.n_block_y], clear=thr, low=str(low), upp=str(upp), blocks=part, path=pa is not None, area=bb)
    c.data = dict(c.desc, words=s.words)
    c.stats[f"{coll}:{s.sensor}"] += 1; c.stats["blocks" if part else "whole-image"] += 1; c.stats["single-path"] += pa is not None; c.stats["bad-archive"] += broken
    c.stats["non-square"] += info.n_rows != info.n_cols; c.stats["non-square-grid"] += info.n_block_x != info.n_block_y
    c.stats["leap-day"] += (date.month, date.day) == (2, 29); c.stats["day-366"] += date.timetuple().tm_yday == 366
    kw = dict(is_partition=part)
    if low: kw["low_date_bound"] = low.isoformat()
    if upp: kw["upp_date_bound"] = upp.isoformat()
    if coll == "HLS": ard.single_image_stacking_hls(src, out, LOG, info, s.folder, clear_threshold=thr, **kw)
    elif coll == "HLS14":
        ard.gdal = FakeGdal()
        try: ard.single_image_stacking_hls14(out, LOG, info, os.path.join(src, s.folder + ".hdf"), clear_threshold=thr, **kw)
        finally: ard.gdal = gdal
    elif coll == "C2": ard.single_image_stacking_collection2(tmp, src, out, s.folder, thr, LOG, info, bb, **kw)
    else: ard.single_image_stacking(tmp, src, out, s.folder, thr, None if pa is None else pa.copy(), LOG, info, b_c2=coll == "ARD-C2", **kw)
    e = None if broken else s.expected(thr, low, upp, pa, cut)
    if thr > 0 and not broken: c.stats["clear-enough" if s.limit(cut) >= thr else "not-clear-enough"] += 1
    check_out(c, out, info, part, {s.file: e}, coll, lambda: str(c.desc))


def case_run(c):
    """the script over a folder of scenes, by several ranks, whole or killed and run again"""
    r = c.rng; coll = str(r.choice(COLLECTIONS)); info = tile(r); part = bool(r.random() < .85)
    d = os.path.join(c.tmp, "run"); shutil.rmtree(d, ignore_errors=True); src, out = os.path.join(d, "src"), os.path.join(d, "out"); os.makedirs(src)
    single = coll in ("ARD", "ARD-C2") and r.random() < .5
    trans = (300000., 30., 0., 4500000., 0., -30.); cut = None
    n = int(r.integers(1, 6)); days = {anyday(r, 2016, 2019) for _ in range(n)}
    sc = []
    for day in sorted(days):
        s = Scene(r, coll, info, day, sensor=None, trans=trans, path=int(r.choice([14, 15, 16])), p=.6); sc.append(s)
        where = src
        if coll == "HLS14" and r.random() < .5: where = os.path.join(src, str(day.year)); os.makedirs(where, exist_ok=True)
        s.write(where)
    dates = sorted(s.date.toordinal() for s in sc)
    low = upp = None
    if r.random() < .3: low = datetime.date.fromordinal(dates[0] + int(r.choice([-5, 0, 1])))
    if r.random() < .3: upp = datetime.date.fromordinal(max(dates[-1] + int(r.choice([-1, 0, 5])), low.toordinal() if low else 0))
    thr = float(r.choice([0, 0, .5]))
    with open(os.path.join(d, "p.yaml"), "w") as f:
        yaml.safe_dump(dict(DATASETINFO=dict(n_rows=info.n_rows, n_cols=info.n_cols, n_block_x=info.n_block_x, n_block_y=info.n_block_y)), f)
    shp = None; fid = int(r.integers(1, 5))
    if coll == "C2":
        import fiona
        shp = os.path.join(d, "a.geojson")
        with fiona.open(shp, "w", driver="GeoJSON", crs="EPSG:32618", schema=dict(geometry="Polygon", properties=dict(id="int"))) as f:
            for k in range(5):
                x0, y1 = (trans[0], trans[3]) if k == fid else (trans[0] + 3000 * k + 3000, trans[3])
                x1, y0 = x0 + 30 * info.n_cols, y1 - 30 * info.n_rows
                f.write(dict(geometry=dict(type="Polygon", coordinates=[[(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]]), properties=dict(id=k)))
    ranks = int(r.choice([1, 1, 2, 3])); kill = r.random() < .5
    c.add_sig(c.index, coll, n, ranks); c.desc = dict(kind="run", collection=coll, scenes=[s.folder for s in sc], tile=[info.n_rows, info.n_cols], grid=[info.n_block_x, info.n_block_y], ranks=ranks, low=str(low), upp=str(upp), clear=thr, single=bool(single), blocks=part, killed=bool(kill))
    c.data = dict(c.desc); txt = lambda: str(c.desc)
    args = dict(source_dir=src, out_dir=out, clear_threshold=thr, single_path=bool(single), n_cores=ranks, is_partition=part, yaml_path=os.path.join(d, "p.yaml"), hpc=True,
                low_date_bound=low.isoformat() if low else None, upp_date_bound=upp.isoformat() if upp else None, collection=coll, shapefile_path=shp, id=fid)
    pa = None
    if single:
        w = gdal.Warp("", os.path.join(os.path.dirname(ard.__file__), "singlepath_landsat_conus.tif"), format="MEM", dstSRS=UTM, outputBounds=[trans[0], trans[3] - 30 * info.n_rows, trans[0] + 30 * info.n_cols, trans[3]], width=info.n_cols, height=info.n_rows)
        pa = w.ReadAsArray(); w = None
        c.stats["single-path-tile"] += any((pa == s.path).any() for s in sc) and any((pa != s.path).any() for s in sc)
    here = os.getcwd(); os.chdir(d)
    polls = [0]; rest = time.sleep
    class Stuck(Exception): pass
    def sleep(t):                   # the ranks run one after another, so a rank that has to wait waits for ever
        polls[0] += 1
        if polls[0] > 20: raise Stuck("the rank waits for something no other rank will still do")
    time.sleep = sleep
    if coll == "HLS14": ard.gdal = FakeGdal()
    order = [1] + [int(v) for v in r.permutation(np.arange(2, ranks + 1))]
    try:
        if kill:
            at = int(r.integers(1, 2 + len(sc) * (info.nblocks if part else 1))); half = bool(r.random() < .6)
            pid = os.fork()
            if not pid:
                try:
                    save = np.save; count = [0]

                    def dying(f, a, *p, **k):
                        count[0] += 1
                        if count[0] < at: return save(f, a, *p, **k)
                        if half:
                            b = io.BytesIO(); save(b, a, *p, **k); b = b.getvalue()
                            if hasattr(f, "write"): f.write(b[:len(b) * 2 // 3]); f.flush()
                            else:
                                f = os.fspath(f); f += "" if f.endswith(".npy") else ".npy"
                                open(f, "wb").write(b[:len(b) * 2 // 3])
                        os._exit(9)
                    np.save = dying
                    devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
                    for k in order: ard.main.callback(rank=k, **args)
                    os._exit(0)
                except BaseException:
                    os._exit(7)
            st = os.waitpid(pid, 0)[1]; code = os.waitstatus_to_exitcode(st)
            if not c.expect(code in (0, 9), "run:raises", lambda: f"exit {code} {txt()}"): return
            if code == 9:
                c.stats["run:killed"] += 1; c.stats["run:killed-in-write"] += half
                bad = [k for k in range(1, ranks + 1) if os.path.exists(os.path.join(out, f"rank{k}_finished.txt")) and order.index(k) == len(order) - 1]
                c.expect(not bad, "run:marked-finished", lambda: f"rank {bad} {txt()}")
                exp = {s.file: s.expected(thr, low, upp, pa, cut) for s in sc}
                for root, _, fs in os.walk(out):
                    for f in fs:
                        if f.startswith(("L", "S")) and "tmp" not in os.path.relpath(root, out):        # what the readers take for a scene
                            try: a = np.load(os.path.join(root, f))
                            except Exception:
                                c.fail("run:half-written-scene", f"{f} after a kill {txt()}"); continue
                            x = exp.get(f[:16]); m = os.path.basename(root)
                            if x is not None and part:
                                i, j = (int(v[1:]) - 1 for v in (m.split("_")[2], m.split("_")[1]))
                                x = x[i * info.block_height:(i + 1) * info.block_height, j * info.block_width:(j + 1) * info.block_width]
                            if c.expect(x is not None, "run:after-kill:files", lambda: f"{f} {txt()}"): same(c, a, x, "run:after-kill", lambda: f"{m} {f} {txt()}")
        errs = []
        for k in order:
            try: ard.main.callback(rank=k, **args)
            except Exception as e:
                import traceback
                return c.fail("run:raises:" + type(e).__name__, traceback.format_exc()[-600:] + txt())
    finally:
        time.sleep = rest; ard.gdal = gdal
        os.chdir(here)
    c.stats["run"] += 1; c.stats["run:" + coll] += 1; c.stats["run:ranks"] += ranks > 1
    check_out(c, out, info, part, {s.file: s.expected(thr, low, upp, pa, cut) for s in sc}, "run", txt)
    t = [int(v) for v in open(os.path.join(out, "starting_last_dates.txt")).read().split()]
    w = [max(dates[0], low.toordinal() if low else 0), min(dates[-1], upp.toordinal() if upp else 999999)]
    c.expect(t == w, "run:dates", lambda: f"{t} expected {w} {txt()}")
    c.expect(all(os.path.exists(os.path.join(out, f"rank{k}_finished.txt")) for k in range(1, ranks + 1)), "run:marks", txt)
    left = [f for f in os.listdir(out) if f.startswith("tmp")]
    c.expect(not left, "run:temporary-files-left", lambda: f"{left} {txt()}")
    if part:                    # the block readers see exactly the stacked scenes, in order of date
        for y in range(info.n_block_y):
            for x in range(info.n_block_x):
                b = os.path.join(out, f"block_x{x + 1}_y{y + 1}")
                if os.listdir(b):
                    st, ds = utils.read_blockdata(b, info.block_width * info.block_height, 8)
                    w = [s.date.toordinal() for s in sc if (lambda e: e is not None and np.isin(e[y * info.block_height:(y + 1) * info.block_height, x * info.block_width:(x + 1) * info.block_width, 7], [0, 1, 3]).any())(s.expected(thr, low, upp, pa, cut))]
                    c.expect([int(v) for v in ds] == w, "run:read-back", lambda: f"{ds} expected {w} {txt()}")


def case(c):
    k = c.index % 10
    if k == 0: case_decode(c)
    elif k < 8: case_scene(c)
    else: case_run(c)
