META = dict(technique="runtime monitor: an ownership ledger of every pixel of generated tile geometries checked against each conversion, and pixel-coded products assembled and read back from disk",
            level_note="Holds on the explored geometries; every pixel of small tiles, edge and sampled pixels of full-size tiles.",
            N=dict(quick=8000, thorough=30000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one tile geometry with a set of per-block products (values coding the pixel and the slot), some blocks missing or unreadable; non-trivial = more than one block and non-square",
            must_observe=["pixels", "large-tile", "non-square", "non-square-grid", "single-row-of-blocks", "single-column-of-blocks", "assembled-maps", "missing-block", "unreadable-block", "all-missing", "clean", "keep",
                          "array:2d", "array:3d", "raster", "raster:georeferenced", "rowcol-image", "CM", "CM_date", "leap-day", "year-end"],
            assumptions=["the number of rows and columns of a tile are multiples of the number of its blocks, as the configuration prescribes"])
import datetime, os, shutil
import numpy as np
from osgeo import gdal, osr
from pycold import utils
from pycold.common import DatasetInfo
gdal.UseExceptions()


def geometry(r, big=False):
    nx, ny = (int(v) for v in r.choice([1, 1, 2, 2, 3, 4, 5, 7], 2))
    if big:
        nx, ny = (int(v) for v in r.choice([10, 25, 30, 50], 2))
        bw, bh = (int(v) for v in r.choice([50, 100, 166, 200, 333], 2))
    else:
        bw, bh = (int(v) for v in r.integers(1, 9, 2))
    return dict(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny), nx, ny, bw, bh


def ledger(nx, ny, bw, bh):
    """for each tile pixel (row, col): block id, column/row of the block, column/row in the block, index in the block"""
    out = {}
    for y in range(ny):
        for x in range(nx):
            for j in range(bh):
                for i in range(bw):
                    out[y * bh + j, x * bw + i] = (y * nx + x + 1, x + 1, y + 1, i, j, j * bw + i)
    return out


def conversions(c, g, nx, ny, bw, bh, pixels):
    n_cols = g["n_cols"]
    seen = set()
    for (row, col), (b, bx, by, i, j, k) in pixels:
        pos = row * n_cols + col + 1
        c.stats["pixels"] += 1
        got = (utils.get_block_x(b, nx), utils.get_block_y(b, nx), utils.get_col_index(pos, n_cols, bx, bw), utils.get_row_index(pos, n_cols, by, bh), utils.get_id_inblock(pos, bw, bh, n_cols))
        want = (bx, by, i, j, k)
        if got != want:
            return c.fail("conversion:" + ["block_x", "block_y", "col", "row", "id"][[x == y for x, y in zip(got, want)].index(False)], f"{g} row {row} col {col} block {b} pos {pos}: {got} expected {want}")
        rc = utils.get_rowcol_intile(k, bw, bh, bx, by)
        if tuple(rc) != (row + 1, col + 1):
            return c.fail("conversion:rowcol", f"{g} block {bx},{by} index {k}: {rc} expected {(row + 1, col + 1)}")
        if (b, got[4]) in seen:
            return c.fail("conversion:twice", f"{g} block {b} index {got[4]}")
        seen.add((b, got[4]))
    c.stats["monitor:conversion"] += len(seen)


def case(c):
    r = c.rng
    big = r.random() < .15
    g, nx, ny, bw, bh = geometry(r, big)
    c.add_sig(g); c.desc = dict(g); c.data = dict(g)
    info = utils.class_from_dict(DatasetInfo, dict(g, other="x"))
    c.expect((info.nblocks, info.block_width, info.block_height) == (nx * ny, bw, bh), "geometry", lambda: f"{g} {info}")
    c.stats["non-square"] += g["n_rows"] != g["n_cols"]; c.stats["non-square-grid"] += nx != ny
    c.stats["single-row-of-blocks"] += ny == 1 < nx; c.stats["single-column-of-blocks"] += nx == 1 < ny
    c.nontrivial = nx * ny > 1 and g["n_rows"] != g["n_cols"]
    if big:
        c.stats["large-tile"] += 1
        pix = []
        for _ in range(400):
            x, y = int(r.integers(0, nx)), int(r.integers(0, ny))
            i, j = int(r.choice([0, bw - 1, r.integers(0, bw)])), int(r.choice([0, bh - 1, r.integers(0, bh)]))
            pix.append(((y * bh + j, x * bw + i), (y * nx + x + 1, x + 1, y + 1, i, j, j * bw + i)))
        conversions(c, g, nx, ny, bw, bh, dict(pix).items())
        return
    led = ledger(nx, ny, bw, bh)
    conversions(c, g, nx, ny, bw, bh, led.items())
    maps(c, r, g, info, nx, ny, bw, bh, led)
    arrays(c, r, g, nx, ny, bw, bh)
    days(c, r)
    if r.random() < .4:
        rasters(c, r, g)


def code(row, col, slot, lo, n):
    return lo + (row * 53 + col * 7 + slot * 1009) % n


def maps(c, r, g, info, nx, ny, bw, bh, led):
    d = os.path.join(c.tmp, "cm"); shutil.rmtree(d, ignore_errors=True)
    src, dst = os.path.join(d, "res"), os.path.join(d, "maps"); os.makedirs(src); os.makedirs(dst)
    nm = int(r.integers(1, 6)); interval = int(r.choice([1, 16, 32, 60, 365])); clean = bool(r.random() < .6)
    start = int(r.choice([r.integers(723800, 740000), datetime.date(2003, 12, 31).toordinal(), datetime.date(2004, 2, 29).toordinal()]))
    prefix = str(r.choice(["CM", "CM_date"])); other = "CM_date" if prefix == "CM" else "CM"
    T, lo, n = (np.int16, 0, 32000) if prefix == "CM" else (np.int32, 720000, 20000)
    stored = np.int16 if prefix == "CM" else np.int32
    missing = set(); bad = set()
    for y in range(ny):
        for x in range(nx):
            if r.random() < .15:
                missing.add((x, y)); continue
            a = np.array([[code(y * bh + j, x * bw + i, s, lo, n) for s in range(nm)] for j in range(bh) for i in range(bw)], dtype=stored)
            if r.random() < .5:
                a[r.random(a.shape) < .3] = -9999
            np.save(os.path.join(src, f"{prefix}_x{x + 1}_y{y + 1}.npy"), a)
            np.save(os.path.join(src, f"{other}_x{x + 1}_y{y + 1}.npy"), a * 0 - 5)
    open(os.path.join(src, "record_change_x1_y1_cold.npy"), "w").close()
    keep = set(os.listdir(src))
    blocks = {(x, y): np.load(os.path.join(src, f"{prefix}_x{x + 1}_y{y + 1}.npy")) for y in range(ny) for x in range(nx) if (x, y) not in missing}
    c.stats["missing-block"] += len(missing); c.stats["all-missing"] += not blocks; c.stats["clean" if clean else "keep"] += 1; c.stats[prefix] += 1
    if blocks and r.random() < .1:                  # an unreadable block is reported, not replaced
        x, y = list(blocks)[int(r.integers(0, len(blocks)))]
        with open(os.path.join(src, f"{prefix}_x{x + 1}_y{y + 1}.npy"), "r+b") as f:
            f.truncate(int(r.integers(0, 40)))
        c.stats["unreadable-block"] += 1
        bad.add((x, y))
    what = lambda: f"{g} {prefix} maps={nm} missing={sorted(missing)} bad={sorted(bad)} clean={clean}"
    try:
        utils.assemble_cmmaps(info, src, dst, start, nm, prefix, interval, clean=clean)
    except Exception as e:
        c.expect(bool(bad), "maps:raises", lambda: f"{type(e).__name__}: {e}; {what()}")
        c.expect(all(not f.endswith(".npy") or np.load(os.path.join(dst, f)).shape == (g["n_rows"], g["n_cols"]) for f in os.listdir(dst)), "maps:partial", what)
        return
    names = set()
    for s in range(nm):
        day = datetime.date.fromordinal(start + s * interval)
        name = f"{prefix}_maps_{start + s * interval}_{day.year}{day.timetuple().tm_yday:03d}.npy"
        names.add(name)
        if not c.expect(os.path.exists(os.path.join(dst, name)), "maps:named", lambda: f"{name} not among {os.listdir(dst)}; {what()}"):
            continue
        m = np.load(os.path.join(dst, name))
        want = np.full((g["n_rows"], g["n_cols"]), -9999, T)
        for (row, col), (b, bx, by, i, j, k) in led.items():
            if (bx - 1, by - 1) in blocks and (bx - 1, by - 1) not in bad:
                want[row, col] = blocks[bx - 1, by - 1][k, s]
        c.stats["assembled-maps"] += 1
        c.expect(m.shape == want.shape and m.dtype == T and np.array_equal(m, want), "maps:values", lambda: f"slot {s} {what()}\n{m}\nexpected\n{want}")
    c.expect(set(os.listdir(dst)) == names, "maps:extra", lambda: f"{sorted(os.listdir(dst))}; {what()}")
    left = {f for f in keep if not f.startswith(prefix + "_x")} if clean else keep
    c.expect(set(os.listdir(src)) == left, "maps:clean", lambda: f"left {sorted(os.listdir(src))} expected {sorted(left)}; {what()}")


def arrays(c, r, g, nx, ny, bw, bh):
    for kind in ("2d", "3d"):
        nf = int(r.integers(1, 4))
        full = r.integers(-9999, 9999, (g["n_rows"], g["n_cols"]) + ((nf,) if kind == "3d" else ())).astype(np.int16 if kind == "2d" else np.float32)
        parts = [full[y * bh:(y + 1) * bh, x * bw:(x + 1) * bw].copy() for y in range(ny) for x in range(nx)]
        got = utils.assemble_array(parts, nx)
        c.stats["array:" + kind] += 1
        c.expect(got.shape == full.shape and np.array_equal(got, full), "assemble-array", lambda: f"{g} {kind}: shape {got.shape}")


def days(c, r):
    start, n, iv = int(r.integers(723500, 745000)), int(r.integers(1, 60)), int(r.choice([1, 16, 60, 90]))
    a = [int(x) for x in utils.get_anchor_days(start, n, iv)]
    c.expect(a == [start + i * iv for i in range(n)], "anchor-days", lambda: f"{start} {n} {iv}: {a}")
    y = int(r.integers(1982, 2040))
    for d in (datetime.date.fromordinal(start), datetime.date(y, 12, 31), datetime.date(y - y % 4, 2, 29), datetime.date(y, 3, 1), datetime.date(y, 1, 1)):
        c.stats["leap-day"] += d.month == 2; c.stats["year-end"] += d.month == 12
        c.expect(utils.get_doy(d.toordinal()) == "%03d" % d.timetuple().tm_yday, "day-of-year", lambda: f"{d}: {utils.get_doy(d.toordinal())}")


def rasters(c, r, g):
    rows, cols = g["n_rows"], g["n_cols"]
    ref = os.path.join(c.tmp, "ref.tif"); out = os.path.join(c.tmp, "out.tif")
    trans = (float(r.integers(100000, 900000)), 30.0, 0.0, float(r.integers(1000000, 5000000)), 0.0, -30.0)
    sr = osr.SpatialReference(); sr.ImportFromEPSG(int(r.choice([32618, 32633, 32650])))
    ds = gdal.GetDriverByName("GTiff").Create(ref, cols, rows, int(r.choice([1, 1, 1])), gdal.GDT_Int16)
    ds.SetGeoTransform(trans); ds.SetProjection(sr.ExportToWkt()); ds.GetRasterBand(1).WriteArray(np.zeros((rows, cols), np.int16)); ds = None
    for georef in (True, False):
        a = r.integers(-9999, 20000, (rows, cols)).astype(np.int16); t = gdal.GDT_Int16
        if r.random() < .4:
            a = r.integers(0, 2 ** 31 - 1, (rows, cols)).astype(np.int32); t = gdal.GDT_Int32
        if os.path.exists(out):
            os.remove(out)
        utils.save_1band_fromrefimage(a, out, ref if georef else None, t)
        ds = gdal.Open(out)
        c.stats["raster"] += 1; c.stats["raster:georeferenced"] += georef
        c.expect((ds.RasterXSize, ds.RasterYSize) == (cols, rows) and np.array_equal(np.atleast_2d(ds.ReadAsArray()), a), "raster:values", lambda: f"{g} {ds.RasterXSize}x{ds.RasterYSize}")
        if georef:
            c.expect(ds.GetGeoTransform() == trans and osr.SpatialReference(ds.GetProjection()).IsSame(sr), "raster:georeference", lambda: f"{g} {ds.GetGeoTransform()} expected {trans}")
        ds = None
    os.remove(out)
    utils.generate_rowcolimage(ref, out)
    ds = gdal.Open(out); m = ds.ReadAsArray()
    c.stats["rowcol-image"] += 1
    want = np.array([[(i + 1) * 10000 + j + 1 for j in range(cols)] for i in range(rows)])
    c.expect(m.shape == want.shape and np.array_equal(m, want) and ds.GetGeoTransform() == trans and osr.SpatialReference(ds.GetProjection()).IsSame(sr), "rowcol-image", lambda: f"{g}: {m}")
