META = dict(technique="runtime monitor: pixel-, band- and scene-coded stacks written to disk and read through both readers, compared with a ledger of the written scenes",
            level_note="Holds on the explored block folders: any number of scenes, sensors, names, days, block shapes and bounds.",
            N=dict(quick=6000, thorough=40000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one block folder of coded scenes (written in random order) read without and with date bounds on, just inside and just outside scene dates; non-trivial = two or more scenes",
            must_observe=["read:stack", "read:block", "scenes", "sensor:LT5", "sensor:LE7", "sensor:LC8", "sensor:LC9", "sensor:S2", "same-day", "day-366", "day-1", "bound-on-scene", "bound-outside", "nothing-in-bounds",
                          "empty-folder", "other-files", "non-square-block", "one-scene", "reordered-names"],
            assumptions=[])
import datetime, os, shutil
import numpy as np
from pycold import utils
from pycold.common import DatasetInfo
from pycold.imagetool.tile_processing import get_stack_date


def case(c):
    r = c.rng
    nx, ny = int(r.integers(1, 5)), int(r.integers(1, 5)); bw, bh = (int(v) for v in r.integers(1, 7, 2))
    x, y = int(r.integers(1, nx + 1)), int(r.integers(1, ny + 1))
    info = DatasetInfo(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny)
    root = os.path.join(c.tmp, "stack"); shutil.rmtree(root, ignore_errors=True)
    n = int(r.choice([0, 1, 2, 3, 8, 25]))
    for bx, by in {(x, y), (min(nx, x + 1), y), (x, min(ny, y + 1))}:       # neighbours hold other scenes
        os.makedirs(os.path.join(root, f"block_x{bx}_y{by}"))
        if (bx, by) != (x, y):
            np.save(os.path.join(root, f"block_x{bx}_y{by}", "LC8018032" + "2010100C1V01.npy"), np.full((bh, bw, 8), -5, np.int16))
    d = os.path.join(root, f"block_x{x}_y{y}")
    scenes = {}
    base = int(r.integers(1982, 2035))
    for _ in range(n):
        s = str(r.choice(["LT4", "LT5", "LE7", "LC8", "LC9", "S2A", "S2B", "S30", "L30"]))
        yr = base + int(r.integers(0, 4)); leap = yr % 4 == 0
        doy = int(r.choice([1, 2, 59, 60, 61, 99, 100, 365, 366 if leap else 365, r.integers(1, 366)]))
        if scenes and r.random() < .2:
            yr, doy = list(scenes)[int(r.integers(0, len(scenes)))][2:4]
        tile = "%03d%03d" % (int(r.integers(1, 234)), int(r.integers(1, 249))) if r.random() < .8 else "T18TYM"
        tail = str(r.choice(["C1V01", "C2V02", "C01V01", "C2"]))
        scenes[s, tile, yr, doy] = f"{s}{tile}{yr}{doy:03d}{tail}"
    names = list(scenes.values())
    c.add_sig(nx, ny, bw, bh, x, y, tuple(names)); c.desc = dict(block=[x, y], grid=[nx, ny], shape=[bh, bw], scenes=names[:6]); c.data = dict(c.desc, scenes=names)
    px = bw * bh
    data = {}
    for i in r.permutation(n and len(names)):
        a = (np.arange(px * 8).reshape(bh, bw, 8) * 31 + i * 977 + 1) % 30000 - 9999
        a[..., 7] = (np.arange(px).reshape(bh, bw) + i) % 8
        data[names[i]] = a.astype(np.int16)
        np.save(os.path.join(d, names[i] + ".npy"), data[names[i]] if r.random() < .7 else np.asfortranarray(data[names[i]]))
    if r.random() < .4:
        c.stats["other-files"] += 1
        open(os.path.join(d, "readme.txt"), "w").write("x"); open(os.path.join(d, ".Lock2010"), "w").write("x")
    day = {k: (datetime.date(yr, 1, 1) + datetime.timedelta(doy - 1)).toordinal() for (s, t, yr, doy), k in scenes.items()}
    order = sorted(names, key=lambda k: (day[k], k + ".npy"))
    c.nontrivial = len(names) > 1
    c.stats["scenes"] += len(names); c.stats["same-day"] += len(set(day.values())) < len(names); c.stats["one-scene"] += len(names) == 1; c.stats["non-square-block"] += bw != bh
    c.stats["reordered-names"] += order != sorted(names); c.stats["empty-folder"] += not names
    for (s, t, yr, doy) in scenes:
        c.stats["sensor:" + ("S2" if s[0] == "S" else s)] += 1
        c.stats["day-366"] += doy == 366; c.stats["day-1"] += doy == 1

    def same(who, stack, dates, sel, info_):
        ok = c.expect([int(v) for v in dates] == [day[k] for k in sel], who + ":dates", lambda: f"{[int(v) for v in dates]} expected {[day[k] for k in sel]} {info_}")
        if ok and c.expect(stack.shape == (px, 8, len(sel)), who + ":shape", lambda: f"{stack.shape} {info_}"):
            for i, k in enumerate(sel):
                if not np.array_equal(stack[:, :, i], data[k].reshape(px, 8)):
                    same_day = [j for j in names if day[j] == day[k]]
                    if len(same_day) > 1 and any(np.array_equal(stack[:, :, i], data[j].reshape(px, 8)) for j in same_day):
                        continue            # the order within a day is free
                    c.fail(who + ":values", f"scene {k} at position {i} {info_}")
                    break
            if len({stack[:, :, i].tobytes() for i in range(len(sel))}) != len({data[k].tobytes() for k in sel}):
                c.fail(who + ":once", f"a scene is repeated or missing {info_}")
            c.stats["monitor:" + who + ":values"] += 1

    if names:
        c.stats["read:block"] += 1
        same("block", *utils.read_blockdata(d, px, 8), order, names)
    bounds = [(0, 0)]
    for _ in range(4):
        ds = sorted(day.values()) or [733000]
        e = lambda: int(r.choice(ds)) + int(r.choice([-1, 0, 0, 1]))
        lo, hi = e(), e()
        if r.random() < .3: lo = 0
        elif r.random() < .3: hi = 0
        if r.random() < .1: lo, hi = ds[-1] + 1, ds[-1] + 400
        if r.random() < .1: lo, hi = 1, ds[0] - 1
        bounds.append((lo, hi))
    for lo, hi in bounds:
        sel = [k for k in order if (not lo or day[k] >= lo) and (not hi or day[k] <= hi)]
        c.stats["read:stack"] += 1
        c.stats["bound-on-scene"] += lo in day.values() or hi in day.values()
        c.stats["bound-outside"] += bool(lo or hi) and not (lo in day.values() or hi in day.values())
        stack, dates = get_stack_date(info, x, y, root, lo, hi)
        w = f"bounds {lo}..{hi} scenes {names}"
        if not sel:
            c.stats["nothing-in-bounds"] += 1
            c.expect(stack is None and dates is None, "stack:empty", lambda: f"{dates} {w}")
        elif c.expect(stack is not None, "stack:not-empty", w):
            same("stack", stack, dates, sel, w)
