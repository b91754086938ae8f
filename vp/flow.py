"""S-CCD histories: retrospective starts, incremental updates, and their bookkeeping."""
import numpy as np
from . import gen
L4 = 723742            # ordinal of the Landsat 4 launch, origin of the compact dates


def params(rng):
    p = dict(t_cg=float(rng.choice([15.0863, 15.0863, 9.236, 20.515])), conse=int(rng.choice([6, 6, 6, 4, 8, 3, 1, 2, 7])),
             pos=int(rng.integers(1, 10 ** 6)), b_c2=bool(rng.random() < .4))
    if rng.random() < .3:
        p["gate_tcg"] = float(rng.choice([9.236, 4.0, 13.4]))
    return p


def pixel(rng, families=None):
    px = gen.pixel(rng, families)
    px.b[:] = np.clip(px.b, -32768, 32767)          # documented integer width of the saved state
    if px.n and px.d[-1] > L4 + 32767:              # compact dates reach from 1982 to 2071
        px.d -= px.d[-1] - (L4 + 32767) + int(rng.integers(0, 400))
        while px.d[0] < L4:
            px.d = np.maximum.accumulate(px.d - (px.d - px.d[0]) // 2 + (L4 - px.d[0]))
    return px


def thin(rng, px):
    """few observations over more than a year, also mostly snow: the pixel waits in its queue, and results take their shortest way"""
    px = px.sub(np.unique(np.linspace(0, px.n - 1, int(rng.integers(2, 30))).astype(int)))
    px.qa[rng.random(px.n) < rng.choice([0, .5, .8, 1])] = 3
    return px


def cuts(rng, n, lo, pieces=None):
    """boundaries of a split of observations lo..n"""
    if lo >= n:
        return []
    k = int(pieces or rng.choice([1, 2, 3, 5, 10, 30]))
    c = np.unique(rng.integers(lo + 1, n + 1, max(0, k - 1))) if k > 1 else np.array([], int)
    return sorted(set(c.tolist()) | {n})


def usable(px, b_c2=False, qa_max=1):
    return inrange(px, b_c2) & (px.qa <= qa_max)


def inrange(px, b_c2=False):
    """the published valid ranges (blue may be slightly negative; thermal in 0.1 K, 0 = missing, ignored for Collection 2)"""
    b = px.b
    ok = (b[0] > -200) & (b[0] < 10000) & ((b[1:6] > 0) & (b[1:6] < 10000)).all(0) & (px.qa < 255)
    if not b_c2:
        t = b[6] * 10 - 27320
        ok &= (b[6] == 0) | ((t > -9320) & (t < 7070))
    return ok


def dump(s):
    return {f: (getattr(s, f).tolist() if hasattr(getattr(s, f), "tolist") else getattr(s, f)) for f in s._fields}


def same_value(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or (a.dtype.names != b.dtype.names):
        return False
    if a.dtype.names:
        return all(same_value(a[n], b[n]) for n in a.dtype.names if n != "align")
    if a.dtype.kind == "f":
        return np.array_equal(a.view(f"u{a.dtype.itemsize}") if a.flags.c_contiguous else a, b.view(f"u{b.dtype.itemsize}") if b.flags.c_contiguous else b) or np.array_equal(a, b, equal_nan=True)
    return np.array_equal(a, b)


def diff(a, b, skip=()):
    """names of the parts of two monitor states that differ"""
    out = []
    for f in a._fields:
        if f in skip:
            continue
        x, y = np.asarray(getattr(a, f)), np.asarray(getattr(b, f))
        if x.shape == y.shape and x.dtype.names and y.dtype.names:
            out += [f"{f}.{n}" for n in x.dtype.names if n != "align" and not same_value(x[n], y[n])]
        elif x.size == 0 and y.size == 0:
            continue
        elif not same_value(x, y):
            out.append(f)
    return out
