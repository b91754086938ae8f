"""Workload generators: per-pixel time series from realistic to hostile."""
import numpy as np
BASE = np.array([400, 700, 600, 3000, 1800, 1000], float)


class Px:
    __slots__ = ("d", "b", "qa", "tag")

    def __init__(self, d, b, qa, tag=""):
        self.d = np.ascontiguousarray(d, dtype=np.int64)
        self.b = np.ascontiguousarray(b, dtype=np.int64)      # (7, n)
        self.qa = np.ascontiguousarray(qa, dtype=np.int64)
        self.tag = tag

    @property
    def n(self):
        return len(self.d)

    def args(self):
        return (self.d, *self.b, self.qa)

    def sub(self, idx):
        return Px(self.d[idx], self.b[:, idx], self.qa[idx], self.tag)

    def copy(self):
        return Px(self.d.copy(), self.b.copy(), self.qa.copy(), self.tag)

    def desc(self):
        return dict(tag=self.tag, n=int(self.n), first=int(self.d[0]) if self.n else None, last=int(self.d[-1]) if self.n else None)

    def dump(self):
        return dict(tag=self.tag, d=self.d.tolist(), b=self.b.tolist(), qa=self.qa.tolist())

    @staticmethod
    def load(o):
        return Px(np.array(o["d"], dtype=np.int64), np.array(o["b"], dtype=np.int64).reshape(7, -1), np.array(o["qa"], dtype=np.int64), o.get("tag", ""))


def dates(rng, n, start, mode):
    if mode == "8day":
        step = np.full(n, 8)
    elif mode == "16day":
        step = np.full(n, 16)
    elif mode == "mixed":
        step = rng.choice([1, 7, 8, 9, 16, 16, 24, 32], n)
    elif mode == "random":
        step = rng.integers(1, 40, n)
    elif mode == "dense":
        step = rng.integers(1, 6, n)
    elif mode == "sparse":
        step = rng.integers(10, 160, n)
    else:
        raise ValueError(mode)
    return start + np.cumsum(step)


def series(rng, n=None, mode=None, start=None, breaks=None, noise=None, cloud=None, snow=None, tag=""):
    """A land pixel: harmonics + trend + step changes + noise, clouds, snow, fill."""
    n = int(n if n is not None else rng.integers(60, 420))
    mode = mode or rng.choice(["8day", "16day", "mixed", "random", "dense", "sparse"], p=[.2, .2, .3, .2, .05, .05])
    start = int(start if start is not None else rng.integers(723800, 736000))
    d = dates(rng, n, start, mode)
    t = (d - d[0]) / 365.25
    w = 2 * np.pi * d / 365.25
    noise = noise if noise is not None else rng.choice([5, 20, 50, 100, 200])
    y = np.zeros((7, n))
    amp = rng.uniform(0, .25, 6); ph = rng.uniform(0, 2 * np.pi, 6); amp2 = rng.uniform(0, .1, 6)
    lev = BASE * rng.uniform(.6, 1.5, 6)
    sl = rng.normal(0, 15, 6) * (rng.random() < .5)
    nb = int(breaks if breaks is not None else rng.choice([0, 0, 1, 1, 2, 3, 5]))
    pos = np.sort(rng.uniform(0, t[-1] + 1e-9, nb)) if n else []
    mag = rng.choice([.2, .5, 1, 2]) * 400
    for k in range(6):
        v = lev[k] + lev[k] * amp[k] * np.cos(w + ph[k]) + lev[k] * amp2[k] * np.cos(2 * w + ph[k]) + sl[k] * t
        y[k] = v + rng.normal(0, noise, n)
    for p in pos:
        st = rng.normal(0, 1, 6) * mag
        dec = rng.choice([0, 0, .7])
        f = np.where(t >= p, np.exp(-dec * (t - p)), 0)
        for k in range(6):
            y[k] += st[k] * f
            if rng.random() < .2:
                y[k] += np.where(t >= p, rng.uniform(-.2, .2) * lev[k] * np.cos(w), 0)
    y[6] = 2950 + 120 * np.cos(w + .3) + rng.normal(0, 10, n)
    qa = np.zeros(n, int)
    qa[rng.random(n) < .1] = 1
    cloud = cloud if cloud is not None else rng.choice([0, .1, .3, .6])
    c = rng.random(n) < cloud
    qa[c] = rng.choice([2, 4, 4], c.sum())
    y[:6, c & (qa == 4)] += rng.uniform(500, 5000, (6, int((c & (qa == 4)).sum())))
    if snow is None:
        snow = rng.choice([0, 0, .1, .5])
    s = (rng.random(n) < snow) & (np.cos(w) > .3)
    qa[s] = 3
    y[:4, s] += 4000
    f = rng.random(n) < rng.choice([0, .05])
    qa[f] = 255
    y[:, f] = rng.choice([0, -9999, 20000])
    # undetected outliers among clear observations
    o = (rng.random(n) < rng.choice([0, .02, .06])) & (qa < 2)
    y[:6, o] += rng.uniform(300, 4000, (6, int(o.sum()))) * rng.choice([-1, 1, 1])
    y = np.rint(y)
    # some observations out of range in one band although flagged clear
    r = np.flatnonzero((rng.random(n) < rng.choice([0, .02])) & (qa < 2))
    for i in r:
        y[rng.integers(0, 6), i] = rng.choice([0, -1, 10000, 16000, -500])
    if rng.random() < .2:
        y[6, rng.random(n) < rng.choice([.1, 1])] = rng.choice([0, 0, 1000, 3600])
    # duplicate dates
    if rng.random() < .3 and n > 4:
        k = rng.integers(1, n, max(1, n // 30))
        d[k] = d[k - 1]
        d = np.sort(d)
    return Px(d, y, qa, tag or f"series/{mode}")


def snowy(rng, n=None):
    n = int(n or rng.integers(10, 200))
    p = series(rng, n=n, breaks=0, cloud=.1, snow=0)
    m = rng.random(n) < rng.uniform(.6, 1)
    p.qa[m] = 3
    p.b[:6, m] += rng.integers(0, 6000, (6, int(m.sum())))
    k = rng.random((6, n)) < rng.choice([0, .05, .5])
    p.b[:6][k] = rng.choice([0, -50, 12000])
    p.tag = "snow"
    return p


def few(rng):
    p = series(rng, n=int(rng.integers(1, 60)), cloud=rng.choice([.3, .8]))
    p.tag = "few"
    return p


def gappy(rng):
    p = series(rng, n=int(rng.integers(80, 300)))
    cut = int(rng.integers(20, p.n - 20))
    p.d[cut:] += int(rng.choice([200, 370, 500, 1500]))
    p.tag = "gap"
    return p


def flat(rng):
    p = series(rng, n=int(rng.integers(40, 200)), noise=0, cloud=.1)
    for k in range(6):
        if rng.random() < .5:
            p.b[k] = int(rng.integers(1, 9999))
    p.tag = "flat"
    return p


def saturated(rng):
    """constant values after a change: successive residuals are parallel"""
    p = series(rng, n=int(rng.integers(120, 300)), breaks=0, noise=30, cloud=.1)
    cut = int(p.n * rng.uniform(.7, .9))         # less than half constant: the variogram stays positive
    p.b[:6, cut:] = rng.integers(100, 9000, 6)[:, None]
    p.tag = "saturated"
    return p


def extreme(rng):
    n = int(rng.integers(1, 300))
    p = series(rng, n=n)
    p.b[:] = rng.choice([-9999, -201, -200, -199, -1, 0, 1, 2, 9999, 10000, 10001, 30000, 65535], p.b.shape)
    m = rng.random(n) < .7
    p.b[:, m] = rng.integers(1, 9999, (7, int(m.sum())))
    p.qa[:] = rng.choice([0, 0, 0, 1, 2, 3, 4, 255], n)
    p.tag = "extreme"
    return p


def manybreaks(rng):
    n = int(rng.integers(300, 900))
    d = int(rng.integers(723800, 725000)) + np.cumsum(rng.integers(5, 20, n))
    period = int(rng.integers(400, 1200))
    lev = rng.integers(500, 6000, (6, 64))
    ph = ((d - d[0]) // period) % 64
    y = np.zeros((7, n))
    y[:6] = lev[:, ph] + rng.normal(0, 25, (6, n))
    y[6] = 2950
    return Px(d, np.rint(y), np.zeros(n, int), "manybreaks")


def boundary(rng):
    """counts and spans right at the algorithm's thresholds"""
    k = int(rng.integers(0, 6))
    if k == 0:            # about 24 clear observations, the rest masked
        p = series(rng, n=int(rng.integers(40, 120)), cloud=0, snow=0)
        p.qa[:] = rng.choice([4, 2, 3, 255], p.n, p=[.5, .2, .2, .1]) if rng.random() < .5 else 4
        idx = rng.permutation(p.n)[:int(rng.integers(22, 28))]
        p.qa[idx] = 0
    elif k == 1:          # snow share around three quarters
        n = int(rng.integers(12, 110))
        p = series(rng, n=n, breaks=0, cloud=0, snow=0)
        m = int(round(n * rng.uniform(.7, .8)))
        p.qa[:] = 0; p.qa[rng.permutation(n)[:m]] = 3
    elif k == 2:          # a strong change with few observations after it
        p = series(rng, n=int(rng.integers(60, 200)), breaks=0, noise=20, cloud=0, snow=0)
        cut = p.n - int(rng.integers(1, 30))
        p.b[:6, cut:] += rng.integers(800, 2500, 6)[:, None] * rng.choice([-1, 1], 6)[:, None]
        p.b[:6] = np.clip(p.b[:6], 1, 9999)
    elif k == 3:          # a strong change early in the series
        p = series(rng, n=int(rng.integers(60, 200)), breaks=0, noise=20, cloud=0, snow=0)
        cut = int(rng.integers(1, 35))
        p.b[:6, :cut] += rng.integers(500, 2500, 6)[:, None] * rng.choice([-1, 1], 6)[:, None]
        p.b[:6] = np.clip(p.b[:6], 1, 9999)
    elif k == 4:          # around one year of data
        n = int(rng.integers(12, 46))
        p = series(rng, n=n, mode="8day", breaks=0, cloud=0, snow=0, noise=20)
    else:                 # gaps around one year
        p = series(rng, n=int(rng.integers(60, 160)), breaks=0, noise=20, cloud=0, snow=0)
        cut = int(rng.integers(5, p.n - 5))
        p.d[cut:] += int(rng.integers(340, 372)) - int(p.d[cut] - p.d[cut - 1])
    p.tag = "boundary%d" % k
    return p


def temporary(rng):
    """anomalies shorter than, equal to and longer than the confirmation window"""
    p = series(rng, n=int(rng.integers(120, 350)), breaks=0, noise=25, cloud=rng.choice([0, .2]), snow=0)
    for _ in range(int(rng.integers(1, 6))):
        a = int(rng.integers(20, p.n)); k = int(rng.integers(1, 13))
        v = rng.integers(150, 1800, 6) * rng.choice([-1, 1], 6)
        sl = slice(a, a + k)
        p.b[:6, sl] += v[:, None]
        if rng.random() < .3:      # alternating direction
            p.b[:6, a:a + k:2] -= 2 * v[:, None]
    p.b[:6] = np.clip(p.b[:6], 1, 9999)
    p.tag = "temporary"
    return p


FAMILIES = [("boundary", boundary, 5), ("temporary", temporary, 3), ("series", series, 12), ("snow", snowy, 2), ("few", few, 2), ("gap", gappy, 2), ("flat", flat, 1),
            ("saturated", saturated, 1), ("extreme", extreme, 1), ("manybreaks", manybreaks, 1)]


def pixel(rng, families=None):
    fams = [f for f in FAMILIES if families is None or f[0] in families]
    w = np.array([f[2] for f in fams], float)
    return fams[rng.choice(len(fams), p=w / w.sum())][1](rng)


def cold_params(rng):
    p = dict(t_cg=float(rng.choice([15.0863, 15.0863, 9.236, 20.515, 6.0])), conse=int(rng.choice([6, 6, 6, 4, 8, 3, 1, 2, 11])),
             pos=int(rng.integers(1, 10 ** 6)), b_c2=bool(rng.random() < .4),
             gap_days=float(rng.choice([365.25, 365.25, 100, 1500, 0])))
    return p
