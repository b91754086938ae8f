META = dict(technique="AddressSanitizer + UndefinedBehaviorSanitizer + valgrind memcheck over hostile workloads",
            level_note="No report on the executions explored. Address/undefined/float-cast sanitizers see out-of-bounds, use-after-free, overflow, invalid shifts and conversions; memcheck sees reads "
                       "of values nobody wrote that reach a branch, an address or the returned bytes. Code not reached is not judged.",
            N=dict(quick=100, thorough=100), phases=[("asan", dict(quick=800, thorough=12000)), ("memcheck", dict(quick=128, thorough=3000))], kinds=["asan", "memcheck"], level="exploration", cpu=300,
            budget=dict(quick=600, thorough=860), floor=dict(quick=400, thorough=2000),
            rule="one case = one hostile pixel run through detection with change magnitudes, reconstruction, stochastic detection with and without pinpoint, a chain of updates and "
                 "identification in an instrumented build; non-trivial = at least one native call returned a result",
            must_observe=["cold", "recon", "sccd", "pinpoint", "update", "identify", "returned-values-defined", "mode:1", "mode:3", "mode:4", "mode:5", "mode:12", "big", "cold:segments>10", "breaks>scenes"],
            assumptions=["stochastic detection is used within 1982-2071 and 16-bit band values", "the Python interpreter and numpy are trusted"])
import numpy as np
import pycold
from .. import gen, flow
from . import c04, c10


def touch(c, x):
    """make every returned value decide a branch, so that memcheck sees a value nobody wrote"""
    if x is None or isinstance(x, (str, int)):
        return
    if hasattr(x, "_fields") or isinstance(x, (list, tuple)):
        for y in x:
            touch(c, y)
        return
    if isinstance(x, np.ndarray) and x.size:
        for n in (x.dtype.names or [None]):
            if n == "align":
                continue
            v = np.ascontiguousarray(x[n] if n else x)
            c.stats["returned-values-defined"] += v.size
            int(np.count_nonzero(v.view(np.uint8).reshape(-1)))       # making a Python int branches on its value


def big(rng):
    n = int(rng.integers(1200, 4000))
    p = gen.series(rng, n=n, mode=rng.choice(["dense", "8day"]), start=723800, cloud=rng.choice([0, .3]))
    p.tag = "big"
    return p


def case(c):
    r = c.rng
    px = flow.pixel(r) if r.random() > .03 else big(r) if r.random() < .5 else flow.pixel(r, ["manybreaks"])
    p = gen.cold_params(r); k = flow.params(r)
    if px.n == 0:
        return
    if c.rngs(8).random() < .08:
        px = flow.thin(c.rngs(8), px)
    if px.tag == "big":
        c.stats["big"] += 1
        px.d = np.minimum(px.d, flow.L4 + 32767)
    c.desc = dict(px.desc(), params=p, sccd=k); c.data = dict(px=px, params=p, sccd=k); c.add_sig(px.d, px.b, px.qa, p, k)

    def call(name, f, *a, **kw):
        try:
            x = f(*a, **kw)
        except (RuntimeError, ValueError, Exception) as e:
            c.stats["raised:" + name] += 1
            return None
        c.stats[name] += 1; c.nontrivial = True
        touch(c, x)
        return x
    iv = int(r.integers(1, 200)); cm = dict(b_output_cm=True, cm_output_interval=iv, starting_date=int(px.d[0]) - int(r.integers(0, 3 * iv)) * int(r.random() < .5))
    if r.random() < .5:
        cm["n_cm"] = (int(px.d[-1]) - cm["starting_date"]) // iv + 1 + int(r.choice([-1, 0, 0, 1, 5]))
    x = call("cold", pycold.cold_detect, *px.args(), **cm, **p)
    if x is not None and len(x[0]) > 10:
        c.stats["cold:segments>10"] += 1
    q = dict(conse=p["conse"], pos=p["pos"], b_c2=p["b_c2"])
    call("recon", pycold.obcold_reconstruct, *px.args(), c04.breaks(c.rngs(3), px, p), **q)
    call("recon", pycold.obcold_reconstruct, *px.args(), r.choice(px.d, int(r.choice([1, 2, 40, 200]))), **q)
    r9 = c.rngs(9)
    if r9.random() < .3:          # more breaks than scenes, over the whole calendar, in any order
        br = r9.permutation(np.arange(int(r9.integers(1, 700)), 735000, int(r9.choice([366, 400, 365, 731])))); c.stats["breaks>scenes"] += int(len(br) > px.n)
        t = px.sub(slice(0, max(1, min(px.n, int(r9.integers(10, 200))))))
        call("recon", pycold.obcold_reconstruct, *t.args(), br[:int(r9.choice([2000, 2000, t.n + 1, 2 * t.n]))], **q)
    call("pinpoint", pycold.sccd_detect, *px.args(), b_pinpoint=True, **k)
    if r.random() < .3:
        kind, B = c10.bad_arrays(r, px.args(), "cold_detect")
        f = [pycold.cold_detect, pycold.sccd_detect][int(r.integers(0, 2))]
        try:
            f(*B); c.stats["bad-input-accepted"] += 1
        except Exception:
            c.stats["bad-input-rejected"] += 1
    lo = int(r.choice([px.n, max(1, int(px.n * r.random()))]))
    s = call("sccd", pycold.sccd_detect, *px.sub(slice(0, lo)).args(), **k)
    if s is None:
        return
    c.stats["mode:%d" % s.nrt_mode] += 1
    for hi in flow.cuts(r, px.n, lo, pieces=int(r.choice([1, 3, 8]))):
        y = call("identify", pycold.sccd_identify, s, dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([1., 500., 1508.6])), t_angle_scale100=int(r.choice([4500, 17999])))
        if y is not None and r.random() < .5:
            s = y[0]
        s = call("update", pycold.sccd_update, s, *px.sub(slice(lo, hi)).args(), **k)
        if s is None:
            return
        c.stats["mode:%d" % s.nrt_mode] += 1
        lo = hi
