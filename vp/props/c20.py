META = dict(technique="runtime monitor: allocator accounting (live heap bytes, live Python blocks, open files) over repeated calls of every per-pixel function",
            level_note="Holds on the explored calls. Growth counts only when every one of three consecutive rounds of identical calls keeps memory, so caches and allocator noise do not.",
            N=dict(quick=400, thorough=3000), kinds=["plain"], level="exploration", cpu=200,
            rule="one case = one pixel with parameters; each per-pixel function is called repeatedly with the same arguments, its results dropped; non-trivial = a call returned a record or a state",
            must_observe=["fn:cold", "fn:cold-cm", "fn:recon", "fn:sccd", "fn:pinpoint", "fn:update", "fn:identify", "fn:store", "rounds", "records", "breaks", "fallback", "mode:1", "mode:3", "mode:4", "mode:5", "mode:12"],
            assumptions=["only accepted calls are repeated; what a rejected call leaves behind is not part of the property"])
import ctypes, gc, os, pickle, sys
import numpy as np
import pycold
from pycold import utils
from .. import gen, flow

CALLS, ROUNDS, LIMIT = 8, 3, 24          # a call that keeps 24 bytes or more in each round leaks


class _MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _MI


def used():
    gc.collect()
    m = _libc.mallinfo2()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks(), len(os.listdir("/proc/self/fd"))


def growth(f, calls=CALLS):
    """per call and per round: heap bytes, Python blocks, files; the smallest round decides"""
    for _ in range(3 if calls == CALLS else 3 * calls):          # caches fill first
        f()
    out = []
    for _ in range(ROUNDS):
        a = used()
        for _ in range(calls):
            f()
        b = used()
        out.append([(y - x) / calls for x, y in zip(a, b)])
    lo = [min(r[k] for r in out) for k in range(3)]
    if calls == CALLS and (lo[0] >= LIMIT or lo[1] >= .95 or lo[2] > 0):      # noise of the measurement does not grow with the number of calls
        return growth(f, 12 * CALLS)
    return lo, out


def case(c):
    r = c.rng
    px = flow.pixel(r)
    if px.n == 0:
        return
    if r.random() < .25:
        px = flow.thin(r, px)
    p = gen.cold_params(r); q = flow.params(r)
    c.add_sig(px.d, px.b, px.qa, p, q)
    c.desc = dict(px.desc(), cold=p, sccd=q); c.data = dict(px=px, cold=p, sccd=q)
    a = px.args(); cut = max(1, int(px.n * r.random()))
    first, rest = px.sub(slice(0, cut)).args(), px.sub(slice(cut, px.n)).args()
    br = np.sort(r.choice(px.d, int(r.integers(1, 4)))).astype(np.int64)
    state = None
    rp = {k: p[k] for k in ("conse", "pos", "b_c2") if k in p}
    fs = {"cold": lambda: pycold.cold_detect(*a, **p), "cold-cm": lambda: pycold.cold_detect(*a, b_output_cm=True, **p), "recon": lambda: pycold.obcold_reconstruct(*a, br, **rp),
          "sccd": lambda: pycold.sccd_detect(*a, **q), "pinpoint": lambda: pycold.sccd_detect(*a, b_pinpoint=True, **q)}
    try:
        state = pycold.sccd_detect(*first, **q)
    except RuntimeError:
        pass
    if state is not None:
        if cut < px.n:
            fs["update"] = lambda: pycold.sccd_update(state, *rest, **q)
        fs["identify"] = lambda: pycold.sccd_identify(state)
        fs["store"] = lambda: utils.index_sccdpack(pickle.loads(pickle.dumps(utils.unindex_sccdpack(state))))
    for n, f in fs.items():
        try:
            x = f()
        except Exception:
            c.stats["rejected"] += 1
            continue
        if n in ("cold", "recon") and len(x):
            c.stats["records"] += 1; c.stats["breaks"] += int((x["t_break"] > 0).any()); c.stats["fallback"] += int((x["category"] >= 40).any())
            c.nontrivial = True
        c.nontrivial |= n == "update"
        if n in ("sccd", "update"):
            c.stats["mode:%d" % x.nrt_mode] += 1
        del x
        lo, rounds = growth(f)
        c.stats["fn:" + n] += 1; c.stats["rounds"] += ROUNDS
        c.expect(lo[0] < LIMIT, "heap:" + n, lambda: f"bytes, blocks, files kept per call and round {rounds}")
        c.expect(lo[1] < .95, "objects:" + n, lambda: f"bytes, blocks, files kept per call and round {rounds}")
        c.expect(lo[2] <= 0, "files:" + n, lambda: f"bytes, blocks, files kept per call and round {rounds}")
