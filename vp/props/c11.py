META = dict(technique="runtime monitor: round trips through the stored form at every step of generated monitoring histories, continuation compared bit by bit",
            level_note="Holds on the explored histories. Every state along a history is written, read back, compared field by field and continued next to its in-memory twin.",
            N=dict(quick=8000, thorough=60000), kinds=["plain"], level="exploration", cpu=60,
            rule="one case = one pixel's history (retrospective start, successive updates, identification); each state is stored and reloaded alone and in one file with the states of "
                 "other pixels; non-trivial = a state with a model or a queue was stored",
            must_observe=["mode:0", "mode:1", "mode:3", "mode:4", "mode:5", "mode:11", "mode:12", "with-records", "continued", "identified", "file-pixels", "end-of-file", "raw-files", "wrong-length", "exporter"],
            assumptions=["padding bytes of structured arrays carry no meaning"])
import io, os, pickle
import numpy as np
import pandas as pd
import pycold
from pycold import utils
from pycold.common import SccdOutput, sccd_dt, nrtmodel_dt, nrtqueue_dt
from .. import gen, flow

DT = dict(rec_cg=sccd_dt, nrt_model=nrtmodel_dt, nrt_queue=nrtqueue_dt)


def fields(c, who, a, b):
    """every field of b equals a; containers keep their structured type"""
    ok = c.expect(tuple(b._fields) == tuple(a._fields), who + ":fields", str(getattr(b, "_fields", type(b))))
    for f in a._fields:
        x, y = getattr(a, f), getattr(b, f)
        if f in DT and len(x):
            ok &= c.expect(getattr(y, "dtype", None) == x.dtype, f"{who}:{f}:type", lambda: f"{getattr(y, 'dtype', type(y))}")
        if not hasattr(y, "dtype") and f in DT and len(y):
            return False
    d = flow.diff(a, b)
    return ok & c.expect(not d, f"{who}:equal", lambda: f"differs in {d} mode={a.nrt_mode}")


def save(s):
    return pickle.dumps(utils.unindex_sccdpack(s))


def load(b):
    return utils.index_sccdpack(pickle.loads(b))


def case(c):
    r = c.rng
    stored = []
    for pxi in range(int(r.integers(1, 4))):
        px = flow.pixel(r); k = flow.params(r)
        if px.n == 0:
            continue
        c.add_sig(px.d, px.b, px.qa, k)
        cut = int(r.choice([px.n, max(1, int(px.n * r.random()))]))
        c.desc = dict(px.desc(), params=k, first=cut); c.data = dict(px=px, params=k, first=cut)
        try:
            s = pycold.sccd_detect(*px.sub(slice(0, cut)).args(), **k)
        except RuntimeError:
            continue
        for hi in [cut] + flow.cuts(r, px.n, cut, int(r.choice([1, 2, 4, 8]))):
            if hi > cut:
                a = px.sub(slice(cut, hi)).args(); cut = hi
                s2 = pycold.sccd_update(s, *a, **k)
                t2 = pycold.sccd_update(t, *a, **k)
                c.stats["continued"] += 1
                fields(c, "continued", s2, t2)
                s = s2
            if r.random() < .3:
                q = dict(dist_conse=int(r.integers(1, 7)), t_cg_scale100=float(r.choice([100., 500., 1508.6])))
                s3, d = pycold.sccd_identify(s, **q)
                t3, e = pycold.sccd_identify(load(save(s)), **q)
                c.stats["identified"] += 1
                c.expect(d == e, "identified:date", f"{d} / {e}")
                fields(c, "identified", s3, t3)
                s = s3
            before = pickle.dumps([np.asarray(x) for x in s])
            b = save(s)
            c.expect(pickle.dumps([np.asarray(x) for x in s]) == before, "save:argument-unmodified", f"mode {s.nrt_mode}")
            t = load(b)
            c.stats["mode:%d" % s.nrt_mode] += 1; c.stats["with-records"] += len(s.rec_cg) > 0; c.stats["with-queue"] += len(s.nrt_queue) > 0
            c.nontrivial |= len(s.nrt_model) > 0 or len(s.nrt_queue) > 0
            fields(c, "reloaded", s, t)
            c.expect(isinstance(t, SccdOutput), "reloaded:type", str(type(t)))
            u = load(save(t))                      # stored again
            fields(c, "stored-twice", s, u)
            stored.append(s)
        if r.random() < .3:
            raw(c, s, px)
    if not stored:
        return
    # many pixels in one file, as the tile processor writes them
    order = r.permutation(len(stored)) if r.random() < .5 else range(len(stored))
    path = os.path.join(c.tmp, "record")
    with open(path, "wb+") as f:
        for i in order:
            pickle.dump(utils.unindex_sccdpack(stored[i]), f)
    with open(path, "rb") as f:
        for j, i in enumerate(order):
            x = pickle.load(f)
            c.stats["file-pixels"] += 1
            fields(c, "file", stored[i], utils.index_sccdpack(x))
        try:
            pickle.load(f); c.fail("file:end", "more pixels than written")
        except EOFError:
            c.stats["end-of-file"] += 1
    # the exporter reads the same files
    from pycold.imagetool import export_change_map as ex
    for s in stored[:3]:
        c.stats["exporter"] += 1
        t = ex.index_sccdpack(pickle.loads(save(s)))
        c.expect(len(t.rec_cg) == len(s.rec_cg) and t.position == s.position and t.nrt_mode == s.nrt_mode, "exporter:shape", f"mode {s.nrt_mode}")
        if len(s.rec_cg):
            c.expect(all(flow.same_value(s.rec_cg[n], t.rec_cg[n]) for n in sccd_dt.names), "exporter:records", f"mode {s.nrt_mode}")
        if len(s.nrt_model):
            c.expect(all(flow.same_value(s.nrt_model[n], t.nrt_model[n]) for n in nrtmodel_dt.names if n in t.nrt_model.dtype.names)
                     and set(nrtmodel_dt.names) == set(t.nrt_model.dtype.names), "exporter:model", f"mode {s.nrt_mode}: {t.nrt_model.dtype.names}")
        if len(s.nrt_queue):
            c.expect(all(flow.same_value(s.nrt_queue[n], t.nrt_queue[n]) for n in nrtqueue_dt.names), "exporter:queue", f"mode {s.nrt_mode}")
    x = list(utils.unindex_sccdpack(stored[0]))
    for bad in (x[:-1], x + [0], []):
        try:
            utils.index_sccdpack(bad); c.fail("wrong-length:accepted", f"{len(bad)} items")
        except Exception:
            c.stats["wrong-length"] += 1


def raw(c, s, px):
    """the raw dump used to debug: each part alone in a file"""
    os.makedirs(os.path.join(c.tmp, "raw"), exist_ok=True)
    out = os.path.join(c.tmp, "raw")
    data = pd.DataFrame(np.column_stack(px.args()))
    utils.save_nrtfiles(out, "7", s, data)
    c.stats["raw-files"] += 1
    rd = lambda n, t: np.fromfile(os.path.join(out, "sccd_pack7_" + n), dtype=t)
    c.expect(rd("nrt_mode", np.asarray(s.nrt_mode).dtype).tolist() == [s.nrt_mode], "raw:mode", "")
    c.expect(flow.same_value(rd("min_rmse", np.int16), s.min_rmse), "raw:min_rmse", "")
    for n, t in DT.items():
        x = getattr(s, n)
        got = rd(n, t) if len(x) else np.zeros(0)
        c.expect(len(got) == len(x) and (not len(x) or all(flow.same_value(x[f], got[f]) for f in t.names)), "raw:" + n, f"mode {s.nrt_mode}")
        if not len(x):
            c.expect(os.path.getsize(os.path.join(out, "sccd_pack7_" + n)) == 0, "raw:%s-empty" % n, "")
    back = utils.read_data(os.path.join(out, "spectral_7_extension.csv"))
    c.expect(np.array_equal(np.atleast_2d(back.T), data.to_numpy()), "raw:observations", "")
