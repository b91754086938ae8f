"""ctypes binding of the reference model."""
import ctypes as C
import numpy as np
from . import env
_lib = None
rec_dt = np.dtype([("v", np.int32, 7), ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7), ("magnitude", np.float32, 7)])
CAP = 4000


def lib():
    global _lib
    if _lib is None:
        _lib = C.CDLL(str(env.reflib()))
    return _lib


class variant:
    """with variant(k): fits and predictions carry last-place noise (k = 0: none)"""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        lib().ref_variant(C.c_uint(self.k))

    def __exit__(self, *a):
        lib().ref_variant(C.c_uint(0))


def P(a):
    return a.ctypes.data_as(C.c_void_p)


def cold(px, t_cg=15.0863, conse=6, pos=1, b_c2=False, gap_days=365.25, cm=None):
    """cm = (start, n, step) or None. Returns (records, margin, where, cmvals)"""
    r = np.zeros(CAP, rec_dt); m = C.c_double(); w = C.create_string_buffer(64)
    n = cm[1] if cm else 1
    v = np.full(n, -9999, np.int16); d = np.full(n, -9999, np.int16); rv = np.full(n, -9999, np.int16)
    st, sp = (cm[0], cm[2]) if cm else (0, 1)
    b = np.ascontiguousarray(px.b)
    k = lib().ref_cold(px.n, P(px.d), P(b), P(px.qa), C.c_double(t_cg), conse, int(b_c2), C.c_double(gap_days), pos,
                       int(cm is not None), int(st), int(n), int(sp), P(v), P(d), P(rv), P(r), CAP, C.byref(m), w)
    return (r[:k] if k >= 0 else k), m.value, w.value.decode(), (v, d, rv)


def recon(px, breaks, conse=6, pos=1, b_c2=False):
    r = np.zeros(CAP, rec_dt); m = C.c_double(); w = C.create_string_buffer(64)
    br = np.ascontiguousarray(breaks, dtype=np.int64); b = np.ascontiguousarray(px.b)
    k = lib().ref_recon(px.n, P(px.d), P(b), P(px.qa), len(br), P(br), conse, int(b_c2), pos, P(r), CAP, C.byref(m), w)
    return (r[:k] if k >= 0 else k), m.value, w.value.decode()


model_dt = np.dtype([("t_start", "i4"), ("num_obs", "i4"), ("obs", "i4", (6, 8)), ("date", "i4", 8), ("cov", "f4", (6, 36)), ("coef", "f4", (6, 6)),
                     ("H", "f4", 6), ("sum", "u4", 6), ("norm", "i4"), ("angle", "i4"), ("last", "i4")])
seg_dt = np.dtype([("t_start", "i4"), ("t_break", "i4"), ("num_obs", "i4"), ("coefs", "f4", (6, 6)), ("rmse", "f4", 6), ("magnitude", "f4", 6)])
pin_dt = np.dtype([("t_break", "i4"), ("coefs", "f4", (6, 6)), ("obs", "i4", (6, 8)), ("date", "i4", 8), ("norm", "i4", 8), ("angle", "i4", 8)])
queue_dt = np.dtype([("y", "i4", 6), ("date", "i4")])
MODEL = dict(t_start="t_start_since1982", num_obs="num_obs", obs="obs", date="obs_date_since1982", cov="covariance", coef="nrt_coefs", H="H", sum="rmse_sum",
             norm="norm_cm", angle="cm_angle", last="conse_last")
QUEUE = dict(y="clry", date="clrx_since1982")
SEG = dict(t_start="t_start", t_break="t_break", num_obs="num_obs", coefs="coefs", rmse="rmse", magnitude="magnitude")
PIN = dict(t_break="t_break", coefs="coefs", obs="obs", date="obs_date_since1982", norm="norm_cm", angle="cm_angle")


def conv(a, names, dt):
    """the repository's structured array in the model's layout"""
    a = np.atleast_1d(a)
    out = np.zeros(len(a) if a.dtype.names else 0, dt)
    for k, v in names.items():
        if len(out):
            out[k] = a[v].reshape(out[k].shape)
    return out


def sccd(px, state=None, t_cg=15.0863, conse=6, pos=1, b_c2=True, gate_tcg=9.236, pin=False, pred=9.236):
    """state: None (fresh) or a dict as returned.  Returns (state, margin, where); state["segs"] holds the newly closed segments."""
    s = state or dict(mode=0, nseg=0, floor=np.zeros(6, np.int32), model=np.zeros(1, model_dt), queue=np.zeros(0, queue_dt))
    m = s["model"].copy() if len(s["model"]) else np.zeros(1, model_dt)
    nq = C.c_int32(len(s["queue"])); q = np.zeros(max(CAP, len(s["queue"]) + px.n), queue_dt); q[:nq.value] = s["queue"]
    mode, nseg, npin = C.c_int32(int(s["mode"])), C.c_int32(int(s["nseg"])), C.c_int32(0)
    fl = np.ascontiguousarray(s["floor"], np.int32).copy(); seg = np.zeros(CAP, seg_dt); pins = np.zeros(CAP, pin_dt)
    mg = C.c_double(); w = C.create_string_buffer(64); b = np.ascontiguousarray(px.b)
    k = lib().ref_sccd(px.n, P(px.d), P(b), P(px.qa), C.c_double(t_cg), conse, int(b_c2), int(pin), C.c_double(gate_tcg), C.c_double(pred),
                       C.byref(mode), C.byref(nseg), P(fl), P(m), P(q), C.byref(nq), P(seg), P(pins), C.byref(npin), CAP, C.byref(mg), w)
    if k < 0:
        return k, mg.value, w.value.decode()
    v = mode.value
    out = dict(mode=v, nseg=nseg.value, floor=fl, model=m if v % 10 in (1, 5) or v == 3 else m[:0], queue=q[:nq.value] if v % 10 in (2, 4, 5) else q[:0],
               segs=seg[:k], pins=pins[:npin.value])
    return out, mg.value, w.value.decode()


def state(s):
    """monitor state of the real code in the model's form"""
    return dict(mode=int(s.nrt_mode), nseg=len(s.rec_cg), floor=np.asarray(s.min_rmse, np.int32), model=conv(s.nrt_model, MODEL, model_dt), queue=conv(s.nrt_queue, QUEUE, queue_dt))
