"""What a property module uses inside a worker: outcomes, counters, replay dumps."""
import collections, hashlib, json
import numpy as np


class Violation(Exception):
    """key identifies the failing condition; detail goes into the replay file."""

    def __init__(self, key, detail="", data=None):
        super().__init__(f"{key}: {detail}")
        self.key, self.detail, self.data = key, detail, data


class Inconclusive(Exception):
    pass


class Ctx:
    """Collects what the monitors observed in one case."""

    def __init__(self, index, seed, tier):
        self.index, self.seed, self.tier = index, seed, tier
        self.rng = np.random.default_rng([seed, index])
        self.stats = collections.Counter()
        self.violations = []
        self.inconclusive = []
        self.sig = None             # bytes identifying the case input
        self.nontrivial = False
        self.desc = None            # short description of the case (evidence sample)
        self.data = None            # replay data
        self.tmp = None             # scratch directory of the worker

    def rngs(self, *k):
        return np.random.default_rng([self.seed, self.index, *k])

    def fail(self, key, detail="", data=None):
        self.violations.append((str(key), str(detail)[:1500], data))

    def soft(self, why):
        self.inconclusive.append(str(why)[:300])

    def expect(self, ok, key, detail="", data=None):
        self.stats["monitor:" + key] += 1
        if not ok:
            self.fail(key, detail() if callable(detail) else detail, data)
        return bool(ok)

    def add_sig(self, *parts):
        h = hashlib.blake2b(self.sig or b"", digest_size=12)
        for p in parts:
            h.update(p.tobytes() if isinstance(p, np.ndarray) else repr(p).encode())
        self.sig = h.digest()


def enc(o):
    if isinstance(o, np.ndarray):
        return o.tolist() if o.dtype.names is None else [enc(x) for x in o.tolist()]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.generic):
        return enc(o.tolist())
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [enc(x) for x in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "dump"):
        return o.dump()
    return repr(o)


def dumps(o):
    return json.dumps(enc(o))
