"""Runs a slice of a property's cases; one JSON line per case on the result file."""
import argparse, importlib, json, os, resource, shutil, signal, sys, tempfile, time, traceback
from . import lib

SLOW = float(os.environ.get("VP_CASE_CPU", "0") or 0)


def shapeless(e):
    if isinstance(e, FileNotFoundError):
        return bool(e.filename) and os.environ.get("VP_SCRATCH", "/nowhere") in str(e.filename)
    return isinstance(e, (IndexError, KeyError, ValueError, EOFError)) or isinstance(e, (TypeError, AttributeError)) and "NoneType" in str(e)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop"); a.add_argument("--out", required=True)
    a.add_argument("--cases", required=True); a.add_argument("--seed", type=int, required=True)
    a.add_argument("--tier", required=True); a.add_argument("--cpu", type=float, default=120)
    o = a.parse_args()
    mod = importlib.import_module("vp.props." + o.prop.lower())
    lo, hi, step = (int(x) for x in o.cases.split(":"))
    out = open(o.out, "a", buffering=1)
    tmp = tempfile.mkdtemp(prefix="vpw-", dir=os.environ.get("VP_SCRATCH"))
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    if hasattr(mod, "setup"):
        mod.setup(tmp, o.tier, o.seed)
    out.write(json.dumps({"ready": 1}) + "\n")
    try:
        for i in range(lo, hi, step):
            out.write(json.dumps({"start": i}) + "\n")
            c = lib.Ctx(i, o.seed, o.tier)
            c.tmp = tmp
            r = {"case": i}
            t0 = time.time()
            signal.setitimer(signal.ITIMER_PROF, o.cpu)        # CPU time: independent of machine load
            try:
                mod.case(c)
            except lib.Violation as e:
                c.fail(e.key, e.detail, e.data)
            except lib.Inconclusive as e:
                c.soft(e)
            except MemoryError:
                raise
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                own = [f for f in tb if "/pycold/" in f.filename or "_colds_cython" in f.filename]
                if own and not getattr(mod, "OWN_EXCEPTIONS", False):      # raised inside the code under test on valid input
                    c.fail(f"unexpected-exception:{type(e).__name__}@{own[-1].name}", traceback.format_exc()[-1200:])
                elif shapeless(e):                    # the oracle could not even read what the code under test produced; never happens on the unchanged tree
                    c.fail(f"unreadable-result:{type(e).__name__}@{tb[-1].name}", traceback.format_exc()[-1200:])
                else:
                    r["error"] = traceback.format_exc()[-3000:]
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            r.update(t=round(time.time() - t0, 3), stats=lib.enc(dict(c.stats)), viol=[[k, d, lib.enc(x)] for k, d, x in c.violations], soft=c.inconclusive,
                     sig=c.sig.hex() if c.sig else None, nt=bool(c.nontrivial), desc=lib.enc(c.desc),
                     data=lib.enc(c.data) if c.violations else None)
            out.write(json.dumps(r) + "\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out.write(json.dumps({"done": 1}) + "\n")


if __name__ == "__main__":
    main()
