"""Drives a check: builds, spawns workers, survives their crashes, judges, writes evidence."""
import argparse, collections, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from . import env

NPROC = int(os.environ.get("VP_NPROC") or min(8, os.cpu_count() or 1))
BASE = 10 ** 7
FIRST = bool(os.environ.get("VP_FIRST"))     # stop at the first violation (used by tools/mutate.py)
KNOWN = env.VERIF / "known_findings.txt"


def known():
    out = []
    if KNOWN.exists():
        for l in KNOWN.read_text().splitlines():
            if l.startswith("{"):
                o = json.loads(l)
                if o.get("status") == "known":
                    out.append(o)
    return out


def san_reason(text):
    m = re.search(r"==\d+== (Invalid \w+ of size \d+|Conditional jump or move depends on uninitialised value|Use of uninitialised value of size \d+|"
                  r"Invalid free|Mismatched free|Syscall param [^\n]*|Source and destination overlap[^\n]*|Argument [^\n]*fishy[^\n]*|Process terminating[^\n]*)[^\n]*\n((?:==\d+==.*\n){0,30})", text)
    if m:
        f = re.search(r"(?:at|by) 0x\w+: (\S+) \((?:in )?[^)]*(?:\.c|\.cpp|\.f|_colds_cython[^)]*):?\d*\)", m.group(2)) or re.search(r"(?:at|by) 0x\w+: (\S+)", m.group(2))
        return f"memcheck:{m.group(1).replace(' ', '_')}@{f.group(1) if f else '?'}"
    m = re.search(r"ERROR: AddressSanitizer: (\S+).*?\n((?:.*\n){0,40})", text)
    if m:
        f = re.search(r"#\d+ \S+ in (\S+) .*?/src/(?:cxx|python/pycold)/", m.group(2)) or re.search(r"#\d+ \S+ in (\S+)", m.group(2))
        return f"asan:{m.group(1)}@{f.group(1) if f else '?'}"
    m = re.search(r"([^\s:]+/src/\S+?):(\d+):\d+: runtime error: (.*)", text) or re.search(r"(\S+?):(\d+):\d+: runtime error: (.*)", text)
    if m:
        f = re.search(r"#0 \S+ in (\S+)", text[m.end():m.end() + 400])
        return f"ubsan:{re.sub('-?[0-9][-0-9.e+]*', 'N', m.group(3))[:60].replace(' ', '_')}@{f.group(1) if f else os.path.basename(m.group(1))}"
    return None


class Slot:
    def __init__(self, k):
        self.k = k; self.p = None; self.next = k; self.cur = None; self.pos = 0; self.buf = ""; self.crashes = 0
        self.done = False; self.retried = set(); self.single = None; self.fails0 = 0


class Run:
    def __init__(self, prop, tier, seed, total, kind, cases=None):
        self.prop, self.tier, self.seed, self.total, self.kind = prop, tier, seed, total, kind
        self.base = 0                   # added to a case number to make it unique among the phases
        self.results, self.crash, self.errors = [], [], []
        self.cases = cases

    def spawn(self, s, rng):
        s.out = os.path.join(self.dir, f"r{s.k}"); s.err = os.path.join(self.dir, f"e{s.k}")
        open(s.out, "w").close()
        s.pos = 0; s.buf = ""; s.cur = None; s.t = time.time(); s.ready = False
        pre = env.PREFIX.get(self.kind, [])
        cmd = pre + [env.PY, "-m", "vp.worker", self.prop, "--out", s.out, "--cases", rng, "--seed", str(self.seed),
               "--tier", self.tier, "--cpu", str(self.cpu)]
        s.ef = open(s.err, "wb")
        s.p = subprocess.Popen(cmd, env=self.penv, cwd=self.dir, stdout=s.ef, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)

    def read(self, s):
        with open(s.out) as f:
            f.seek(s.pos); t = f.read(); s.pos = f.tell()
        s.buf += t
        *lines, s.buf = s.buf.split("\n")
        for l in lines:
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if "start" in r:
                s.cur = r["start"]; s.t = time.time()
            elif "case" in r:
                self.results.append(r); s.cur = None; s.next = r["case"] + self.np
            elif "ready" in r:
                s.ready = True
            elif "done" in r:
                s.done = True

    def go(self, deadline, cpu=120, wall=200):
        self.cpu = cpu
        self.np = max(1, min(NPROC, self.total))
        self.dir = tempfile.mkdtemp(prefix=f"vp-{self.prop}-")
        self.penv = env.py_env(self.kind, VP_SCRATCH=self.dir, HOME=self.dir, TMPDIR=self.dir, MPLCONFIGDIR=self.dir)
        self.cut = self.found = False; seen = 0; knownkeys = {k["key"] for k in known() if k["property"] == self.prop}
        try:
            slots = [Slot(k) for k in range(self.np)]
            for s in slots:
                self.spawn(s, f"{s.next}:{self.total}:{self.np}")
            while any(s.p for s in slots):
                time.sleep(0.05)
                for s in slots:
                    if not s.p:
                        continue
                    rc = s.p.poll()
                    self.read(s)
                    if not self.found and (any("crash:" + q["why"] not in knownkeys for q in self.crash) or any(v[0] not in knownkeys for r in self.results[seen:] for v in r["viol"])):
                        self.found = True; deadline = min(deadline, time.time() + (0 if FIRST else 30))     # a few more for the report
                    seen = len(self.results)
                    if rc is None:
                        if time.time() > deadline:
                            self.cut = True
                            self.kill(s); s.p = None
                        elif time.time() - s.t > wall:
                            self.kill(s); rc = "wall"
                        else:
                            continue
                    if rc not in (None, "wall") and self.cut:       # ended by itself while the run is being stopped
                        s.ef.close(); s.p = None; continue
                    if rc == "wall" or rc is not None and not self.cut:
                        self.read(s); s.ef.close()
                        if rc == 0 and s.done:
                            s.p = None; continue
                        self.died(s, rc)
                        if s.crashes > 12 or s.fails0 > 1 or s.next >= self.total:
                            s.p = None
                        else:
                            self.spawn(s, f"{s.next}:{self.total}:{self.np}")
        finally:
            for s in slots:
                if s.p:
                    self.kill(s)
            shutil.rmtree(self.dir, ignore_errors=True)
        return self

    def kill(self, s):
        try:
            os.killpg(s.p.pid, 9)
        except ProcessLookupError:
            pass
        s.p.wait()

    def died(self, s, rc):
        text = open(s.err, errors="replace").read()
        try:
            os.killpg(s.p.pid, 9)
        except ProcessLookupError:
            pass
        if s.cur is None:
            s.fails0 += 1
            self.errors.append(f"worker ended with {rc} outside a case: {text[-3000:]}")
            return
        s.crashes += 1
        why = san_reason(text) or ("hang" if rc in (-27, "wall") else f"signal{-rc}" if isinstance(rc, int) and rc < 0 else f"exit{rc}")
        i = s.cur
        if rc == "wall" and i not in s.retried:       # wall-clock: possibly a slow machine; try once more
            s.retried.add(i); s.next = i; return
        if rc == -9 and i not in s.retried:           # killed from outside (memory guard)
            s.retried.add(i); s.next = i; return
        self.crash.append(dict(case=i, why=why, rc=rc, text=text[-6000:]))
        s.next = i + self.np


def main(argv=None):
    a = argparse.ArgumentParser()
    a.add_argument("prop"); a.add_argument("--tier", default=env.TIER); a.add_argument("--seed", type=int, default=env.SEED)
    a.add_argument("--cases", type=int); a.add_argument("--replay")
    o = a.parse_args(argv)
    sys.path.insert(0, str(env.VERIF))
    prop = o.prop.upper()
    import importlib.util
    meta = load_meta(prop)
    if o.replay:
        r = json.load(open(o.replay)); o.seed, o.tier = r["seed"], r["tier"]
    env.SEED, env.TIER = o.seed, o.tier
    t0 = time.time()
    total = o.cases or meta["N"][o.tier]
    budget = meta.get("budget", {"quick": 500, "thorough": 840})[o.tier]
    try:
        kinds = [os.environ.get("VP_KIND")] if os.environ.get("VP_KIND") else meta.get("kinds", ["plain"])
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            jobs = [ex.submit(env.overlay, k) for k in kinds] + ([ex.submit(env.reflib)] if meta.get("ref", False) else [])
            for j in jobs:
                j.result()
        phases = [dict(kind=kinds[0], N=total)]
        if meta.get("phases"):
            phases = [dict(kind=k, N=max(1, n[o.tier] * (o.cases or 100) // 100)) for k, n in meta["phases"] if k in kinds]
            total = sum(p["N"] for p in phases)
        runs = []
        for k, ph in enumerate(phases):
            base = k * BASE
            if o.replay:
                if r["case"] // BASE != k:
                    continue
                run = Run(prop, o.tier, o.seed, r["case"] % BASE + 1, ph["kind"]); run.base = base
                run_one(run, r["case"] % BASE)
            else:
                run = Run(prop, o.tier, o.seed, ph["N"], ph["kind"]); run.base = base
                if any(q.found for q in runs): continue
                run.go(t0 + budget * (k + 1) / len(phases), cpu=meta.get("cpu", 120))
            runs.append(run)
        run = runs[0]
        for q in runs:
            for x in q.results + q.crash:
                x["case"] += q.base
        for q in runs[1:]:
            run.results += q.results; run.crash += q.crash; run.errors += q.errors; run.cut |= q.cut
        ev_extra = {f"cases:{q.kind}": len(q.results) for q in runs}
    except env.HarnessError as e:
        print("HARNESS-ERROR", e); return 3
    return judge(prop, o, meta, run, t0, total, ev_extra)


def run_one(run, case):
    """replay a single case in its own worker"""
    run.np = 1; run.cpu = 300; run.cut = False
    run.dir = tempfile.mkdtemp(prefix="vp-replay-")
    run.penv = env.py_env(run.kind, VP_SCRATCH=run.dir, HOME=run.dir, TMPDIR=run.dir, MPLCONFIGDIR=run.dir)
    s = Slot(case); s.next = case
    run.spawn(s, f"{case}:{case + 1}:1")
    rc = s.p.wait(); run.read(s); s.ef.close()
    if not (rc == 0 and s.done):
        run.died(s, rc)
    shutil.rmtree(run.dir, ignore_errors=True)


def load_meta(prop):
    """META of a property module, read without importing the package under test"""
    import ast
    src = (env.VERIF / "vp/props" / (prop.lower() + ".py")).read_text()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "META":
            return eval(compile(ast.Expression(n.value), prop, 'eval'), dict(dict=dict))
    raise env.HarnessError("no META in " + prop)


def judge(prop, o, meta, run, t0, total, extra):
    stats = collections.Counter(); soft = collections.Counter(); sigs = set(); samples = []; viol = []
    slow = 0
    for r in sorted(run.results, key=lambda r: r["case"]):
        stats.update(r["stats"])
        slow = max(slow, r["t"])
        for x in r["soft"]:
            soft[x.split(":")[0]] += 1
        if r.get("error"):
            run.errors.append(f"case {r['case']}: {r['error']}")
        if r["nt"] and r["sig"]:
            if r["sig"] not in sigs and len(samples) < 5 and r["desc"] is not None:
                samples.append(dict(case=r["case"], **(r["desc"] if isinstance(r["desc"], dict) else {"desc": r["desc"]})))
            sigs.add(r["sig"])
        for k, d, x in r["viol"]:
            viol.append(dict(case=r["case"], key=k, detail=d, data=x if x is not None else r["data"]))
    for c in run.crash:
        viol.append(dict(case=c["case"], key="crash:" + c["why"], detail=c["text"], data=None))
    kf = [k for k in known() if k["property"] == prop]
    new, seen_known = [], {}
    for v in viol:
        m = [k for k in kf if k["key"] == v["key"] and (not k.get("match") or re.search(k["match"], v["detail"]))]
        if m:
            seen_known.setdefault(m[0]["what"], []).append(v)
        else:
            new.append(v)
    cov = dict(evaluations=len(run.results), distinct_nontrivial=len(sigs), rule=meta["rule"], samples=samples,
               observed={k: v for k, v in sorted(stats.items())}, inconclusive=dict(soft), crashes=len(run.crash),
               planned_cases=total, builds=extra, cut_by_deadline=run.cut, slowest_case_s=slow)
    ev = dict(property=prop, tier=o.tier, seed=o.seed, level=meta["level"], coverage=cov, assumptions=meta.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    env.EVID.mkdir(exist_ok=True)
    if not o.replay:
        (env.EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for what in {k["what"] for k in kf}:
        print(f"KNOWN-FINDING: property={prop} {what}")
    for e in run.errors[:3]:
        print("HARNESS-ERROR", e)
    print(f"{prop} {o.tier} seed={o.seed}: {len(run.results)}/{total} cases, {len(sigs)} distinct non-trivial, {len(new)} violations, "
          f"{sum(soft.values())} inconclusive, {len(run.errors)} errors, {time.time() - t0:.1f} s")
    if new:
        by = collections.OrderedDict()
        for v in new:
            by.setdefault(v["key"], []).append(v)
        rd = env.EVID / "replay"; rd.mkdir(exist_ok=True)
        for key, vs in list(by.items())[:8]:
            name = re.sub(r"[^A-Za-z0-9_.@-]+", "_", key)[:80]
            path = rd / f"{prop}-{name}-{vs[0]['case']}.json"
            if not o.replay:
                path.write_text(json.dumps(dict(property=prop, seed=o.seed, tier=o.tier, case=vs[0]["case"], key=key,
                                                detail=vs[0]["detail"], data=vs[0]["data"], occurrences=len(vs)), indent=1))
            print(f"  {key} x{len(vs)}: case {vs[0]['case']}: {vs[0]['detail'][:700]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if run.errors:
        return 3
    floor = meta.get("floor", {}).get(o.tier, max(1, total // 10) if not o.cases else 1)
    if not o.replay and len(sigs) < floor:
        print(f"HARNESS-ERROR only {len(sigs)} non-trivial cases observed (floor {floor})"); return 3
    missing = [k for k in meta.get("must_observe", []) if not stats[k]]
    if missing and not o.replay and not o.cases:
        print("HARNESS-ERROR never observed:", missing); return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
