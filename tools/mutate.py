#!/usr/bin/env python3
"""mutate.py FILE CHECKS [--n N] [--seed S] [--lines a-b,c-d] [--cov LINEFILE] [--proc P] [--cases PCT]: random small mutations of one source file,
each in a scratch clone of /repo, run through the given checks (comma separated, in this order, stopping at the first one that reports a
violation).  Prints one line per mutant; survivors are candidates for a missing check (or equivalent mutants)."""
import argparse, hashlib, os, pathlib, random, re, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
a = argparse.ArgumentParser(); a.add_argument("file"); a.add_argument("checks"); a.add_argument("--n", type=int, default=10); a.add_argument("--seed", type=int, default=0)
a.add_argument("--lines"); a.add_argument("--cov"); a.add_argument("--proc", default="8"); a.add_argument("--timeout", type=int, default=900)
o = a.parse_args(); R = random.Random(f"{o.file}{o.seed}")
W = pathlib.Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp")); repo = W / "r"
subprocess.run(["git", "clone", "-q", "/repo", str(repo)], check=True)
f = repo / o.file; src = f.read_text(encoding="utf-8", errors="surrogateescape").split("\n"); py = o.file.endswith((".py", ".pyx")); F = o.file.endswith(".f")
ok = set(range(1, len(src) + 1))
if o.lines:
    ok &= {k for p in o.lines.split(",") for k in range(int(p.split("-")[0]), int(p.split("-")[1]) + 1)}
if o.cov:
    ok &= {int(x) for x in open(o.cov).read().split()}
BIN = {" < ": [" <= ", " >= "], " > ": [" >= ", " <= "], " <= ": [" < ", " > "], " >= ": [" > ", " < "], " == ": [" != "], " != ": [" == "], " && ": [" || "], " || ": [" && "],
       " + ": [" - "], " - ": [" + "], " * ": [" / "], " / ": [" * "], " and ": [" or "], " or ": [" and "], "not ": [""], "++": ["--"], " True": [" False"], " False": [" True"],
       "TRUE": ["FALSE"], "FALSE": ["TRUE"], "continue": ["break" if py else ";"], "fabs(": ["("], "sqrt(": ["("], "min(": ["max("], "max(": ["min("], " += ": [" = ", " -= "], " -= ": [" += "],
       "+=": ["="], ".lt.": [".le."], ".le.": [".lt."], ".gt.": [".ge."], ".ge.": [".gt."]}


def cands():
    incom = False; doc = False
    for k, l in enumerate(src, 1):
        s = l.strip()
        if py and s.count('"""') % 2 == 1:
            doc = not doc; continue
        if doc or (not py and not F and incom):
            if "*/" in s: incom = False
            continue
        if not py and not F and s.startswith("/*"):
            if "*/" not in s: incom = True
            continue
        if k not in ok or not s or s.startswith(("//", "#", "*", "printf", "RETURN_ERROR", "import", "from ", "logger", "def ", "raise", "print")) or (F and l[:1] in "cC*!"):
            continue
        code = l.split("#")[0] if py else l.split("//")[0].split("/*")[0]
        for m in BIN:
            for x in re.finditer(re.escape(m), code):
                for r in BIN[m]:
                    yield k, l[:x.start()] + r + l[x.end():]
        for x in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(x.group(1))
            yield k, l[:x.start()] + str(v + 1) + l[x.end():]
            if v: yield k, l[:x.start()] + str(v - 1) + l[x.end():]
        for x in re.finditer(r"(?<![\w.])(\d*\.\d+)(?![\w.])", code):
            yield k, l[:x.start()] + repr(float(x.group(1)) * 1.1 + (0.1 if not float(x.group(1)) else 0)) + l[x.end():]
        if not py and not F and re.match(r"\s*[\w\[\]>.*-]+ [+-]?= .*;\s*$", code):
            yield k, re.match(r"\s*", l).group() + ";"
        if py and re.match(r"\s+[\w\[\], .:]+ [+-]?= [^({\[]*$|\s+[\w.]+\(.*\)\s*$", code):
            yield k, re.match(r"\s*", l).group() + "pass"
        if py and re.match(r"\s*(if|while|elif) .*:\s*$", code) and " not " not in code:
            yield k, re.sub(r"(if|while|elif) (.*):\s*$", r"\1 not (\2):", code)


C = list(dict.fromkeys(cands())); per = {}
for k, t in C: per.setdefault(k, []).append(t)
lines = list(per); R.shuffle(lines)
E = dict(os.environ, VP_REPO=str(repo), VP_BUILD=str(W / "b"), VP_EVID=str(W / "e"), VP_NPROC=o.proc, VP_FIRST="1")
CB = W / "cb"; VENV = "/opt/pycold-venv"
def overlay():
    """incremental build; the overlay the checks look for is put in place"""
    if not CB.exists():
        subprocess.run(["cmake", "-S", str(repo), "-B", str(CB), "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", f"-DPYTHON_EXECUTABLE={VENV}/bin/python",
                        "-DPYTHON_INCLUDE_DIR=/usr/include/python3.12", "-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so"],
                       check=True, stdout=subprocess.DEVNULL, env=dict(os.environ, PATH=f"{VENV}/bin:" + os.environ["PATH"]))
    if subprocess.run(["ninja", "-C", str(CB)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return None
    so = max(CB.rglob("_colds_cython*.so"), key=lambda q: q.stat().st_mtime)
    h = subprocess.run(["python3", "-c", "from vp import env; print(env.tree_hash(['src','CMakeLists.txt','setup.py']))"], cwd=V, env=E, stdout=subprocess.PIPE, text=True).stdout.strip()
    B = W / "b"; B.mkdir(exist_ok=True); d = B / ("ov-plain-" + h)
    for old in B.glob("ov-plain-*"): shutil.rmtree(old, ignore_errors=True)
    shutil.copytree(repo / "src/python/pycold", d / "pycold", ignore=shutil.ignore_patterns("*.so", "__pycache__")); shutil.copy(so, d / "pycold"); (d / "ok").touch()
    return so
def sohash():
    so = overlay()
    if not so: return None
    q = subprocess.run("objdump -d --no-show-raw-insn %s | grep -v 'file format'; objdump -s -j .rodata -j .data %s | grep -v 'file format'" % (so, so), shell=True, stdout=subprocess.PIPE)
    return hashlib.sha256(q.stdout).hexdigest()
base = sohash()
print(f"{len(C)} candidates on {len(lines)} lines", flush=True)
done = 0
try:
    for k in lines:
        if done >= o.n: break
        t = R.choice(per[k]); s2 = list(src); s2[k - 1] = t
        f.write_text("\n".join(s2), encoding="utf-8", errors="surrogateescape")
        tag = f"{o.file.split('/')[-1]}:{k}: {src[k-1].strip()[:90]}  =>  {t.strip()[:90]}"
        if py and not o.file.endswith("x"):
            try: compile("\n".join(s2), o.file, "exec")
            except SyntaxError: continue
            overlay()
        else:
            h = sohash()
            if h is None: continue
            if h == base: continue
        done += 1; res = "SURVIVED"; note = []
        for c in o.checks.split(","):
            try:
                p = subprocess.run(["./check", c], cwd=V, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=o.timeout)
            except subprocess.TimeoutExpired:
                note.append(f"{c}:timeout"); continue
            if p.returncode == 1:
                m = re.search(r"^  (\S+) x\d+: (case \d+)", p.stdout, re.M); res = f"killed {c} {m.group(1)[:50] if m else ''}"; break
            if p.returncode: note.append(f"{c}:rc{p.returncode}")
        print(f"{res} {' '.join(note)} | {tag}", flush=True)
finally:
    shutil.rmtree(W, ignore_errors=True)
