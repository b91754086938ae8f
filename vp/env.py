"""Paths and builds.  Everything is built outside /repo from its current working tree."""
import contextlib, fcntl, hashlib, os, pathlib, shutil, subprocess, sys, tempfile
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VP_REPO", "/repo"))
VENV = pathlib.Path("/opt/pycold-venv")
PY = str(VENV / "bin/python")
BUILD = pathlib.Path(os.environ.get("VP_BUILD", VERIF / ".build"))
EVID = pathlib.Path(os.environ.get("VP_EVID", VERIF / "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")


class HarnessError(Exception):
    pass


def base_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LD_PRELOAD", "ASAN_", "UBSAN_", "PYTHON"))}
    e["PATH"] = f"{VENV}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", PIP_NO_INDEX="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    e.update(kw)
    return e


def tree_hash(sub, exts=None):
    h = hashlib.sha256()
    for s in sub:
        p = REPO / s
        fs = [p] if p.is_file() else sorted(q for q in p.rglob("*") if q.is_file())
        for f in fs:
            if f.suffix in (".so", ".pyc") or "__pycache__" in f.parts:
                continue
            h.update(str(f.relative_to(REPO)).encode() + b"\0")
            h.update(f.read_bytes() + b"\0")
    return h.hexdigest()[:16]


@contextlib.contextmanager
def locked(name):
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / (name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise HarnessError("command failed (%d): %s\n%s" % (r.returncode, cmd, r.stdout[-4000:]))
    return r.stdout


FLAGS = {
    "poison": ("-ftrivial-auto-var-init=pattern", "-finit-real=nan -finit-integer=7777777"),      # locals nobody wrote hold garbage
    "fma": ("-O2 -march=haswell -ffp-contract=fast -fassociative-math -fno-signed-zeros -fno-trapping-math",) * 2,      # rounding-noise variant used to test the oracles
    "plain": ("", ""),
    "asan": ("-fsanitize=address,undefined,float-cast-overflow -fsanitize-recover=undefined,float-cast-overflow -fno-omit-frame-pointer -g -O1",) * 2,
}


PREFIX = {"memcheck": ["valgrind", "-q", "--error-limit=no", "--exit-on-first-error=yes", "--error-exitcode=87", "--num-callers=25", "--track-origins=no",
                       "--suppressions=" + str(VERIF / "vp/python.supp")]}


def overlay(kind="plain"):
    """Directory to put on PYTHONPATH: the repository's package + a freshly built extension."""
    if kind == "memcheck":
        kind = "plain"
    src = tree_hash(["src", "CMakeLists.txt", "setup.py"])
    out = BUILD / f"ov-{kind}-{src}"
    with locked("ov-" + kind):
        if (out / "ok").exists():
            return out
        for old in BUILD.glob(f"ov-{kind}-*"):
            shutil.rmtree(old, ignore_errors=True)
        b = pathlib.Path(tempfile.mkdtemp(prefix="vpbuild-"))
        try:
            c, f = FLAGS[kind]
            cmd = ["/usr/bin/cmake", "-S", str(REPO), "-B", str(b / "b"), "-G", "Ninja", "-Wno-dev",
                   "-DCMAKE_BUILD_TYPE=RelWithDebInfo", f"-DPYTHON_EXECUTABLE={PY}",
                   "-DPYTHON_INCLUDE_DIR=/usr/include/python3.12",
                   "-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so"]
            if c:
                cmd += [f"-DCMAKE_C_FLAGS={c}", f"-DCMAKE_Fortran_FLAGS={f}"]
            env = base_env(CC="gcc", CXX="g++", FC="gfortran")
            run(cmd, env=env)
            run(["/usr/bin/ninja", "-C", str(b / "b")], env=env)
            run(["/usr/bin/cmake", "--install", str(b / "b"), "--prefix", str(b / "p")], env=env)
            so = list((b / "p").rglob("_colds_cython*.so"))
            if len(so) != 1:
                raise HarnessError("extension module not produced: %s" % so)
            tmp = BUILD / f"tmp-{kind}-{os.getpid()}"
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(REPO / "src/python/pycold", tmp / "pycold",
                            ignore=shutil.ignore_patterns("*.so", "__pycache__"))
            shutil.copy(so[0], tmp / "pycold")
            (tmp / "ok").touch()
            tmp.rename(out)
        finally:
            shutil.rmtree(b, ignore_errors=True)
    return out


def reflib():
    srcs = sorted((VERIF / "ref").glob("*.[ch]pp"))
    h = hashlib.sha256(b"".join(s.read_bytes() for s in srcs)).hexdigest()[:16]
    out = BUILD / f"libref-{h}.so"
    with locked("ref"):
        if not out.exists():
            for old in BUILD.glob("libref-*.so"):
                old.unlink()
            run(["g++", "-std=c++17", "-O2", "-fPIC", "-shared", "-o", str(out) + ".tmp",
                 *[str(s) for s in srcs if s.suffix == ".cpp"], "-lgsl", "-lgslcblas"], env=base_env())
            os.rename(str(out) + ".tmp", out)
    return out


def py_env(kind="plain", **kw):
    e = base_env(PYTHONPATH=f"{overlay(kind)}:{VERIF}:{VERIF}/vp/stubs", VP_REPO=str(REPO), VERIF_SEED=str(SEED), VERIF_TIER=TIER, **kw)
    if kind == "memcheck":
        e["PYTHONMALLOC"] = "malloc"
    if kind == "asan":
        lib = [run(["gcc", f"-print-file-name=lib{x}.so"], env=base_env()).strip() for x in ("asan", "ubsan")]
        e.update(LD_PRELOAD=" ".join(lib), PYTHONMALLOC="malloc",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=86:detect_stack_use_after_return=0",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    return e
