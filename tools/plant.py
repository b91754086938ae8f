#!/usr/bin/env python3
"""plant.py ID: writes seeded/ID from tools given on the import side; used as a library.

plant(id, prop, needs, what, edits, demo): edits = [(file, old, new[, count])] applied to a scratch copy of /repo's HEAD.
"""
import json, pathlib, shutil, subprocess, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
SH = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/src/python:$d" PYTHONDONTWRITEBYTECODE=1 exec /opt/pycold-venv/bin/python "$d/demo.py"
'''


def plant(id, prop, needs, what, edits, demo, files=()):
    t = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t / "r"], check=True)
        for f, old, new, *n in edits:
            p = t / "r" / f
            s = p.read_bytes().decode("utf-8")
            assert s.count(old) == (n[0] if n else 1), (id, f, s.count(old), old)
            p.write_bytes(s.replace(old, new).encode("utf-8"))
        d = subprocess.run(["git", "-C", t / "r", "diff"], check=True, capture_output=True).stdout
        o = V / "seeded" / id
        shutil.rmtree(o, ignore_errors=True); o.mkdir(parents=True)
        (o / "patch.diff").write_bytes(d)
        (o / "demo.sh").write_text(SH); (o / "demo.sh").chmod(0o755)
        (o / "demo.py").write_text(demo)
        for n, b in files:
            (o / n).write_bytes(b)
        (o / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=what), indent=1) + "\n")
    finally:
        shutil.rmtree(t)
