#!/usr/bin/env python3-vt
"""The mechanically rewritten source must behave as the source: the repository's own tests run on it.

Writes, in a scratch directory, the package rebulk with every module as pyvc/transform.py rewrites it and
`pv__` standing for the plain Python meaning of each hook (selftest/pvplain.py), then runs the tests."""
import ast
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pyvc.transform import transform_source  # noqa: E402

REPO = os.environ.get("REBULK_REPO", "/repo")
KEEP = {"__init__", "__version__", "remodule", "debug"}


def write(d):
    pkg = os.path.join(d, "rebulk")
    shutil.copytree(os.path.join(REPO, "rebulk"), pkg, ignore=shutil.ignore_patterns("__pycache__"))
    n = 0
    for p in glob.glob(os.path.join(pkg, "*.py")):
        name = os.path.basename(p)[:-3]
        if name in KEEP:
            continue
        src = open(p).read()
        tree = transform_source(src, p, name)
        doc = ast.get_docstring(ast.parse(src)) or ""
        body = ast.unparse(tree)
        # __future__ imports stay first
        fut = [l for l in body.splitlines() if l.startswith("from __future__")]
        rest = "\n".join(l for l in body.splitlines() if not l.startswith("from __future__"))
        open(p, "w").write("%r\n%s\nimport pvplain as pv__\n%s\n" % (doc, "\n".join(fut), rest))
        n += 1
    shutil.copy(os.path.join(HERE, "pvplain.py"), d)
    return n


def main():
    d = tempfile.mkdtemp(prefix="pvnative")
    rc = 0
    try:
        n = write(d)
        for extra in ({}, {"REBULK_REGEX_ENABLED": "1"}):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "rebulk"], cwd=d,
                               env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", **extra), capture_output=True, text=True, timeout=600)
            tail = r.stdout.strip().splitlines()[-12:]
            print("rewritten sources (%d modules) under the repository's tests %s: %s" % (n, extra, tail[-1] if tail else r.stderr[-500:]))
            if r.returncode:
                print("\n".join(tail))
                rc = 1
        from concurrent.futures import ThreadPoolExecutor
        import json

        def search(pid):
            r = subprocess.run(["/opt/venv/bin/python", os.path.join(os.path.dirname(HERE), "oracle", "run.py"), pid, "--seed", "5", "--budget", "5"],
                               env=dict(os.environ, REBULK_REPO=d, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=200)
            try:
                o = json.loads(r.stdout)
            except ValueError:
                return pid, 0, r.stderr[-400:]
            return pid, o["cases"], o["violation"]
        with ThreadPoolExecutor(8) as ex:
            for pid, cases, v in ex.map(search, ["C%02d" % i for i in range(1, 21)]):
                print("rewritten sources under the search of %s: %d cases, %s" % (pid, cases, v or "agree"))
                rc = rc or (1 if v or not cases else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
