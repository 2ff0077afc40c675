#!/usr/bin/env python3
"""trybug.py [--notest] [--checks C01,C02] ID...: takes seeded/<ID> through what a planted bug has to
satisfy, in a scratch copy of /repo (applies, stable tests pass, demo 0 without and not 0 with it), then
runs the check of its property (or the given ones) against that copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable_tests(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    with tempfile.TemporaryDirectory() as w:
        x = os.path.join(w, "r.json")
        text = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy)
        s = os.path.join(w, "t.sh")
        open(s, "w").write(text)
        env = dict(os.environ, PYTHONPATH=copy)
        r = sh(["bash", s, x], env=env)
        res = json.load(open(x)) if os.path.exists(x) else {}
    want = base["stable"]
    got = set(res.get("passed", []))
    miss = [t for t in want if t not in got]
    return miss, r.stdout[-1500:]


def demo(d, copy):
    with tempfile.TemporaryDirectory() as w:
        t = os.path.join(w, "demo")
        shutil.copytree(d, t)
        for f in os.listdir(t):
            if f.endswith((".diff", ".patch")) or f == "meta.json":
                os.remove(os.path.join(t, f))
        try:
            r = sh(["bash", os.path.join(t, "demo.sh")], cwd=copy, timeout=300)
        except subprocess.TimeoutExpired:
            return 124, "timeout"
        return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    notest = "--notest" in args
    args = [a for a in args if a != "--notest"]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",") if args[i + 1] else []
        del args[i:i + 2]
    for bug in args:
        d = os.path.join(HERE, "seeded", bug)
        meta = json.load(open(os.path.join(d, "meta.json")))
        copy = f"/tmp/bug-{bug}"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        out = [bug, meta["property"]]
        try:
            rc, o = demo(d, copy)
            out.append(f"clean-demo={rc}" + ("" if rc == 0 else " !!! " + o[-500:]))
            r = sh(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")])
            if r.returncode:
                out.append("DOES NOT APPLY " + r.stdout)
                continue
            rc, o = demo(d, copy)
            out.append(f"demo={rc}" + (" !!! " if rc == 0 else "") + f" [{o.strip().splitlines()[-1][:100] if o.strip() else ''}]")
            if not notest:
                miss, tail = stable_tests(copy)
                out.append("tests ok" if not miss else f"TESTS FAIL !!! {len(miss)}: {miss[:3]}")
            for c in checks if checks is not None else [meta["property"]]:
                env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
                r = sh(["python3", os.path.join(HERE, "check.py"), c], env=env)
                line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                out.append(f"{c}={r.returncode} " + ("CAUGHT" if r.returncode == 1 and line else "MISSED !!! " + r.stdout[-600:]))
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            print(" | ".join(out), flush=True)


main()
