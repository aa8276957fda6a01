#!/usr/bin/env python3
"""Confirms planted changes in scratch copies: tools/seed.py [--no-tests] [--checks C01,C02|own|none] ID...

For each seeded/ID: the patch applies, the stable tests pass with it, demo.sh passes without and fails
with it; then runs the named checks (default: the property's own) against the copy."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LANG": "C.UTF-8"})
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    r = subprocess.run(
        ["bash", "-c", cmd], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout
    )
    return r.returncode, r.stdout + r.stderr


def confirm(sid, args):
    src = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    work = tempfile.mkdtemp(prefix=f"seed-{sid}-", dir="/tmp")
    out = [f"{sid} ({meta['property']})"]
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        demo_dir = os.path.join(work, "demo")
        shutil.copytree(src, demo_dir, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        data = os.path.join(work, "xdg")
        os.mkdir(data)
        env = {"XDG_DATA_HOME": data, "XDG_CACHE_HOME": data}
        rc, text = sh(f"bash {demo_dir}/demo.sh", repo, env, 300)
        out.append("demo-clean " + ("ok" if rc == 0 else f"FAILS {rc}: {text[-300:]}"))
        rc, text = sh(f"git apply {src}/patch.diff", repo)
        if rc:
            return "; ".join(out + ["patch does not apply: " + text])
        rc, text = sh(f"bash {demo_dir}/demo.sh", repo, env, 300)
        out.append("demo-patched " + ("ok" if rc != 0 else "PASSES"))
        if not args.no_tests:
            xml = os.path.join(work, "r.xml")
            sh(
                "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 0 --timeout=300 "
                f"--continue-on-collection-errors --tb=no -o junit_family=xunit2 --junitxml={xml} tests",
                repo,
                {"XDG_DATA_HOME": data + "t", "XDG_CACHE_HOME": data + "t"},
            )
            sh(f"/usr/bin/python3 /opt/vp/results.py {work}/r.json junit:{xml}", repo)
            passed = set(json.load(open(f"{work}/r.json"))["passed"])
            missing = STABLE - passed
            out.append("tests ok" if not missing else f"tests BROKEN {sorted(missing)[:3]}")
        checks = {"own": [meta["property"]], "none": []}.get(args.checks, args.checks.split(","))
        for c in checks:
            rc, text = sh(f"./run.sh {c} {args.tier}", ROOT, {"EDULINT_REPO": repo, "MC_EVIDENCE": work})
            hit = rc == 1 and f"VIOLATION property={c} " in text
            lines = [l for l in text.splitlines() if l.startswith("  ")]
            out.append(f"{c}: " + ("caught" if hit else f"MISSED rc={rc}") + (" " + lines[0][:160] if hit and lines else ""))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return "; ".join(out)


ap = argparse.ArgumentParser()
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--checks", default="own")
ap.add_argument("--tier", default="quick")
ap.add_argument("--jobs", type=int, default=1)
ap.add_argument("ids", nargs="*")
args = ap.parse_args()
ids = args.ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with ThreadPoolExecutor(args.jobs) as ex:
    for line in ex.map(lambda s: confirm(s, args), ids):
        print(line, flush=True)
