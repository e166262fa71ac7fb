"""run_bugs.py [--tier T] [--seed S] [--table] [id...]: applies each planted bug to a scratch copy of /repo and runs the
check of its property on the copy. With --table prints rows for DESIGN.md."""

import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1")
ap.add_argument("--seeded", default=os.path.join(ROOT, "seeded"))
ap.add_argument("--table", action="store_true")
a = ap.parse_args()
tmp = tempfile.mkdtemp(prefix="dbvbugs-")
missed = 0
try:
    V = os.path.join(tmp, "verif")
    os.makedirs(V + "/evidence")
    for x in ("dbv", "run_check.py", "known_findings.txt"):
        subprocess.run(["cp", "-a", os.path.join(ROOT, x), V], check=True)
    for i in a.ids or sorted(os.listdir(a.seeded)):
        S = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", S], check=True)
        try:
            subprocess.run(["git", "-C", S, "apply", f"{a.seeded}/{i}/patch.diff"], check=True)
            meta = json.load(open(f"{a.seeded}/{i}/meta.json"))
            t0 = time.time()
            p = subprocess.run([sys.executable, V + "/run_check.py", meta["property"], "--tier", a.tier, "--seed", a.seed], env={**os.environ, "DBV_REPO": S}, capture_output=True, text=True)
            lines = p.stdout.splitlines()
            k = next((n for n, x in enumerate(lines) if x.startswith("VIOLATION")), None)
            how = lines[k + 1].strip() if k is not None else "NOT CAUGHT"
            missed += p.returncode != 1
            if a.table:
                cell = lambda x: str(x).replace("|", "\\|")
                print(f"| {i} | {meta['property']} | {cell(meta['needs'])} | {cell(how)[:110]} |", flush=True)
            else:
                print(f"{i:28} {meta['property']} rc={p.returncode} {time.time() - t0:.0f}s {how[:150]}", flush=True)
        finally:
            shutil.rmtree(S)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(bool(missed))
