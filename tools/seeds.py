#!/usr/bin/env python3
"""Runs checks against the planted bugs of /verif/seeded, applied to /repo one by one.

    seeds.py [ID...]            each bug with the check of its own property
    seeds.py --all-checks ID    one bug with every check

Not a check itself, and no check uses it.
"""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def git(*a):
    return subprocess.run(["git", "-C", "/repo", *a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    with open(os.path.join(ROOT, "MANIFEST.json"), encoding="utf-8") as f:
        props = [c["property"] for c in json.load(f)["checks"]]
    for bug in args or sorted(os.listdir(SEEDED)):
        with open(os.path.join(SEEDED, bug, "meta.json"), encoding="utf-8") as f:
            own = json.load(f)["property"]
        if git("status", "--porcelain", "--untracked-files=no").stdout.strip():
            sys.exit("/repo is not clean")
        r = git("apply", os.path.join(SEEDED, bug, "patch.diff"))
        if r.returncode:
            print(bug, "does not apply", r.stdout)
            continue
        try:
            for p in props if "--all-checks" in sys.argv else [own]:
                t = time.time()
                c = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), p], cwd=ROOT,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
                caught = c.returncode == 1 and f"VIOLATION property={p} " in c.stdout
                lines = [ln for ln in c.stdout.splitlines() if ln.strip()]
                why = next((ln for ln in lines if "is violated" in ln), lines[-1] if lines else "")
                print(f"{bug} {p} {'CAUGHT' if caught else 'missed'} rc={c.returncode} {time.time() - t:.0f}s {why[:220]}", flush=True)
        finally:
            git("checkout", "--", ".")


main()
