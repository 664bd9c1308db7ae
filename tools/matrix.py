#!/usr/bin/env python3
"""Runs checks against planted changes, several at a time, each in its own
mount namespace in which a patched copy of /repo stands at /repo and a copy of
/verif at /verif; the real ones are not touched.

usage: matrix.py [--all] [--jobs N] [--dir DIR] [--prop P,P] [--tier T] [ID...]
  DIR holds <ID>/patch.diff (default /verif/seeded); own property only, unless
  --all (every property) or --prop.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("--all", action="store_true")
ap.add_argument("--jobs", type=int, default=3)
ap.add_argument("--dir", default="/verif/seeded")
ap.add_argument("--prop")
ap.add_argument("--tier", default="quick")
ap.add_argument("--clean", action="store_true", help="no patch")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
ids = a.ids or sorted(os.listdir(a.dir))

def run(i):
    w = tempfile.mkdtemp(prefix="mx-", dir="/tmp")
    try:
        subprocess.run(f"git clone -q /repo {w}/repo", shell=True, check=True)
        subprocess.run(f"mkdir {w}/verif && cd /verif && git ls-files -z --cached --others --exclude-standard | grep -zv ^seeded/ | xargs -0 cp --parents -t {w}/verif", shell=True, check=True)
        d = os.path.join(a.dir, i)
        own = None
        if not a.clean:
            r = subprocess.run(["git", "-C", f"{w}/repo", "apply", f"{d}/patch.diff"], capture_output=True, text=True)
            if r.returncode: return i, own, {"apply": r.stderr}
            try: own = json.load(open(f"{d}/meta.json")).get("property")
            except FileNotFoundError: pass
        todo = a.prop.split(",") if a.prop else props if (a.all or not own) else [own]
        res = {}
        for p in todo:
            r = subprocess.run(["unshare", "-rm", "bash", "-c",
                f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && cd /verif && VERIF_SEED=1 timeout 880 python3 check.py {p} {a.tier}"],
                capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            res[p] = "caught" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else f"rc={r.returncode} {(r.stdout + r.stderr)[-400:]}"
        return i, own, res
    finally:
        shutil.rmtree(w)

with ThreadPoolExecutor(a.jobs) as ex:
    for i, own, res in ex.map(run, ids):
        c = [p for p, x in res.items() if x == "caught"]
        odd = {p: x for p, x in res.items() if x not in ("caught", "quiet")}
        print(f"{i:32s} own={own} {'CAUGHT' if own in c else 'missed' if own in res else '-'} by={','.join(c)} {odd or ''}", flush=True)
