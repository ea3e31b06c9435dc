#!/usr/bin/env python3
"""Run the check of every planted bug (or the ones named) against it.
usage: runbugs.py [--seed N] [--tier quick] [id...]   -- needs a clean /repo"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; seed = "1"; tier = "quick"
if args[:1] == ["--seed"]: seed = args[1]; args = args[2:]
if args[:1] == ["--tier"]: tier = args[1]; args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "/repo dirty"
for b in ids:
    d = f"{V}/seeded/{b}"; prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "check.py", prop], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier), timeout=900)
        vio = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = p.returncode == 1 and any(f"property={prop} " in l for l in vio)
        print(f"{'CAUGHT' if ok else 'MISSED'} {b} {prop} rc={p.returncode} {time.time()-t:.0f}s {vio[:1]}", flush=True)
        if p.returncode not in (0, 1): print(p.stdout[-1500:], p.stderr[-1500:])
    except subprocess.TimeoutExpired:
        print("TIMEOUT", b, prop, flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
