#!/usr/bin/env python3
"""explore.py WORLD MODE N [binary]: run N seeds, list every violation class with one example."""
import json, subprocess, sys, os, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import build as B
world, mode, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
binary = sys.argv[4] if len(sys.argv) > 4 else "sim"
maxv = int(os.environ.get("MAXV", "40"))
D = B.build()
seen = {}
def work(rng):
    a, b = rng
    k = 0
    tmp = tempfile.mkdtemp()
    while a < b and k < maxv:
        r = subprocess.run([f"{D}/{binary}", "batch", "--world", world, "--mode", mode, "--seed", os.environ.get("SEED", "1"), "--from", str(a), "--to", str(b), "--out", f"{tmp}/o", "--viol", f"{tmp}/v"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode == 0: break
        try: v = json.load(open(f"{tmp}/v", errors="replace")); os.unlink(f"{tmp}/v")
        except Exception as e: seen.setdefault(f"died:{r.returncode}", []).append((a, r.stderr[-600:])); break
        seen.setdefault(v["class"], []).append((v["idx"], v["message"]))
        a = v["idx"] + 1
        k += 1
    subprocess.run(["rm", "-rf", tmp])
step = (n + 31) // 32
with ThreadPoolExecutor(8) as ex: list(ex.map(work, [(i, min(i + step, n)) for i in range(0, n, step)]))
for c, l in sorted(seen.items(), key=lambda x: -len(x[1])):
    l.sort(key=lambda x: len(x[1]))
    print(f"{len(l):5d} {c}  idx {l[0][0]}: {l[0][1][:int(os.environ.get('W','420'))]}")
