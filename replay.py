#!/usr/bin/env python3
"""Replays a violation file: exit 1 if it reproduces exactly (same class and event-log
hash), 0 if the run no longer violates anything, 2 otherwise."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
import build as B
d = json.load(open(sys.argv[1]))
D = B.build()
env = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC")
for k in ("ASAN_OPTIONS", "LD_PRELOAD", "G_DEBUG"): env.pop(k, None)
env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
out = tempfile.mktemp()
cmd = [f"{D}/{d['binary']}", "replay" if d["kind"] == "tapes" else "range", "--world", d["world"], "--mode", d["mode"], "--seed", str(d["seed"]),
       "--out", out, "--guard", "120"]
inp = None
if d["kind"] == "tapes": inp = ",".join(map(str, d["tape_w"])) + "\n" + ",".join(map(str, d["tape_f"])) + "\n"
else: cmd += ["--from", str(d["from_idx"]), "--idx", str(d["idx"])]
subprocess.run(cmd, input=inp, text=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try: r = json.load(open(out, errors="replace"))
except Exception: print("no record"); sys.exit(2)
finally:
    if os.path.exists(out): os.unlink(out)
for t in r.get("trace", []): print("   ", t[:300])
print("class:", r["class"], "hash:", r["hash"])
if r["message"]: print(r["message"][:4000])
if r["class"] == d["violation"] and r["hash"] == d["hash"]: print("REPRODUCED"); sys.exit(1)
sys.exit(0 if not r["class"] else 2)
