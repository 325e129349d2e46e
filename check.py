#!/usr/bin/env python3
"""Runs the simulation campaign that decides one property and writes its evidence.

exit 0: no violation found; exit 1: VIOLATION line printed; anything else: the check
itself failed (not reproducible, harness error, build error)."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, struct
from concurrent.futures import ThreadPoolExecutor as _Pool
class ThreadPoolExecutor(_Pool):
    """Goes on with fewer threads when the machine momentarily refuses a new one."""
    def _adjust_thread_count(s):
        for i in range(50):
            try: return super()._adjust_thread_count()
            except RuntimeError:
                if s._threads: return
                time.sleep(0.2)
        super()._adjust_thread_count()
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
import build as B
from specs import CHECKS

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
for i, a in enumerate(sys.argv):
    if a == "--tier": TIER = sys.argv[i + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
SCALE = float(os.environ.get("SIM_SCALE", "1"))
JOBS = int(os.environ.get("SIM_JOBS", "8"))
CAP = float(os.environ.get("SIM_CAP", "420" if TIER == "quick" else "3300"))
SPEC = CHECKS[PROP]
T0 = time.time()
ENV = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC")
for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "G_MESSAGES_DEBUG", "G_DEBUG", "DEBUGINFOD_URLS", "LD_PRELOAD"): ENV.pop(k, None)
sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
ENV["ASAN_SYMBOLIZER_PATH"] = sym

def die(msg, code=2):
    print(f"ERROR property={PROP} {msg}")
    sys.exit(code)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, errors="replace", **kw)

def known_findings():
    out = []
    try:
        for line in open("known_findings.txt"):
            m = re.match(r"finding: property=(\S+) class=(\S+)(?: match=/(.*)/)? :: (.*)$", line.strip())
            if m and m.group(1) == PROP: out.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError: pass
    return out
KNOWN = known_findings()
def is_known(rec):
    for c, rx, d in KNOWN:
        if c == rec["class"] and (not rx or re.search(rx, rec["message"], re.S)): return d
    return None

tmp = tempfile.mkdtemp(prefix="simcheck.", dir=os.environ.get("TMPDIR", "/tmp"))
try:
    try: D = B.build()
    except SystemExit as e: die(f"build: {e}")
    BUILD_S = time.time() - T0

    def one(binary, world, mode, idx, frm=None, guard=120):
        out = tempfile.mktemp(dir=tmp)
        cmd = [f"{D}/{binary}", "one" if frm is None else "range", "--world", world, "--mode", mode, "--seed", str(SEED),
               "--idx", str(idx), "--out", out, "--guard", str(guard)]
        if frm is not None: cmd += ["--from", str(frm)]
        r = run(cmd)
        try: return json.load(open(out, errors="replace"))
        except Exception: return {"class": f"died:{r.returncode}", "message": r.stderr[-2000:], "hash": "", "tape_w": [], "tape_f": []}

    def replay(binary, world, mode, tw, tf, guard=120):
        out = tempfile.mktemp(dir=tmp)
        r = run([f"{D}/{binary}", "replay", "--world", world, "--mode", mode, "--seed", str(SEED), "--out", out, "--guard", str(guard)],
                input=",".join(map(str, tw)) + "\n" + ",".join(map(str, tf)) + "\n")
        try: return json.load(open(out, errors="replace"))
        except Exception: return {"class": f"died:{r.returncode}", "message": r.stderr[-2000:], "hash": "", "tape_w": [], "tape_f": []}

    class Server:
        def __init__(s, binary, world, mode):
            s.p = subprocess.Popen([f"{D}/{binary}", "serve", "--world", world, "--mode", mode, "--seed", str(SEED), "--guard", "30"],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=ENV)
        def cls(s, tw, tf):
            try:
                s.p.stdin.write(",".join(map(str, tw)) + "\n" + ",".join(map(str, tf)) + "\n"); s.p.stdin.flush()
                return s.p.stdout.readline().rstrip("\n")
            except BrokenPipeError: return "died"
        def close(s):
            s.p.stdin.close(); s.p.wait()

    def shrink(binary, world, mode, rec, limit_s=60):
        """Shortest/smallest tapes that still give the same violation class."""
        n = 6
        servers = [Server(binary, world, mode) for _ in range(n)]
        target = rec["class"]
        best = [list(rec["tape_w"]), list(rec["tape_f"])]
        tries = 0
        t_end = time.time() + limit_s
        ex = ThreadPoolExecutor(n)
        def test_many(cands):
            nonlocal tries
            tries += len(cands)
            futs = [ex.submit(servers[i].cls, c[0], c[1]) for i, c in enumerate(cands)]
            return [f.result() for f in futs]
        def attempt(gen):
            # gen yields candidates; take the first that works, in order, n at a time
            batch = []
            for c in gen:
                batch.append(c)
                if len(batch) == n:
                    for cand, res in zip(batch, test_many(batch)):
                        if res == target: return cand
                    batch = []
                    if time.time() > t_end: return None
            if batch:
                for cand, res in zip(batch, test_many(batch)):
                    if res == target: return cand
            return None
        def cands(best):
            for which in (1, 0):
                t = best[which]
                def mk(x):
                    c = [list(best[0]), list(best[1])]; c[which] = x; return c
                if not t: continue
                yield mk([])
                yield mk(t[:len(t) // 2])
                size = max(1, len(t) // 2)
                while size >= 1:
                    for i in range(0, len(t), size):
                        yield mk(t[:i] + t[i + size:])
                        if size <= 16 and any(t[i:i + size]): yield mk(t[:i] + [0] * len(t[i:i + size]) + t[i + size:])
                    size //= 2
                for i, v in enumerate(t):
                    if v > 1:
                        yield mk(t[:i] + [v // 2] + t[i + 1:])
                        yield mk(t[:i] + [v - 1] + t[i + 1:])
        while time.time() < t_end:
            c = attempt(cands(best))
            if c is None: break
            best = c
        for s in servers: s.close()
        ex.shutdown()
        # drop trailing zeros
        for t in best:
            while t and t[-1] == 0: t.pop()
        return best[0], best[1], tries

    tot = dict(runs=0, nontrivial=0, events=0, sim_us=0, edges_executed=0)
    faults, probes, traces, states, cov = {}, {}, set(), set(), set()
    guards = 0
    samples, parts_ev = [], []
    known_hits = {}
    stop = threading.Event()
    found = []
    lock = threading.Lock()
    deadline = int(T0 + CAP)

    def merge(out):
        global guards
        try: j = json.load(open(out, errors="replace"))
        except Exception: return None
        with lock:
            for k in tot: tot[k] += j[k]
            for k, v in j["faults"].items(): faults[k] = faults.get(k, 0) + v
            for k, v in j["probes"].items(): probes[k] = probes.get(k, 0) + v
            guards = max(guards, j["guards"])
            if j["sample"] and len(samples) < 4: samples.append(j["sample"])
            for name, st, sz in (("traces", traces, 8), ("states", states, 8), ("cov", cov, 4)):
                d = open(f"{out}.{name}", "rb").read()
                if len(st) < 3000000: st.update(struct.unpack(f"<{len(d)//sz}{'Q' if sz == 8 else 'I'}", d))
        for s in ("", ".traces", ".states", ".cov"):
            try: os.unlink(out + s)
            except OSError: pass
        return j

    def chunk(task):
        binary, world, mode, a, b = task
        while a < b:
            if stop.is_set(): return 0
            out, vf = tempfile.mktemp(dir=tmp), tempfile.mktemp(dir=tmp)
            r = run([f"{D}/{binary}", "batch", "--world", world, "--mode", mode, "--seed", str(SEED), "--from", str(a), "--to", str(b),
                     "--out", out, "--viol", vf, "--deadline", str(deadline)])
            if r.returncode == 0:
                merge(out); return
            rec = None
            try: rec = json.load(open(vf, errors="replace"))
            except Exception: pass
            if rec is None:
                rec = {"class": f"died:{r.returncode}", "message": r.stderr[-3000:], "world": world, "mode": mode, "idx": -1, "seed": SEED}
            rec["binary"] = binary; rec["chunk_from"] = a
            d = is_known(rec)
            if d and rec["idx"] >= 0:
                with lock: known_hits[d] = known_hits.get(d, 0) + 1
                if a < rec["idx"]:
                    chunk((binary, world, mode, a, rec["idx"]))
                a = rec["idx"] + 1
                continue
            with lock: found.append(rec)
            stop.set()
            return

    def report(rec):
        """Gate, minimise, replay and report one violation."""
        binary, world, mode, idx = rec["binary"], rec["world"], rec["mode"], rec["idx"]
        if idx < 0 or rec["class"].startswith("died:"): die(f"worker died without a record: {rec['class']} {rec['message'][-1500:]}")
        if rec["class"].startswith("harness:"): die(f"harness error: {rec['class']}: {rec['message']}")
        os.makedirs("replays", exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{PROP}-{SEED}-{world}-{idx}.json")
        a = one(binary, world, mode, idx)
        b = one(binary, world, mode, idx)
        if a["class"] == b["class"] == rec["class"] and a["hash"] == b["hash"]:
            tw, tf, tries = shrink(binary, world, mode, a)
            m1 = replay(binary, world, mode, tw, tf)
            m2 = replay(binary, world, mode, tw, tf)
            if not (m1["class"] == m2["class"] == rec["class"] and m1["hash"] == m2["hash"]):
                tw, tf = a["tape_w"], a["tape_f"]
                m1 = replay(binary, world, mode, tw, tf); m2 = replay(binary, world, mode, tw, tf)
                if not (m1["class"] == m2["class"] == rec["class"] and m1["hash"] == m2["hash"]):
                    die(f"violation {rec['class']} of run {idx} does not replay from its tapes ({m1['class']} {m2['class']} {m1['hash']} {m2['hash']})")
            doc = dict(property=PROP, kind="tapes", binary=binary, world=world, mode=mode, seed=SEED, idx=idx, violation=m1["class"],
                       hash=m1["hash"], message=m1["message"], tape_w=tw, tape_f=tf, original_lengths=[len(a["tape_w"]), len(a["tape_f"])],
                       shrink_tries=tries, events=m1.get("events"), trace=m1.get("trace", []))
        else:
            # depends on what ran before in the process: the history is part of the schedule
            frm = rec["chunk_from"]
            a = one(binary, world, mode, idx, frm); b = one(binary, world, mode, idx, frm)
            if not (a["class"] == b["class"] == rec["class"] and a["hash"] == b["hash"]):
                die(f"violation {rec['class']} of run {idx} is not reproducible ({a['class']} {b['class']})")
            lo, step = frm, None
            for back in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                if idx - back <= frm: break
                c = one(binary, world, mode, idx, idx - back)
                if c["class"] == rec["class"]:
                    d2 = one(binary, world, mode, idx, idx - back)
                    if d2["class"] == rec["class"] and d2["hash"] == c["hash"]: lo, a = idx - back, c; break
            doc = dict(property=PROP, kind="history", binary=binary, world=world, mode=mode, seed=SEED, idx=idx, from_idx=lo, violation=a["class"],
                       hash=a["hash"], message=a["message"], tape_w=a["tape_w"], tape_f=a["tape_f"], trace=a.get("trace", []))
        json.dump(doc, open(path, "w"), indent=1)
        r = run([sys.executable, f"{VERIF}/replay.py", path])
        if r.returncode != 1: die(f"replay of {path} did not reproduce: {r.stdout[-500:]}{r.stderr[-500:]}")
        print(f"{doc['violation']}: {doc['message'][:3000]}")
        for t in doc["trace"][-25:]: print("   ", t[:240])
        print(f"VIOLATION property={PROP} replay={path}")
        return path

    def evidence(violations, note=None):
        wall = time.time() - T0
        simw = max(wall - BUILD_S, 0.001)
        rules = SPEC["rule"]
        cov_d = dict(
            evaluations=tot["runs"], distinct_nontrivial=len(traces), rule=rules, samples=samples[:3] or ["no run completed"],
            simulated_runs=tot["runs"], nontrivial_runs=tot["nontrivial"], seeds=tot["runs"], base_seed=SEED,
            runs_per_hour=int(tot["runs"] / simw * 3600), seeds_per_hour=int(tot["runs"] / simw * 3600),
            simulated_time_s=round(tot["sim_us"] / 1e6, 3), simulated_events=tot["events"], library_basic_blocks_executed=tot["edges_executed"],
            faults_injected=dict(sorted(faults.items())), probes=dict(sorted(probes.items())),
            distinct_interleavings_or_states=len(states) if states else len(traces),
            state_measure="distinct world states hashed by the harness" if states else "distinct event-log hashes (every system call, fault and operation in order)",
            library_edges_reached=len(cov), library_edges_total=guards, configurations=parts_ev,
            determinism=DET, real_components=SPEC["real"], stubbed_components=SPEC["stub"], known_findings_hit=known_hits, build_s=round(BUILD_S, 1))
        if note: cov_d["note"] = note
        os.makedirs("evidence", exist_ok=True)
        json.dump(dict(property=PROP, tier=TIER, seed=SEED, level="exploration", coverage=cov_d, wall_s=round(wall, 2), violations=violations,
                       assumptions=SPEC.get("assumptions", ["a clean batch is evidence, not proof: schedules and faults are sampled",
                       "the simulated kernel interfaces behave as documented; the compiler and sanitizer runtime are trusted"])),
                  open(f"evidence/{PROP}.json", "w"), indent=1)

    DET = {}
    tasks = []
    per_part = []
    for binary, world, mode, q, t in SPEC["parts"]:
        n = max(1, int((q if TIER == "quick" else t) * SCALE))
        step = max(1, min(SPEC.get("chunk", 1500), (n + JOBS * 2 - 1) // (JOBS * 2)))
        per_part.append([(binary, world, mode, a, min(a + step, n)) for a in range(0, n, step)])
        parts_ev.append(dict(world=world, mode=mode, planned_runs=n, binary=binary))
    while any(per_part): # interleave the configurations so that a time cap cuts all of them
        for p in per_part:
            if p: tasks.append(p.pop(0))
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(chunk, tasks))
    if found:
        rec = sorted(found, key=lambda r: (r["world"], r["mode"], r["idx"]))[0]
        evidence(len(found))
        report(rec)
        sys.exit(1)
    # determinism: the same seeds in other processes, forwards and backwards
    def det(part):
        binary, world, mode, q, t = part
        n = min(max(1, int((q if TIER == "quick" else t) * SCALE)), SPEC.get("det_runs", 150))
        res = []
        for rev in ("0", "1"):
            out, hf, vf = (tempfile.mktemp(dir=tmp) for _ in range(3))
            r = run([f"{D}/{binary}", "batch", "--world", world, "--mode", mode, "--seed", str(SEED), "--from", "0", "--to", str(n),
                     "--out", out, "--viol", vf, "--hashes", hf, "--reverse", rev])
            try: res.append(dict(l.split() for l in open(hf)))
            except Exception: res.append(None)
        return world, mode, n, res
    bad = 0; pairs = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for world, mode, n, (x, y) in ex.map(det, SPEC["parts"]):
            if x is None or y is None:
                if KNOWN: continue
                die(f"determinism re-run of {world}/{mode} failed")
            pairs += len(x)
            diff = [k for k in x if x[k] != y.get(k)]
            if diff:
                bad += 1
                print(f"nondeterministic: {world}/{mode} runs {diff[:5]} ({len(diff)} of {n})")
    DET.update(runs_executed_twice=pairs, processes=2 * len(SPEC["parts"]), order="forward and reversed", mismatches=bad)
    if bad: die("event logs differ between executions of the same seed")
    evidence(0)
    for d, c in known_hits.items(): print(f"KNOWN-FINDING: property={PROP} {d}")
    print(f"ok property={PROP} runs={tot['runs']} distinct={len(traces)} states={len(states)} faults={sum(faults.values())} "
          f"edges={len(cov)} wall={time.time()-T0:.1f}s")
    for k, v in sorted(probes.items()): print(f"   probe {k}: {v}")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
