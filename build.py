#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into a directory named
after the content of everything that goes in.  Prints the path of the binary."""
import glob, hashlib, os, shutil, subprocess, sys, fcntl, sysconfig, time
from concurrent.futures import ThreadPoolExecutor as _Pool
class ThreadPoolExecutor(_Pool):
    """Goes on with fewer threads when the machine momentarily refuses a new one."""
    def _adjust_thread_count(s):
        for i in range(50):
            try: return super()._adjust_thread_count()
            except RuntimeError:
                if s._threads: return
                time.sleep(0.2)
        super()._adjust_thread_count()

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SAN = ["-fsanitize=address,null,bounds,return,unreachable,vla-bound,shift-exponent,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
def wraps_defined():
    """Every seam the simulator defines as __wrap_<symbol> is taken over at link time."""
    import re
    names = set()
    for f in glob.glob(f"{VERIF}/sim/*.cc"):
        names |= set(re.findall(r"\b__wrap_(\w+)\s*\(", open(f).read()))
    return sorted(names)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def pkg(*names):
    c = subprocess.run(["pkg-config", "--cflags", *names], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    l = subprocess.run(["pkg-config", "--libs", *names], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    return c, l

def pylib():
    v = sysconfig.get_config_var
    for p in (f"{v('LIBDIR')}/{v('LDLIBRARY')}", f"{v('LIBDIR')}/{v('INSTSONAME')}", f"/usr/lib/x86_64-linux-gnu/{v('INSTSONAME')}"):
        if os.path.exists(p): return [p]
    return [f"-lpython{v('VERSION')}"]
PYLIB = pylib()

def conv_sources():
    """C sources of the library, as listed by the repository's own build file."""
    txt = open(f"{REPO}/lib/Makefile.am").read().replace("\\\n", " ")
    for line in txt.splitlines():
        if line.startswith("libsatyr_conv_la_SOURCES"):
            return [w for w in line.split("=", 1)[1].split() if w.endswith(".c")]
    raise SystemExit("cannot find the library's source list")

def tree_inputs():
    fs = []
    for pat in ("lib/*.c", "lib/*.h", "lib/*.gperf", "lib/Makefile.am", "include/*.h", "include/*/*.h", "satyr.c", "satyr-version", "python/*.c", "python/*.h"):
        fs += [f for f in glob.glob(f"{REPO}/{pat}") if os.path.basename(f) not in ("config.h", "normalize_hash.h")]
    own = glob.glob(f"{VERIF}/sim/*") + [os.path.abspath(__file__)]
    return sorted(fs), sorted(own)

def content_hash():
    h = hashlib.sha256()
    a, b = tree_inputs()
    for f in a + b:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]

CONFIG_H = """#pragma once
#define PACKAGE "satyr"
#define PACKAGE_NAME "satyr"
#define PACKAGE_VERSION "%s"
#define PACKAGE_STRING "satyr %s"
#define PACKAGE_BUGREPORT "crash-catcher@lists.fedorahosted.org"
#define PACKAGE_TARNAME "satyr"
#define PACKAGE_URL ""
#define VERSION "%s"
#define HAVE_LIBRPM 1
#define WITH_RPM 1
#define WITH_ELFUTILS 1
#define WITH_LIBDWFL 1
#define HAVE_LIBDW 1
#define HAVE_LIBELF 1
#define STDC_HEADERS 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_DLFCN_H 1
"""

def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(f"{BUILD}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = content_hash()
    d = f"{BUILD}/{key}"
    if os.path.exists(f"{d}/ok"):
        return d
    for old in glob.glob(f"{BUILD}/*"):
        if os.path.isdir(old) and os.path.basename(old) != key and len(os.path.basename(old)) == 16:
            shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/src/lib"); os.makedirs(f"{d}/obj")
    shutil.copytree(f"{REPO}/include", f"{d}/src/include")
    for f in glob.glob(f"{REPO}/lib/*.[ch]") + glob.glob(f"{REPO}/lib/*.gperf"):
        if os.path.basename(f) != "normalize_hash.h":
            shutil.copy(f, f"{d}/src/lib/")
    shutil.copy(f"{REPO}/satyr.c", f"{d}/src/")
    os.makedirs(f"{d}/src/python")
    for f in glob.glob(f"{REPO}/python/*.[ch]"): shutil.copy(f, f"{d}/src/python/")
    shutil.copy(f"{VERIF}/sim/py_world.py", d)
    cfg = f"{d}/src/lib/config.h"
    if not os.path.exists(cfg):
        ver = "0.0"
        if os.path.exists(f"{REPO}/satyr-version"): ver = open(f"{REPO}/satyr-version").read().strip()
        open(cfg, "w").write(CONFIG_H % (ver, ver, ver))
    r = sh(["gperf", "--output-file", f"{d}/src/lib/normalize_hash.h", f"{d}/src/lib/normalize_hash.gperf"])
    if r.returncode: raise SystemExit("gperf failed: " + r.stdout)
    cfl, libs = pkg("glib-2.0", "json-c", "libdw", "libelf", "rpm")
    inc = ["-I", f"{d}/src/include", "-I", f"{d}/src/lib"]
    cbase = ["clang", "-std=gnu99", "-D_GNU_SOURCE", "-O1", "-g1", "-w", "-fexceptions", "-ftrivial-auto-var-init=pattern",
             *inc, *cfl, *SAN, "-fsanitize-coverage=trace-pc-guard", "-fno-sanitize-address-globals-dead-stripping"]
    srcs = conv_sources()
    jobs = []
    for s in srcs:
        jobs.append((cbase + ["-c", f"{d}/src/lib/{s}", "-o", f"{d}/obj/lib_{s[:-2]}.o"], s))
        jobs.append((cbase + ["-fsanitize-coverage=trace-loads,trace-stores", "-c", f"{d}/src/lib/{s}", "-o", f"{d}/obj/thr_{s[:-2]}.o"], s))
    jobs.append((cbase + ["-Dmain=satyr_main", "-c", f"{d}/src/satyr.c", "-o", f"{d}/obj/cli.o"], "satyr.c"))
    own = sorted(glob.glob(f"{VERIF}/sim/*.cc"))
    pyinc = sysconfig.get_paths()["include"]
    for s in sorted(glob.glob(f"{d}/src/python/*.c")):
        jobs.append((cbase + ["-I", pyinc, "-c", s, "-o", f"{d}/obj/py_{os.path.basename(s)[:-2]}.o"], "python/" + os.path.basename(s)))
    for s in own:
        b = os.path.basename(s)[:-3]
        jobs.append((["clang++", "-std=gnu++20", "-O1", "-g1", "-Wall", "-Wno-unused-function", "-Wno-deprecated-declarations", "-D_GNU_SOURCE", *inc, *cfl,
                      *(["-I", pyinc] if b == "w_py" else []), "-fsanitize=address", "-fno-omit-frame-pointer", "-c", s, "-o", f"{d}/obj/sim_{b}.o"], b))
    def run(j):
        return j[1], sh(j[0])
    with ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for name, r in ex.map(run, jobs):
            if r.returncode or (verbose and r.stdout):
                sys.stderr.write(f"{name}:\n{r.stdout}\n")
            if r.returncode: raise SystemExit(f"build failed: {name}")
    # the library's writable data gets sections of its own: the simulator starts every run from a fresh image of it
    def rename(o): return o, sh(["objcopy", "--rename-section", ".data=libdata", "--rename-section", ".bss=libbss", o])
    with ThreadPoolExecutor(max_workers=int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for o, r in ex.map(rename, glob.glob(f"{d}/obj/lib_*.o") + glob.glob(f"{d}/obj/thr_*.o")):
            if r.returncode: raise SystemExit("objcopy failed: " + r.stdout)
    wraps = [f"-Wl,--wrap={w}" for w in wraps_defined()]
    def link(out, pre):
        objs = sorted(glob.glob(f"{d}/obj/{pre}_*.o")) + [f"{d}/obj/cli.o"] + sorted(glob.glob(f"{d}/obj/sim_*.o"))
        if out == "simpy": objs += sorted(glob.glob(f"{d}/obj/py_*.o")) + PYLIB
        else: objs.remove(f"{d}/obj/sim_w_py.o")
        return sh(["clang++", "-no-pie", *SAN[:1], "-fsanitize-coverage=trace-pc-guard", *wraps, "-o", f"{d}/{out}", *objs, *libs, "-lpthread", "-ldl"])
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda a: link(*a), [("sim", "lib"), ("simthr", "thr"), ("simpy", "lib")]):
            if r.returncode: raise SystemExit("link failed:\n" + r.stdout[-6000:])
    shutil.rmtree(f"{d}/obj", ignore_errors=True)
    open(f"{d}/ok", "w").write("ok\n")
    return d

if __name__ == "__main__":
    print(build("-v" in sys.argv))
