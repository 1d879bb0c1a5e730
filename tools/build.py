#!/usr/bin/env python3
"""Content-hashed incremental build of /repo's sources and the harnesses.

usage: build.py TARGET...    TARGET = harness name (harness/NAME.cpp), prog:NAME, or all

Every object is keyed by the contents of all files it was compiled from, so a
change in /repo is seen whatever the file times say.  Output: /verif/build.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
INC = [f"-I{REPO}/include", f"-I{OUT}/include", "-isystem", "/usr/include/eigen3"]
BASE = ["-std=c++17", "-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-w", "-pthread"]
HFLAGS = BASE + ["-fno-access-control", f"-I{VERIF}/harness"]
LIBS = ["-lgsl", "-lgslcblas", "-lnlopt", "-lm", "-lpthread"]
CONFIG = "#pragma once\n\n/* #undef libcmaes_FOUND */\n#define NLopt_FOUND\n#define Boost_FOUND\n#define nlohmann_json_FOUND\n"
LIBDIRS = ["minimizer", "models", "ThermalFunctions", "minimum_tracer", "transition_tracer",
           "bounce_solution", "gravitational_waves", "utility"]
_h = {}


def fhash(p):
    p = os.path.realpath(p)
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _h[p] = None
    return _h[p]


def deps_of(d):
    with open(d) as f:
        t = f.read().replace("\\\n", " ")
    return sorted({os.path.realpath(x) for x in t.split(":", 1)[1].split()})


def key(cmd, deps):
    h = hashlib.sha256(" ".join(cmd).encode())
    for d in deps:
        v = fhash(d)
        if v is None:
            return None
        h.update(f"{d}={v}\n".encode())
    return h.hexdigest()


def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep, stamp = obj + ".d", obj + ".key"
    cmd = [CXX, *flags, *INC, "-MD", "-MF", dep, "-c", src, "-o", obj]
    if os.path.exists(obj) and os.path.exists(dep) and os.path.exists(stamp):
        with open(stamp) as f:
            old = f.read()
        if old and old == key(cmd, [d for d in deps_of(dep) if not d.startswith("/usr/")]):
            return (src, False, "")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return (src, None, r.stdout)
    with open(stamp, "w") as f:
        f.write(key(cmd, [d for d in deps_of(dep) if not d.startswith("/usr/")]) or "")
    return (src, True, "")


def link(out, objs):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    h = hashlib.sha256()
    for o in objs:
        with open(o + ".key") as f:
            h.update((o + f.read()).encode())
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    lib = [o for o in objs if "/obj/lib/" in o]
    own = [o for o in objs if "/obj/lib/" not in o]
    tmp = out + ".tmp"
    r = subprocess.run([CXX, "-pthread", *own, "-Wl,--start-group", *lib, "-Wl,--end-group", *LIBS, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        sys.exit(2)
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())


def main(targets):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.makedirs(f"{OUT}/include/BSMPT", exist_ok=True)
    cfg = f"{OUT}/include/BSMPT/config.h"
    if not os.path.exists(cfg) or open(cfg).read() != CONFIG:
        with open(cfg, "w") as f:
            f.write(CONFIG)
    if "all" in targets:
        targets = [os.path.basename(p)[:-4] for p in sorted(glob.glob(f"{VERIF}/harness/*.cpp"))]
    if "progs" in targets:  # runs the programs
        targets = targets + ["prog:" + os.path.basename(p)[:-4] for p in sorted(glob.glob(f"{REPO}/src/prog/*.cpp"))
                             if os.path.basename(p)[:-4] not in BARYO_PROGS]
    jobs, libobjs = [], []
    for d in LIBDIRS:
        for s in sorted(glob.glob(f"{REPO}/src/{d}/**/*.cpp", recursive=True)):
            if "LibCMAES" in s or s.endswith("Minfunc_gen.cpp"):
                continue
            o = f"{OUT}/obj/lib/" + os.path.relpath(s, f"{REPO}/src")[:-4] + ".o"
            libobjs.append(o)
            jobs.append((s, o, BASE))
    outs = []
    for t in targets:
        if t.startswith("prog:"):
            n = t[5:]
            o = f"{OUT}/obj/prog/{n}.o"
            jobs.append((f"{REPO}/src/prog/{n}.cpp", o, BASE))
            outs.append((f"{OUT}/prog/{n}", o))
        else:
            o = f"{OUT}/obj/harness/{t}.o"
            jobs.append((f"{VERIF}/harness/{t}.cpp", o, HFLAGS))
            outs.append((f"{OUT}/bin/{t}", o))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    bad = False
    n = 0
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for src, ch, msg in ex.map(lambda j: compile_one(*j), jobs):
            if ch is None:
                bad = True
                sys.stderr.write(f"COMPILE FAILED {src}\n{msg[-6000:]}\n")
            elif ch:
                n += 1
        if bad:
            sys.exit(2)
        list(ex.map(lambda o: link(o[0], [o[1], *libobjs]), outs))
    sys.stderr.write(f"build: {n} compiled, {len(outs)} targets up to date\n")


BARYO_PROGS = {"CalculateEWBG", "PlotEWBG_vw", "PlotEWBG_nL", "CreateMuGrid", "Kfactor_grid", "TestNewKheader"}
if __name__ == "__main__":
    main(sys.argv[1:] or ["all"])
