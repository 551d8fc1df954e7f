#!/usr/bin/env python3
"""Builds the simulator and the rank images from /repo's current working tree."""
import os, sys, subprocess, glob, fcntl, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VPIC_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
COMMON = "-std=c++11 -g0 -w -fPIC -fno-strict-aliasing -fno-gnu-unique -ffunction-sections"
TS = "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"
VARIANTS = {
    # the five shipped configurations ...
    "ref":    ("-O2 -DVPIC_USE_PTHREADS", "pthreads, scalar pipelines"),
    "v4sse":  ("-O2 -DVPIC_USE_PTHREADS -DUSE_V4_SSE -DVPIC_USE_LEGACY_SORT", "pthreads, SSE pipelines, legacy sort"),
    "v8avx2": ("-O1 -mavx2 -mfma -DVPIC_USE_PTHREADS -DUSE_V4_AVX2 -DUSE_V8_AVX2", "pthreads, AVX2 pipelines"),
    "v8omp":  ("-O1 -DVPIC_USE_OPENMP -fopenmp -DUSE_V4_PORTABLE -DUSE_V8_PORTABLE", "OpenMP, portable 8-wide pipelines"),
    "v16p":   ("-O1 -DVPIC_USE_PTHREADS -DUSE_V4_PORTABLE -DUSE_V8_PORTABLE -DUSE_V16_PORTABLE", "pthreads, portable 16-wide pipelines"),
    # ... and the same sources with every memory access a possible preemption point
    "refts":  ("-O1 -DVPIC_USE_PTHREADS " + TS, "pthreads, scalar, preemption at memory accesses"),
    "ssets":  ("-O1 -DVPIC_USE_PTHREADS -DUSE_V4_SSE -DVPIC_USE_LEGACY_SORT " + TS, "pthreads, SSE, legacy sort, preemption at memory accesses"),
    "refomp": ("-O1 -DVPIC_USE_OPENMP -fopenmp", "OpenMP, scalar pipelines"),
    "ompts":  ("-O1 -DVPIC_USE_OPENMP -fopenmp " + TS, "OpenMP, scalar, preemption at memory accesses"),
}
WRAPS = None

def wraps():
    global WRAPS
    if WRAPS is None:
        import re
        s = set()
        for f in ("core", "threads", "fs"):
            s |= set(re.findall(r"\b__wrap_([A-Za-z0-9_]+)\s*\(", open(os.path.join(VERIF, "sim", f + ".cc")).read()))
        WRAPS = sorted(s)
    return WRAPS

def sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        if os.path.basename(base) == "test" or "/test/" in base + "/":
            dirs[:] = []
            continue
        for f in sorted(files):
            if f.endswith((".cc", ".c", ".cxx", ".cpp")):
                out.append(os.path.join(base, f))
    out.append(os.path.join(REPO, "deck", "main.cc"))
    return out

def write_if(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

def generate(variants):
    os.makedirs(BUILD, exist_ok=True)
    n = ["ninja_required_version = 1.5", f"builddir = {BUILD}"]
    n.append(f"rule cc\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    n.append("rule so\n  command = g++ -shared -o $out @$out.rsp -Wl,-Bsymbolic -Wl,--dynamic-list=" + os.path.join(BUILD, "dyn.list") + " $wrap\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = SO $out")
    n.append("rule exe\n  command = g++ -rdynamic -o $out $in -ldl -lpthread -lm\n  description = LD $out")
    write_if(os.path.join(BUILD, "dyn.list"), "{ _nanodelay; };\n")
    w = " ".join("-Wl,--wrap=" + x for x in wraps())
    srcs = sources()
    targets = []
    for v in variants:
        fl = COMMON + " " + VARIANTS[v][0] + f" -I{VERIF}/sim/include -I{VERIF} -I{REPO} -I{REPO}/src"
        objs = []
        for s in srcs:
            o = os.path.join(BUILD, v, s.replace(REPO, "").strip("/").replace("/", "_") + ".o")
            n.append(f"build {o}: cc {s}\n  flags = {fl}")
            objs.append(o)
        o = os.path.join(BUILD, v, "deck.o")
        n.append(f"build {o}: cc {REPO}/deck/wrapper.cc\n  flags = {fl} -DINPUT_DECK={VERIF}/sim/deck.cc")
        objs.append(o)
        so = os.path.join(BUILD, f"librank_{v}.so")
        n.append(f"build {so}: so {' '.join(objs)} | {BUILD}/dyn.list\n  wrap = {w}")
        targets.append(so)
    eo = []
    for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cc"))):
        if os.path.basename(s) == "deck.cc":
            continue
        o = os.path.join(BUILD, "sim", os.path.basename(s) + ".o")
        n.append(f"build {o}: cc {s}\n  flags = -std=c++17 -O2 -g -Wall -Wno-misleading-indentation -I{VERIF}/sim -I{VERIF}/sim/include")
        eo.append(o)
    exe = os.path.join(BUILD, "vpicsim")
    n.append(f"build {exe}: exe {' '.join(eo)}")
    targets.append(exe)
    name = "build_" + hashlib.sha1(" ".join(variants).encode()).hexdigest()[:8] + ".ninja"
    write_if(os.path.join(BUILD, name), "\n".join(n) + "\n")
    return name, targets

def build(variants, quiet=True):
    """Returns None when built, else the text of the failure."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        name, targets = generate(list(variants))
        p = subprocess.run(["ninja", "-C", BUILD, "-f", name, "-j", str(os.cpu_count() or 8)] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return p.stdout
        if not quiet:
            print(p.stdout[-2000:])
    return None

if __name__ == "__main__":
    e = build(sys.argv[1:] or list(VARIANTS))
    if e:
        i = e.find("FAILED")
        print(e[i:i + 4000])
        sys.exit(2)
    print("built")
