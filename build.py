#!/usr/bin/env python3
"""Compile /repo's current sources against the controlled runtime (ninja).

usage: build.py <target> ...   (targets: harness names, or 'lib')
"""
import os, sys, glob, subprocess, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
OUT = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
CXX = shutil.which("clang++-18") or "clang++"

DEFS = ("-DRESTRICT=__restrict -DNESO_PARTICLES_TEST_COMPILATION "
        "-DNESO_PARTICLES_VERSION_MAJOR=0 -DNESO_PARTICLES_VERSION_MINOR=0 "
        "-DNESO_PARTICLES_VERSION_PATCH=0 -DNESO_PARTICLES_DEVICE_TYPE_CPU "
        "-DNDEBUG -DNESO_PARTICLES_MC_HOOKS")
WARN = "-w"
BASE = f"-std=c++17 -O1 -gline-tables-only -fPIC -fno-omit-frame-pointer {WARN}"
TSAN = "-fsanitize=thread -mllvm -tsan-instrument-atomics=0"


def variants():
    inc = f"-I{VERIF}/mc/include -I{REPO}/include -I{VERIF}/harness"
    v = {}
    # the substitute MPI (many ranks); optionally pretending to be OpenMPI
    v["a"] = dict(flags=f"{BASE} {TSAN} {DEFS} {inc}", engine="mc", libs="")
    v["o"] = dict(flags=f"{BASE} {TSAN} {DEFS} -DMC_MPI_PRETEND_OPENMPI {inc}",
                  engine="mc", libs="")
    # with the substitute HDF5
    v["h"] = dict(flags=f"{BASE} {TSAN} {DEFS} -DNESO_PARTICLES_HDF5 "
                  f"-I{VERIF}/mc/include_h5 {inc}", engine="mc", libs="")
    # the real MPI and PETSc libraries (several mpirun groups in lock step)
    def pc(*a):
        return subprocess.run(["pkg-config", *a], stdout=subprocess.PIPE,
                              stderr=subprocess.DEVNULL, text=True).stdout.strip()
    mi = pc("--cflags", "ompi-c") or "-I/usr/lib/x86_64-linux-gnu/openmpi/include"
    ml = pc("--libs", "ompi-c") or "-lmpi"
    pd = next(iter(sorted(glob.glob("/usr/lib/petscdir/petsc*/*-real"))), "")
    v["p"] = dict(flags=f"{BASE} {TSAN} {DEFS} -DNESO_PARTICLES_PETSC "
                  f"-DOMPI_SKIP_MPICXX {mi} -isystem {pd}/include "
                  f"-isystem /usr/include/hdf5/openmpi {inc}",
                  engine="mcp", engflags=f"-DMC_REALMPI {mi}",
                  libs=f"-L{pd}/lib -lpetsc_real {ml}")
    return v


HARNESS = {}  # name -> variant, discovered from a "// MC-VARIANT: x" line


def variant_of(path):
    with open(path) as f:
        for line in f:
            if line.startswith("// MC-VARIANT:"):
                return line.split(":")[1].strip()
    return "a"


def gen(targets):
    os.makedirs(OUT, exist_ok=True)
    vs = variants()
    L = []
    L.append(f"cxx = {CXX}")
    L.append("ninja_required_version = 1.3")
    L.append("rule cc\n command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc")
    L.append("rule pch\n command = $cxx $flags -MMD -MF $out.d -x c++-header "
             "$in -o $out\n depfile = $out.d\n deps = gcc")
    L.append("rule eng\n command = g++ -std=c++17 -O2 -g -fPIC -shared "
             "-fno-omit-frame-pointer -fno-gnu-unique -fvisibility=hidden "
             "-DMC_ENGINE $inc $in -Wl,--version-script=$map -MMD -MF $out.d "
             "-o $out\n depfile = $out.d\n deps = gcc")
    L.append("rule link\n command = $cxx -rdynamic $in $ldflags -o $out")
    L.append("rule ar\n command = rm -f $out && ar rcsT $out $in")
    M = f"{VERIF}/mc"
    L.append(f"build {OUT}/libmc.so: eng {M}/src/engine.cpp {M}/src/mpi.cpp | "
             f"{M}/src/mc.map {M}/src/internal.h\n inc = -I{M}/include\n"
             f" map = {M}/src/mc.map")
    L.append(f"build {OUT}/libmcp.so: eng {M}/src/engine.cpp {M}/src/mpi_real.cpp | "
             f"{M}/src/mc.map {M}/src/internal.h {M}/src/group.h\n inc = "
             f"{vs['p']['engflags']} -I{M}/include\n map = {M}/src/mc.map")
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
    used = set()
    goals = []
    for t in targets:
        if t == "lib":
            used.add("a")
            goals += [f"{OUT}/a/lib.a", f"{OUT}/libmc.so"]
            continue
        used.add(variant_of(f"{VERIF}/harness/{t}.cpp"))
    for v in sorted(used):
        d = f"{OUT}/{v}"
        os.makedirs(d, exist_ok=True)
        hdr = f"{d}/pch.hpp"
        want = '#include <neso_particles.hpp>\n'
        if not os.path.exists(hdr) or open(hdr).read() != want:
            open(hdr, "w").write(want)
        fl = vs[v]["flags"]
        L.append(f"build {d}/pch.hpp.pch: pch {hdr}\n flags = {fl}")
        objs = []
        for s in srcs:
            o = f"{d}/obj/{os.path.relpath(s, REPO + '/src').replace('/', '__')}.o"
            L.append(f"build {o}: cc {s} | {d}/pch.hpp.pch\n"
                     f" flags = {fl} -include-pch {d}/pch.hpp.pch")
            objs.append(o)
        L.append(f"build {d}/lib.a: ar " + " ".join(objs))
    for t in targets:
        if t == "lib":
            continue
        src = f"{VERIF}/harness/{t}.cpp"
        v = variant_of(src)
        d = f"{OUT}/{v}"
        fl = vs[v]["flags"]
        L.append(f"build {d}/{t}.o: cc {src} | {d}/pch.hpp.pch\n"
                 f" flags = {fl} -include-pch {d}/pch.hpp.pch")
        L.append(f"build {d}/new.o: cc {M}/src/newdel.cpp\n flags = -std=c++17 -O2 -fPIC -I{M}/include"
                 if f"{d}/new.o" not in "\n".join(L) else "")
        L.append(f"build {OUT}/{t}: link {d}/{t}.o {d}/new.o {d}/lib.a | {OUT}/lib{vs[v]['engine']}.so\n"
                 f" ldflags = -L{OUT} -l{vs[v]['engine']} -Wl,-rpath,{OUT} {vs[v]['libs']} -ldl")
        goals.append(f"{OUT}/{t}")
    L.append("default " + " ".join(goals))
    nf = f"{OUT}/build.ninja" if len(targets) != 1 else f"{OUT}/build_{targets[0]}.ninja"
    open(nf, "w").write("\n".join(L) + "\n")
    return nf


def build(targets, jobs=None):
    nf = gen(targets)
    cmd = ["ninja", "-f", nf, "-C", OUT]
    if jobs:
        cmd += ["-j", str(jobs)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    return r.returncode, r.stdout


if __name__ == "__main__":
    rc, out = build(sys.argv[1:])
    lines = out.splitlines()
    print("\n".join(lines[-60:]))
    sys.exit(rc)
