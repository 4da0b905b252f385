#!/usr/bin/env python3
"""Development-time conformance of the substitute runtime: compile the
repository's own tests against it and run every test.  usage: run.py [filter]"""
import sys, os, glob, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import build
from concurrent.futures import ThreadPoolExecutor
OUT = build.OUT + "/validate"
os.makedirs(OUT, exist_ok=True)
rc, o = build.build(["lib"])
if rc:
    print(o); sys.exit(1)
fl = build.variants()["a"]["flags"] + f" -include-pch {build.OUT}/a/pch.hpp.pch -I{build.REPO}/test -I{build.REPO}/test/include -DGPU_SELECTOR=0"
skip = ("petsc", "h5part", "main.cpp", "vtk")
L = [f"cxx = {build.CXX}", "rule cc\n command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
     "rule link\n command = $cxx -rdynamic $in -o $out $ldflags"]
objs = []
srcs = [f for f in sorted(glob.glob(build.REPO + "/test/*.cpp")) if not any(k in os.path.basename(f) for k in skip)]
for f in srcs + [V + "/validate/main.cpp"]:
    o = f"{OUT}/{os.path.basename(f)}.o"
    L.append(f"build {o}: cc {f} | {build.OUT}/a/pch.hpp.pch\n flags = {fl}")
    objs.append(o)
L.append(f"build {OUT}/new.o: cc {V}/mc/src/newdel.cpp\n flags = -std=c++17 -O2 -I{V}/mc/include")
bins = []
for f in srcs:
    b = f"{OUT}/{os.path.basename(f)[:-4]}"
    L.append(f"build {b}: link {OUT}/{os.path.basename(f)}.o {OUT}/main.cpp.o {OUT}/new.o {build.OUT}/a/lib.a\n ldflags = -L{build.OUT} -lmc -Wl,-rpath,{build.OUT} -lgtest -lpthread -ldl")
    bins.append(b)
open(OUT + "/build.ninja", "w").write("\n".join(L) + "\n")
r = subprocess.run(["ninja", "-C", OUT, "-k", "0", "-f", OUT + "/build.ninja"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
open(OUT + "/build.log", "w").write(r.stdout)
print("build rc", r.returncode)
tests = []
for b in bins:
    if not os.path.exists(b): print("MISSING", b); continue
    t = subprocess.run([b, "--gtest_list_tests"], stdout=subprocess.PIPE, text=True).stdout
    suite = ""
    for line in t.splitlines():
        if not line.startswith(" "): suite = line.split()[0] if line.split() else ""
        else: tests.append((b, suite + line.split()[0]))
flt = sys.argv[1] if len(sys.argv) > 1 else ""
def run(x):
    b, t = x
    if flt and flt not in t and flt not in b: return None
    try:
        r = subprocess.run([b, "--gtest_filter=" + t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, cwd=OUT, errors="replace")
        return (os.path.basename(b), t, r.returncode, r.stdout[-3000:])
    except subprocess.TimeoutExpired:
        return (os.path.basename(b), t, "timeout", "")
with ThreadPoolExecutor(8) as ex:
    res = [r for r in ex.map(run, tests) if r]
bad = [r for r in res if r[2] != 0]
json.dump(res, open(OUT + "/results.json", "w"), indent=1)
print(len(res), "tests,", len(bad), "bad")
for r in bad: print(r[0], r[1], r[2], [l for l in r[3].splitlines() if "MC-FAIL" in l or "Failure" in l][:1])
