#!/usr/bin/env python3
"""Mutation campaign: small changes of the sources, one at a time, against the
harnesses that exercise the file; reports those that no harness notices.

usage: mutate.py <out.jsonl> <mutants per file | earlier.jsonl> <seed> [file regex]

Uses the build in $MC_BUILD (default /verif/build), which must be up to date for
$MC_REPO; works in /tmp/mu and never changes the repository.
"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import build

W = "/tmp/mu"
MAP = [  # regex on the path -> harnesses
    (r"algorithms/dsmc", "p_dsmc"), (r"algorithms/particle_data_mov", "p_alg"),
    (r"algorithms/", "p_alg p_cont"), (r"boundary_mesh_interface", "p_surf"),
    (r"petsc/boundary_interaction", "p_dmb"), (r"/boundary", "p_bound p_surf"),
    (r"cartesian_periodic|cartesian_trajectory", "p_bound p_surf"),
    (r"external_interfaces/vtk|particle_io", "p_io"),
    (r"external_interfaces/common", "p_ext p_dmf p_dm"),
    (r"cartesian_cell_bin", "p_move p_mesh"),
    (r"cartesian_h_mesh", "p_mesh p_bound p_surf p_io p_init"),
    (r"cartesian_mesh", "p_local p_mesh p_move"),
    (r"cell_dat_compression|cell_dat_move", "p_group p_move"),
    (r"packing_unpacking|global_move|departing|global_mapping", "p_move"),
    (r"local_move|local_mapping", "p_local"),
    (r"mesh_hierarchy_data", "p_comm p_surf p_io"), (r"utility_mesh_h", "p_io"),
    (r"communication", "p_comm p_mesh"), (r"mesh_hierarchy|mesh_interface", "p_mesh p_move"),
    (r"containers/rng", "p_rng"), (r"containers/sym_vec|ephemeral", "p_eph p_loop"),
    (r"product_matrix|descendant|particle_set", "p_prod"),
    (r"containers/(blocked|cell_dat|lookup|resource|local_memory|cell_data)", "p_store p_cont"),
    (r"containers/", "p_cont p_loop"), (r"device_buffers|compute_target|device_limits", "p_store p_alg"),
    (r"device_functions|coordinate_mapping", "p_geom"),
    (r"petsc/.*(project_evaluate|coupler)|dof_mapper", "p_dmf p_ext"),
    (r"petsc/", "p_dm p_dmb"),
    (r"pair_loop", "p_pair"), (r"sub_group", "p_sub"), (r"pointer_map", "p_sub p_group"),
    (r"parallel_init|utility.[ch]pp", "p_init p_rng"), (r"error_prop", "p_loop p_move"),
    (r"particle_group_temporary", "p_prod"), (r"particle_loop_utility", "p_rng p_loop"),
    (r"loop", "p_loop p_cont"), (r"particle_", "p_group p_sub p_prod"), (r"", "p_group p_loop"),
]
SKIP = re.compile(r"typedefs|parameters.hpp|profiling|access.hpp|neso_particles.hpp|"
                  r"debug|sycl_typedefs|device_atomic_sanity|petsc_common|_redirection")
OPS = [(r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!\w-])\s<\s(?![<=])", " <= "),
       (r"\s>=\s", " > "), (r"\s>\s(?=\S+(\s|\)|;))", " >= "), (r"==", "!="), (r"!=", "=="),
       (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\*\s(?=\w)", " + "), (r"\s/\s", " * "),
       (r"\s%\s", " / "), (r"\+=", "="), (r"\s\+=\s", " -= "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"std::max\(", "std::min("), (r"std::min\(", "std::max("), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"= 0;", "= 1;"), (r" \+ 1\b", ""), (r" - 1\b", ""),
       (r"\[0\]", "[1]"), (r"\b0\b(?=\))", "1"), (r"\bif \((.*)\) \{$", r"if (!(\1)) {"),
       (r"^(\s+)[\w>.:\[\]-]+\(.*\);$", r"\1;"), (r"^(\s+)[\w>.\[\]()-]+ \+?= .*;$", r"\1;"),
       (r"\.begin\(\)", ".end()"), (r"\+\+", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"),
       (r"\bncomp\b", "(ncomp-1)"), (r"\bnrow\b(?=[ )])", "(nrow-1)"), (r"\breturn true", "return false")]


def mutants(path, n, rng):
    src = open(path).read().split("\n")
    out = []
    incomment = False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment or s.startswith(("//", "*", "#", "template", "using", "namespace", "typedef")):
            if "*/" in s:
                incomment = False
            continue
        if re.search(r"NESOASSERT|profile|nprint|Region|MPICHK\(MPI_Barrier|#|static_assert|template|operator", l):
            continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                t = code[:m.start()] + re.sub(a, b, m.group(0) if not a.startswith((r"^", r"\bif")) and "(?" not in a else code[m.start():m.end()]) + code[m.end():]
                if "(?" in a and not a.startswith("^"):
                    t = code[:m.start()] + b + code[m.end():]
                if t != code:
                    out.append((i, l, t))
    rng.shuffle(out)
    seen, r = set(), []
    for o in out:
        if o[0] in seen:
            continue
        seen.add(o[0])
        r.append(o)
    return src, r[:n]


def sh(cmd, t, cwd=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def run(job):
    k, rel, line, new, src = job
    d = f"{W}/{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    res = dict(file=rel, line=line + 1, old=src[line].strip(), new=new.strip())
    text = "\n".join(src[:line] + [new] + src[line + 1:])
    hs = next(h for r, h in MAP if re.search(r, rel)).split()
    V = build.variants()
    B = build.OUT
    hdr = rel.startswith("include/")
    if hdr:
        shutil.copytree(f"{build.REPO}/include", f"{d}/include")
        open(f"{d}/{rel}", "w").write(text)
    else:
        open(f"{d}/m.cpp", "w").write(text)
    res["state"] = "survived"
    res["runs"] = []
    try:
        for h in hs:
            v = build.variant_of(f"{build.VERIF}/harness/{h}.cpp")
            fl = V[v]["flags"]
            if hdr:
                fl = fl.replace(f"-I{build.REPO}/include", f"-I{d}/include")
                rc, o = sh(f"{build.CXX} {fl} -c {build.VERIF}/harness/{h}.cpp -o {d}/h.o", 400)
                objs = f"{d}/h.o"
            else:
                rc, o = sh(f"{build.CXX} {fl} -I{os.path.dirname(build.REPO + '/' + rel)} "
                           f"-include-pch {B}/{v}/pch.hpp.pch -c {d}/m.cpp -o {d}/m.o", 400)
                objs = f"{B}/{v}/{h}.o {d}/m.o"
            if rc:
                res["state"] = "invalid"
                return res
            rc, o = sh(f"{build.CXX} -rdynamic {objs} {B}/{v}/new.o {B}/{v}/lib.a -L{B} "
                       f"-l{V[v]['engine']} -Wl,-rpath,{B} {V[v]['libs']} -ldl -o {d}/x", 200)
            if rc:
                res["state"] = "invalid"
                res["err"] = o[-300:]
                return res
            for R in ([1, 2, 3] if v == "p" else [0]):
                rr = f"--ranks {R}" if R else ""
                rc, o = sh(f"./x --tier quick --time {T} {rr} --out {d}/r.json", T * 3 + 60, d)
                if not os.path.exists(f"{d}/r.json"):
                    res["state"] = "noresult"
                    res["by"] = h
                    return res
                j = json.load(open(f"{d}/r.json"))
                res["runs"].append([h, R, j["executions"], j["exhausted"]])
                os.remove(f"{d}/r.json")
                if j["violations"]:
                    res["state"] = "killed"
                    res["by"] = h
                    res["how"] = j["violations"][0]["message"][:120]
                    return res
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


T = int(os.environ.get("MUT_TIME", "40"))
if __name__ == "__main__":
    out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    again = n if n.endswith(".jsonl") else None  # only the survivors of that run
    n = 0 if again else int(n)
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    files = subprocess.run(["git", "-C", build.REPO, "ls-files", "src/*.cpp", "include/*.hpp"],
                           stdout=subprocess.PIPE, text=True).stdout.split()
    files = [f for f in files if not SKIP.search(f) and re.search(pat, f)]
    rng = random.Random(seed)
    jobs = []
    for f in files:
        src, ms = mutants(f"{build.REPO}/{f}", n, rng)
        jobs += [(f, i, t, src) for i, _, t in ms]
    if again:
        for r in map(json.loads, open(again)):
            if r["state"] in ("survived", "noresult"):
                jobs.append((r["file"], r["line"] - 1, r["new"],
                             open(f"{build.REPO}/{r['file']}").read().split("\n")))
    rng.shuffle(jobs)
    jobs = [(k,) + j for k, j in enumerate(jobs)]
    print(len(jobs), "mutants of", len(files), "files", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex, open(out, "w") as fo:
        for r in ex.map(run, jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
