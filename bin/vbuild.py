#!/usr/bin/env python3
"""Builds /verif/build: NATriuM's library objects from /repo's working tree and the harnesses.

Staleness is decided by content: an object is current when its flags and the sha256 of every
file it was compiled from (compiler depfile, files under /repo, /verif and /opt/vp/compat) are unchanged.
A check compiles only what its harness links (the archive members the linker pulled last time);
when the link fails without the rest, everything is brought up to date and linked again.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NATRIUM_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
COMPAT = "/opt/vp/compat"
LIB = REPO + "/src/library"
SKIP = {"natrium/utilities/ContinuousBoundaryGradient.cpp"}
CXX = "g++"
INC = ["-I" + LIB] + sum((["-isystem", d] for d in (
    "/usr/lib/x86_64-linux-gnu/openmpi/include",
    "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/petsc",
    "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
    "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc")), [])
FLAGS = ["-std=c++17", "-w", "-O1", "-g0", "-fno-omit-frame-pointer", "-DNDEBUG", "-pthread"]
LD_FLAGS = ["-fuse-ld=gold", "-pthread", "-Wl,-Bsymbolic-functions"]
# the link line CMake writes for NATriuM's test programs (without the library itself)
LIBDIR = "/usr/lib/x86_64-linux-gnu"

def link_libs():
    """deal.II and what it was linked with, as in the project's own link lines."""
    with open(VERIF + "/harness/linklibs.txt") as f:
        return f.read().split()

_sha = {}
def sha(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _sha:
        with open(path, "rb") as f:
            _sha[key] = hashlib.sha256(f.read()).hexdigest()
    return _sha[key]

def tracked(path):
    return path.startswith((REPO + "/", VERIF + "/harness", COMPAT))

def parse_dep(depfile):
    with open(depfile) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    deps = set()
    for d in re.split(r"(?<!\\)\s+", txt.strip()):
        d = os.path.normpath(d.replace("\\ ", " "))
        if d and tracked(os.path.abspath(d)):
            deps.add(os.path.abspath(d))
    return sorted(deps)

def fkey(flags):
    return hashlib.sha256(" ".join(flags).encode()).hexdigest()

def fresh(out, flags):
    meta = out + ".json"
    if not (os.path.exists(out) and os.path.exists(meta)):
        return False
    try:
        m = json.load(open(meta))
    except ValueError:
        return False
    if m["flags"] != fkey(flags):
        return False
    return all(sha(p) == h for p, h in m["deps"].items())

class BuildError(Exception):
    pass

def compile_one(src, out, flags, extra=()):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    dep = out + ".d"
    cmd = [CXX] + flags + list(extra) + ["-MD", "-MF", dep, src, "-o", out + ".tmp"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, p.stdout[-4000:]))
    os.replace(out + ".tmp", out)
    deps = parse_dep(dep)
    os.remove(dep)
    with open(out + ".json.tmp", "w") as f:
        json.dump({"flags": fkey(flags), "deps": {d: sha(d) for d in deps}}, f)
    os.replace(out + ".json.tmp", out + ".json")

PCH_DIR = BUILD + "/pch"
def pch():
    out = PCH_DIR + "/pch.h.gch"
    flags = FLAGS + INC
    if not fresh(out, flags):
        os.makedirs(PCH_DIR, exist_ok=True)
        with open(PCH_DIR + "/pch.h", "w") as f:
            f.write("// see pch.h.gch\n")
        with open(PCH_DIR + "/src.h", "w") as f:
            f.write(open(COMPAT + "/dealii_compat.h").read() if False else
                    '#include "%s/dealii_compat.h"\n' % COMPAT)
        compile_one(PCH_DIR + "/src.h", out, flags, ["-x", "c++-header"])
    return PCH_DIR + "/pch.h"

def lib_sources():
    res = []
    for root, _, files in os.walk(LIB + "/natrium"):
        for fn in files:
            if fn.endswith(".cpp"):
                rel = os.path.relpath(os.path.join(root, fn), LIB)
                if rel not in SKIP:
                    res.append(rel)
    return sorted(res)

def objflags():
    return FLAGS + INC + ["-include", PCH_DIR + "/pch.h", "-include", COMPAT + "/natrium_preamble.h", "-c"]

def objpath(rel):
    return BUILD + "/obj/" + rel[:-4] + ".o"

def par(jobs, n=None):
    n = n or int(os.environ.get("VERIF_JOBS", "8"))
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(*j) for j in jobs]:
            f.result()

def stale_objects(rels):
    fl = objflags()
    return [r for r in rels if not fresh(objpath(r), fl)]

# big ones first
SLOW = ("CFDSolver", "SemiLagrangian", "Checkpoint", "SEDGMinLee", "BGKMultistep", "KBC")
def order(rels):
    return sorted(rels, key=lambda r: (not any(s in r for s in SLOW), r))

def compile_lib(rels):
    fl = objflags()
    todo = order(stale_objects(rels))
    par([(compile_one, LIB + "/" + r, objpath(r), fl) for r in todo])
    return len(todo)

def harness_src(name):
    return VERIF + "/harness/" + name + ".cpp"

def build_harness(name, everything=False):
    """Returns the path of the executable."""
    pch()
    hobj = BUILD + "/hobj/" + name + ".o"
    hfl = objflags() + ["-I" + VERIF + "/harness"]
    exe = BUILD + "/bin/" + name
    need_file = BUILD + "/needed/" + name + ".json"
    rels = lib_sources()
    needed = None
    if not everything and os.path.exists(need_file):
        needed = [r for r in json.load(open(need_file)) if r in set(rels)]
    fl = objflags()
    if needed is None:
        needed = rels
    stale = order(stale_objects(needed))
    jobs = [(compile_one, LIB + "/" + r, objpath(r), fl) for r in stale]
    hstale = not fresh(hobj, hfl)
    if hstale:
        jobs.insert(0, (compile_one, harness_src(name), hobj, hfl))
    par(jobs)
    # what went into the executable
    def stamp(objs):
        h = hashlib.sha256()
        for o in [hobj] + objs:
            h.update(o.encode()); h.update(json.dumps(json.load(open(o + ".json")), sort_keys=True).encode())
        return h.hexdigest()
    have = [objpath(r) for r in rels if fresh(objpath(r), fl)]
    st_needed = stamp([objpath(r) for r in needed])
    if os.path.exists(exe) and os.path.exists(exe + ".stamp") and \
            open(exe + ".stamp").read() == st_needed:
        return exe
    try:
        pulled = link(hobj, have, exe)
    except BuildError:
        if len(have) == len(rels):
            raise
        compile_lib(rels)
        have = [objpath(r) for r in rels]
        pulled = link(hobj, have, exe)
    back = {objpath(r): r for r in rels}
    nd = sorted(back[o] for o in pulled if o in back)
    os.makedirs(os.path.dirname(need_file), exist_ok=True)
    json.dump(nd, open(need_file, "w"))
    open(exe + ".stamp", "w").write(stamp([objpath(r) for r in nd]))
    return exe

def link(hobj, objs, exe):
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = [CXX] + LD_FLAGS + [hobj, "-Wl,--start-lib"] + objs + ["-Wl,--end-lib", "-o", exe + ".tmp",
           "-Wl,--trace"] + link_libs()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("link failed: %s\n%s" % (exe, p.stdout[-3000:]))
    os.replace(exe + ".tmp", exe)
    # gold: "file" lines of what is really linked
    files = set()
    for line in p.stdout.splitlines():
        files.add(line.strip())
    return [o for o in objs if o in files]

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + "/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def harnesses():
    return sorted(f[:-4] for f in os.listdir(VERIF + "/harness") if f.endswith(".cpp") and f.startswith("h_"))

def main():
    t = time.time()
    with Lock():
        if len(sys.argv) > 1 and sys.argv[1] != "all":
            for n in sys.argv[1:]:
                print(build_harness(n))
        else:
            pch()
            n = compile_lib(lib_sources())
            print("library objects compiled:", n, "%.0fs" % (time.time() - t))
            hs = harnesses()
            hfl = objflags() + ["-I" + VERIF + "/harness"]
            par([(compile_one, harness_src(h), BUILD + "/hobj/" + h + ".o", hfl)
                 for h in hs if not fresh(BUILD + "/hobj/" + h + ".o", hfl)])
            par([(build_harness, h) for h in hs], 4)
    print("build done in %.0fs" % (time.time() - t))

if __name__ == "__main__":
    main()
