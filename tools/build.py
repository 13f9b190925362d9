#!/usr/bin/env python3
"""Offline mini builder: compiles the needed part of /repo's current tree plus a
harness driver of /verif/harness.  Up-to-date decisions are by content hash of the
source, every header it included, and the flags - never by time stamps - so a
change of /repo is always seen.  Output goes to /verif/build (ignored by git)."""
import os, sys, re, json, hashlib, subprocess, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DYABLO_REPO", "/repo")
SRC = os.path.join(REPO, "core", "src")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("DYABLO_VBUILD", os.path.join(VERIF, "build"))

OMPI = "/usr/lib/x86_64-linux-gnu/openmpi"
HDF5 = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
COMMON = ["-std=c++17", "-fopenmp", "-DBITPIT_ENABLE_MPI", "-DKOKKOS_DEPENDENCE",
          "-DDYABLO_USE_HDF5", "-DDYABLO_USE_HDF5_PARALLEL", "-DDYABLO_USE_DOUBLE", "-DDYABLO_USE_MPI",
          "-DDYABLO_VERIF",
          "-w",
          "-I/usr/include/hdf5/openmpi", "-I" + HARN,
          "-I" + SRC, "-I" + SRC + "/utils/mpi", "-I" + SRC + "/utils", "-I" + SRC + "/utils/config/inih",
          "-I" + SRC + "/utils/config", "-I" + SRC + "/utils/monitoring", "-I" + SRC + "/utils/misc",
          "-isystem", OMPI + "/include", "-isystem", OMPI + "/include/openmpi"]
LIBS = ["-Wl,-rpath," + HDF5 + ":" + OMPI + "/lib", HDF5 + "/libhdf5.so", OMPI + "/lib/libmpi_cxx.so",
        OMPI + "/lib/libmpi.so", "-l:libkokkoscontainers.so.3.7.01", "-l:libkokkoscore.so.3.7.01", "-ldl", "-lpthread", "-lm"]
MODES = {
    "rel": ["-O1", "-g0", "-DNDEBUG"],
    # checks of the code's own debug assertions switched on
    "dbg": ["-O1", "-g1", "-DNDEBUG", "-DDYABLO_ENABLE_ASSERT_KOKKOS_DEBUG=1", "-DDYABLO_ENABLE_ASSERT_HOST_DEBUG=1"],
    # checked standard containers
    "chk": ["-O1", "-g0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=undefined"],
}
UTILS = ["utils/config/inih/ini.cpp", "utils/monitoring/OpenMPTimer.cpp", "utils/monitoring/SimpleTimer.cpp",
         "utils/monitoring/Timers.cpp", "utils/misc/utils.cpp", "utils/mpi/GlobalMpiSession.cpp"]


class BuildError(Exception):
    pass


def sh(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}
_tok = re.compile(rb'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*(?:\\\n[^\n]*)*|/\*.*?\*/', re.S)


def canonical(b):
    """source text without comments and trailing blank space (a comment edit needs no rebuild)"""
    if b'R"' in b:
        return b
    b = _tok.sub(lambda m: m.group(0) if m.group(0)[:1] in (b'"', b"'") else b" ", b)
    return b"\n".join(x.rstrip() for x in b.rstrip().split(b"\n"))


def file_hash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                b = f.read()
                if p.startswith(REPO):
                    b = canonical(b)
                _fh[p] = sh(b)
        except OSError:
            _fh[p] = "missing"
    return _fh[p]


def repo_sources():
    """every library source the repository's own build lists"""
    res = []
    with open(os.path.join(SRC, "CMakeLists.txt")) as f:
        for line in f:
            line = line.split("#")[0]
            for m in re.finditer(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/(\S+?\.cpp)", line):
                if os.path.exists(os.path.join(SRC, m.group(1))):
                    res.append(m.group(1))
    for u in UTILS:
        if os.path.exists(os.path.join(SRC, u)) and u not in res:
            res.append(u)
    # sources a change added to a utils folder
    for d in ("utils",):
        for root, _, files in os.walk(os.path.join(SRC, d)):
            for fn in sorted(files):
                rel = os.path.relpath(os.path.join(root, fn), SRC)
                if fn.endswith(".cpp") and rel not in res and "/inih/" not in rel and "unittest" not in rel \
                        and os.path.basename(rel) in open(os.path.join(root, "CMakeLists.txt")).read() \
                        if os.path.exists(os.path.join(root, "CMakeLists.txt")) else False:
                    res.append(rel)
    return res


def select(folders):
    """folders: list of first path components (e.g. 'amr','mpi') or explicit prefixes; 'all' = everything"""
    out = []
    for s in repo_sources():
        if s.startswith("utils/") or "all" in folders or any(s == f or s.startswith(f + "/") for f in folders):
            out.append(s)
    return out


def compile_one(src, obj, flags, pch=None):
    dep = obj + ".d"
    key = obj + ".key"
    fl = " ".join(flags)
    if os.path.exists(obj) and os.path.exists(key):
        try:
            k = json.load(open(key))
            if k["flags"] == fl and all(file_hash(p) == h for p, h in k["deps"].items()):
                return False
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ["g++"] + flags + (["-include", pch] if pch else ["-include", os.path.join(HARN, "kokkos37_compat.h")]) + \
          ["-MMD", "-MF", dep, "-c", src, "-o", obj + ".tmp"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-6000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.replace(obj + ".tmp", obj)
    json.dump({"flags": fl, "deps": {d: file_hash(d) for d in deps}}, open(key, "w"))
    return True


def build(name, drivers, folders, mode="rel", extra=(), jobs=None):
    """build /verif/build/<mode>/<name> from harness files `drivers` and repo folders; returns path of executable"""
    t0 = time.time()
    jobs = jobs or os.cpu_count() or 8
    out = os.path.join(BUILD, mode)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _fh.clear()
        flags = MODES[mode] + COMMON + list(extra)
        # precompiled header (system headers only)
        pdir = os.path.join(out, "pch")
        os.makedirs(pdir, exist_ok=True)
        pch = os.path.join(pdir, "pch.h")
        body = open(os.path.join(HARN, "pch.h")).read()
        pkey = sh((body + " ".join(flags) + file_hash(os.path.join(HARN, "kokkos37_compat.h"))).encode())
        kf = pch + ".key"
        if not (os.path.exists(pch + ".gch") and os.path.exists(kf) and open(kf).read() == pkey):
            open(pch, "w").write(body)
            r = subprocess.run(["g++"] + flags + ["-x", "c++-header", pch, "-o", pch + ".gch"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-4000:])
            open(kf, "w").write(pkey)
        todo = []
        objs = []
        for d in drivers:
            s = d if os.path.isabs(d) else os.path.join(HARN, d)
            o = os.path.join(out, "h", os.path.basename(d) + ".o")
            todo.append((s, o))
            objs.append(o)
        for s in select(folders):
            o = os.path.join(out, "r", s + ".o")
            todo.append((os.path.join(SRC, s), o))
            objs.append(o)
        # biggest first
        heavy = ("hydro/", "amr/", "IOManager", "restart")
        todo.sort(key=lambda t: (0 if "/harness/" in t[0] else 1 if any(h in t[0] for h in heavy) else 2))
        with ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(compile_one, s, o, flags, pch) for s, o in todo]
            changed = [f.result() for f in futs]
        exe = os.path.join(out, name)
        lkey = sh((" ".join(sorted(objs)) + "".join(sh(open(o, "rb").read()) for o in sorted(objs))).encode())
        kf = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == lkey):
            lf = [f for f in MODES[mode] if f.startswith("-fsanitize")]
            r = subprocess.run(["g++", "-fopenmp", "-fuse-ld=gold"] + lf + objs + ["-o", exe] + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("link of %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
            open(kf, "w").write(lkey)
        return exe, time.time() - t0
    finally:
        lock.close()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from targets import TARGETS
    names = sys.argv[1:] or list(TARGETS)
    for n in names:
        mode = "rel"
        if ":" in n:
            n, mode = n.split(":")
        t = TARGETS[n]
        exe, dt = build(n, t["drivers"], t["folders"], mode, t.get("extra", ()))
        print("%s %.1fs" % (exe, dt))
