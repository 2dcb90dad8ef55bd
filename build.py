#!/usr/bin/env python3
"""Builds the harness against /repo's current working tree into /verif/build (content-hashed, incremental).

Nothing is written under /repo: the sources are mirrored to build/src, the precision generator runs there, and
every PLASMA object is compiled with basic-block callbacks and a force-included allocator header, then linked with
the harness' own OpenMP stand-in instead of libgomp."""
import hashlib, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(B, "src")
OBJ = os.path.join(B, "obj")
JOBS = int(os.environ.get("VF_JOBS", "8"))
INC_SYS = ["-I/usr/include/x86_64-linux-gnu/openblas-pthread", "-I/usr/include/lua5.4"]
DEFS = ["-DPLASMA_USE_LUA", "-DPLASMA_WITH_OPENBLAS"]
PFLAGS = ["-O1", "-g1", "-std=gnu99", "-fopenmp", "-fsanitize-coverage=trace-pc", "-w", "-fcommon"]
CXXFLAGS = ["-O1", "-g1", "-std=gnu++17", "-w", "-fcx-limited-range", "-fno-omit-frame-pointer"]
PREC_UNITS_PREFIX = "ops_"      # h/ops_*.cc and h/kern_*.cc are compiled once per precision
PRECS = {"s": "1", "d": "2", "c": "3", "z": "4"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(p) and read(p) == data:
        return False
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    return True


def mirror():
    """copy the sources; returns dict relpath -> bytes of hand-written files"""
    tracked = None
    try:
        out = subprocess.run(["git", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard",
                              "compute", "control", "core_blas", "include", "tools"], capture_output=True, check=True).stdout
        tracked = [x for x in out.decode().split("\0") if x]
    except Exception:
        tracked = None
    if not tracked:
        tracked = []
        for d in ("compute", "control", "core_blas", "include", "tools"):
            for r, _, fs in os.walk(os.path.join(REPO, d)):
                for f in fs:
                    p = os.path.relpath(os.path.join(r, f), REPO)
                    tracked.append(p)
    files = {}
    for p in tracked:
        full = os.path.join(REPO, p)
        if not os.path.isfile(full) or "old_build_system" in p:
            continue
        if not p.endswith((".c", ".h", ".hin", ".py", ".def")):
            continue
        data = read(full)
        if b"@generated" in data[:2000] and p.endswith((".c", ".h")):
            continue
        files[p] = data
    return files


def main():
    t0 = time.time()
    os.makedirs(OBJ, exist_ok=True)
    files = mirror()
    tools_hash = sha(*[files[k] for k in sorted(files) if k.startswith("tools/")])
    # --- precision generation
    manifest_p = os.path.join(B, "gen.manifest")
    old = {}
    if os.path.exists(manifest_p):
        for l in open(manifest_p):
            k, v = l.rstrip("\n").split("\t")
            old[k] = v
    new, todo = {}, []
    for p, d in files.items():
        write_if_changed(os.path.join(SRC, p), d)
        if p.startswith("tools/"):
            continue
        h = sha(d, tools_hash)
        new[p] = h
        if re.search(rb"@precisions +\w+ +\w+ +->", d) and old.get(p) != h:
            todo.append(p)
    # remove hand-written files that disappeared
    for p in old:
        if p not in new:
            try:
                os.remove(os.path.join(SRC, p))
            except OSError:
                pass
    if todo:
        n = max(1, min(JOBS, len(todo)))
        chunks = [todo[i::n] for i in range(n)]

        def gen(c):
            return subprocess.run([sys.executable, os.path.join(SRC, "tools/codegen.py")] + c, cwd=SRC, capture_output=True, text=True,
                                  env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(gen, chunks):
                if r.returncode:
                    print("codegen failed:\n" + r.stderr[-3000:])
                    return 2
    with open(manifest_p, "w") as f:
        for k, v in new.items():
            f.write(k + "\t" + v + "\n")
    write_if_changed(os.path.join(SRC, "include/plasma_config.h"), "#ifndef PLASMA_CONFIG_H\n#define PLASMA_CONFIG_H\n#define PLASMA_USE_LUA\n#endif\n")
    t1 = time.time()

    cml = open(os.path.join(REPO, "CMakeLists.txt")).read()
    srcs = sorted(set(re.findall(r"\b((?:compute|core_blas|control)/\w+\.c)\b", cml)))
    srcs = [s for s in srcs if os.path.exists(os.path.join(SRC, s))]
    hdrs = {}
    for r, _, fs in os.walk(os.path.join(SRC, "include")):
        for f in sorted(fs):
            if f.endswith(".h"):
                hdrs[f] = read(os.path.join(r, f))
    hhash = sha(*[k.encode() + hdrs[k] for k in sorted(hdrs)])
    vhash = sha(read(os.path.join(HERE, "h/vf_alloc_inc.h")))
    jobs = []
    pobjs = []
    for s in srcs:
        data = read(os.path.join(SRC, s))
        key = sha(data, hhash, vhash, " ".join(PFLAGS + DEFS))
        o = os.path.join(OBJ, s.replace("/", "_")[:-2] + "-" + key + ".o")
        pobjs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, ["gcc"] + PFLAGS + DEFS + INC_SYS + ["-Iinclude", "-include", os.path.join(HERE, "h/vf_alloc_inc.h"), "-c", s], SRC))
    # --- harness
    hd = os.path.join(HERE, "h")
    hfiles = sorted(os.listdir(hd))
    hh = sha(*[f.encode() + read(os.path.join(hd, f)) for f in hfiles if f.endswith(".h")])
    hobjs = []
    for f in hfiles:
        if not f.endswith(".cc"):
            continue
        data = read(os.path.join(hd, f))
        indep = f in ("rt.cc", "engine.cc")
        # runtime and engine do not include PLASMA headers
        base = sha(data, read(os.path.join(hd, "rt.h")), read(os.path.join(hd, "engine.h"))) if indep else sha(data, hh, hhash)
        variants = [(p, ["-DPREC=" + PRECS[p]]) for p in PRECS] if f.startswith(("ops_", "kern_")) else [("", [])]
        for p, ex in variants:
            key = sha(base, " ".join(CXXFLAGS + DEFS + ex))
            o = os.path.join(OBJ, "h_" + f[:-3] + (("_" + p) if p else "") + "-" + key + ".o")
            hobjs.append(o)
            if not os.path.exists(o):
                jobs.insert(0, (f + " " + p, o, ["g++"] + CXXFLAGS + DEFS + ex + INC_SYS + ["-I" + os.path.join(SRC, "include"), "-c", os.path.join(hd, f)], hd))

    def comp(j):
        name, o, cmd, cwd = j
        tmp = o + ".%d.tmp" % os.getpid()
        t = time.time()
        r = subprocess.run(cmd + ["-o", tmp], cwd=cwd, capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, o)
        return name, r, time.time() - t
    bad = 0
    slow = []
    with ThreadPoolExecutor(JOBS) as ex:
        for name, r, dt in ex.map(comp, jobs):
            slow.append((dt, name))
            if r.returncode:
                bad += 1
                if bad <= 3:
                    print("compile failed: %s\n%s" % (name, r.stderr[:3000]))
    if bad:
        return 2
    if os.environ.get("VF_VERBOSE"):
        print(sorted(slow)[-8:])
    t2 = time.time()
    exe = os.path.join(B, "vfcheck")
    linkkey = sha(*(sorted(pobjs) + sorted(hobjs)))
    kp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kp) and open(kp).read() == linkkey):
        lib = os.path.join(B, "plasma.o")
        pk = sha(*sorted(pobjs))
        if not (os.path.exists(lib) and os.path.exists(lib + ".key") and open(lib + ".key").read() == pk):
            rsp = os.path.join(B, "plasma.rsp")
            open(rsp, "w").write("\n".join(pobjs))
            r = subprocess.run(["ld", "-r", "-o", lib, "@" + rsp], capture_output=True, text=True)
            if r.returncode:
                print(r.stderr[:3000]); return 2
            red = os.path.join(B, "redef.txt")
            open(red, "w").write("malloc vf_malloc\ncalloc vf_calloc\nrealloc vf_realloc\nfree vf_free\nposix_memalign vf_posix_memalign\naligned_alloc vf_aligned_alloc\n")
            r = subprocess.run(["objcopy", "--redefine-syms=" + red, lib], capture_output=True, text=True)
            if r.returncode:
                print(r.stderr[:3000]); return 2
            open(lib + ".key", "w").write(pk)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-o", tmp] + hobjs + [lib, "-llapacke", "-lopenblas", "-llua5.4", "-lm", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            print("link failed:\n" + r.stderr[:4000]); return 2
        os.rename(tmp, exe)
        open(kp, "w").write(linkkey)
    # drop stale objects
    keep = set(pobjs) | set(hobjs)
    for f in os.listdir(OBJ):
        p = os.path.join(OBJ, f)
        if p not in keep and time.time() - os.path.getmtime(p) > 3600:
            os.remove(p)
    print("build: gen %.1fs compile %.1fs (%d jobs) link %.1fs" % (t1 - t0, t2 - t1, len(jobs), time.time() - t2))
    return 0


if __name__ == "__main__":
    sys.exit(main())
