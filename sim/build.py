#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/build. Objects are keyed by the hash of
the preprocessed source and the flags, so any change in what the code says is rebuilt."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl, glob, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MTSIM_REPO", "/repo"); OUT = os.environ.get("MTSIM_BUILD", os.path.join(ROOT, "build"))
CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-I" + REPO + "/include", "-I" + REPO, "-I" + HERE, "-w"]
CBASE = ["-std=c99", "-g1", "-w"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
def sources():
    s = []
    for f in ("core", "driver", "gf2ref"): s.append((HERE + "/%s.cpp" % f, ["-O2"], f))
    for f in ("gens", "env"): s.append((HERE + "/%s.cpp" % f, ["-O2"], f))
    for f in sorted(glob.glob(HERE + "/props_*.cpp")) + sorted(glob.glob(HERE + "/jobs*.cpp")):
        s.append((f, ["-O1"] + COV, os.path.basename(f)[:-4]))
    for f in sorted(glob.glob(REPO + "/lib/*.cpp")): s.append((f, ["-O1"] + COV, "lib_" + os.path.basename(f)[:-4]))
    s.append((REPO + "/samples/XORSHIFT/xorshift128.c", ["-O1"] + COV, "xorshift128"))
    return s
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-6000:]))
    return p.stdout
def compile_one(job):
    src, flags, name = job
    CXX, BASE = (("clang", CBASE) if src.endswith(".c") else (globals()["CXX"], globals()["BASE"]))
    pre = run([CXX] + BASE + flags + ["-E", "-P", src])
    key = hashlib.sha256(pre + repr((BASE, flags, CXX)).encode()).hexdigest()[:32]
    obj = os.path.join(OUT, "obj", "%s-%s.o" % (name, key))
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid(); run([CXX] + BASE + flags + ["-c", src, "-o", tmp]); os.rename(tmp, obj)
    else: os.utime(obj)
    return obj
def programs(pool):
    try: from sample_progs import build_programs
    except ImportError: return []
    return build_programs(pool, run, OUT, REPO, HERE, CXX, BASE)
def main():
    os.makedirs(OUT + "/obj", exist_ok=True)
    with open(OUT + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
            fut = [pool.submit(compile_one, j) for j in sources()]
            progs = programs(pool)
            objs = [f.result() for f in fut] + progs
        key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
        exe = OUT + "/mtsim-" + key
        if not os.path.exists(exe):
            tmp = exe + ".tmp"; run([CXX, "-o", tmp] + objs + ["-fuse-ld=bfd", "-lntl", "-lgmp", "-lgf2x", "-lpthread", "-ldl", "-rdynamic"]); os.rename(tmp, exe)
        else: os.utime(exe)
        for pat, keep in (("/obj/*.o", 120), ("/mtsim-*", 4)):
            fs = sorted(glob.glob(OUT + pat), key=os.path.getmtime, reverse=True)
            for f in fs[keep:]: os.unlink(f)
        print(exe)
if __name__ == "__main__":
    sys.path.insert(0, HERE)
    try: main()
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(4)
