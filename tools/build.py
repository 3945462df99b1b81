#!/usr/bin/env python3
"""Builds the simulator with /repo's current sources (instrumented) into /verif/build.
Prints the path of the binary.  Objects are cached by content."""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
SIM = os.path.join(V, "sim")

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def main():
    os.makedirs(OUT + "/obj", exist_ok=True)
    b = REPO + "/buildcc"
    inc = ["", "/schema/include", "/lib/env/include", "/lib/toolchain/include", "/toolchains/include",
           "/lib/target/include", "/targets/include", "/lib/args/include", "/plugins/include"]
    base = ["-std=gnu++17", "-g1", "-pthread"]
    rflags = ["-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB",
              "-I" + SIM + "/inc", "-I" + SIM] + ["-I" + b + i for i in inc]
    inst = ["-O1", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-w"]
    srcs = sorted(glob.glob(b + "/**/src/**/*.cpp", recursive=True))
    srcs = [s for s in srcs if "/test/" not in s and "/mock/" not in s]
    hdrs = sorted(glob.glob(b + "/**/*.h", recursive=True) + glob.glob(b + "/**/*.hpp", recursive=True))
    hdrs = [h for h in hdrs if "/test/" not in h]
    shd = sorted(glob.glob(SIM + "/*.h") + glob.glob(SIM + "/inc/*"))
    hh = hashlib.sha256()
    for h in hdrs + sorted(glob.glob(SIM + "/inc/*")):
        hh.update(h.encode()); hh.update(rd(h))
    rkey = hh.digest()          # what the repository's sources include
    for h in shd:
        hh.update(h.encode()); hh.update(rd(h))
    hkey = hh.digest()
    sh = hashlib.sha256()
    for h in shd:
        sh.update(rd(h))
    skey = sh.digest()

    jobs = []   # (src, cmd flags, key, order)
    pch = OUT + "/pch/pch.h"
    os.makedirs(OUT + "/pch", exist_ok=True)
    pch_text = "".join("#include <%s>\n" % h for h in [
        "algorithm", "atomic", "filesystem", "fstream", "functional", "map", "memory", "mutex", "queue", "set", "sstream",
        "string", "thread", "unordered_map", "unordered_set", "vector", "fmt/format.h", "spdlog/spdlog.h",
        "nlohmann/json.hpp", "taskflow/taskflow.hpp", "taskflow/algorithm/for_each.hpp"])
    pflags = base + rflags[:4] + inst
    pk = hashlib.sha256((pch_text + " ".join(pflags)).encode()).hexdigest()[:24]
    stamp = OUT + "/pch/stamp"
    if not (os.path.exists(pch + ".gch") and os.path.exists(stamp) and rd(stamp).decode() == pk):
        open(pch, "w").write(pch_text)
        r = subprocess.run(["g++"] + pflags + ["-x", "c++-header", pch, "-o", pch + ".gch"])
        if r.returncode:
            sys.exit(3)
        open(stamp, "w").write(pk)

    def add(src, flags, key, use_pch):
        k = hashlib.sha256(key + src.encode() + rd(src) + " ".join(flags).encode() + (pk.encode() if use_pch else b"")).hexdigest()[:32]
        o = "%s/obj/%s.o" % (OUT, k)
        cmd = ["g++"] + flags + (["-include", pch] if use_pch else []) + ["-c", src, "-o", o + ".tmp"]
        jobs.append((o, cmd, src))

    for s in srcs:
        add(s, base + rflags + inst, rkey, True)
    bdirs = [REPO + "/buildexe", REPO + "/bootstrap"]
    bh = hashlib.sha256(rkey)
    for h in sorted(glob.glob(bdirs[0] + "/include/**/*.h", recursive=True) + glob.glob(bdirs[1] + "/include/**/*.h", recursive=True)):
        bh.update(h.encode()); bh.update(rd(h))
    bsrc = sorted(glob.glob(bdirs[0] + "/*.cpp") + glob.glob(bdirs[0] + "/src/**/*.cpp", recursive=True) + glob.glob(bdirs[1] + "/src/**/*.cpp", recursive=True))
    for s in bsrc:
        add(s, base + rflags + ["-Dmain=buildexe_main"] + ["-I" + d + "/include" for d in bdirs] + inst, bh.digest(), True)
    for s in ["script.cpp", "scen.cpp"]:
        add(SIM + "/" + s, base + rflags + inst, hkey, True)
    for s in ["tsan_rt.cpp", "rt.cpp", "fs.cpp", "proc.cpp", "tools.cpp", "spec.cpp", "ops.cpp", "argcase.cpp", "bx.cpp", "exec.cpp", "generate.cpp", "engine.cpp"]:
        fl = base + ["-O2", "-Wall", "-I" + SIM, "-I" + SIM + "/inc"]
        add(SIM + "/" + s, fl, skey, False)
    todo = [j for j in jobs if not os.path.exists(j[0])]
    # biggest first
    todo.sort(key=lambda j: 0 if j[2].startswith(SIM) else 1)
    bad = []
    def run(j):
        r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad.append((j[2], r.stdout))
        else:
            os.rename(j[0] + ".tmp", j[0])
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(run, todo))
    if bad:
        for s, o in bad[:4]:
            sys.stderr.write("compile failed: %s\n%s\n" % (s, o[-3000:]))
        sys.exit(3)
    lk = hashlib.sha256(" ".join(j[0] for j in jobs).encode()).hexdigest()[:16]
    exe = OUT + "/simcheck-" + lk
    if not os.path.exists(exe):
        for old in glob.glob(OUT + "/simcheck-*"):
            os.unlink(old)
        r = subprocess.run(["g++", "-o", exe + ".tmp"] + [j[0] for j in jobs] + ["-rdynamic", "-lspdlog", "-lfmt", "-ldl", "-pthread"])
        if r.returncode:
            sys.exit(3)
        os.rename(exe + ".tmp", exe)
        keep = {j[0] for j in jobs}
        for o in glob.glob(OUT + "/obj/*"):
            if o not in keep:
                os.unlink(o)
    print(exe)

main()
