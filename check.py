#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [driver options]
Builds the library variants and the property's harness from /repo's working tree and runs it."""
import hashlib, os, subprocess, sys, shutil, time, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(ROOT, "src")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402

LIBSRC = ["mdbx.c", "mdbx.h", "mdbx-internals.h", "mdbx.c++", "mdbx.h++", "mdbx_chk.c", "mdbx_copy.c", "mdbx_dump.c",
          "mdbx_load.c", "mdbx_stat.c", "mdbx_drop.c", "mdbx_defrag.c", "mdbx-wingetopt.h"]
BASE = ["-DMDBX_BUILD_FLAGS=\"vf\"", "-DMDBX_BUILD_SHARED_LIBRARY=0", "-w", "-g1", "-I", REPO]
VARIANT = {
    "opt": ["-O1", "-DNDEBUG=1", "-DMDBX_CHECKING=0"],
    "opt2": ["-O2", "-DNDEBUG=1", "-DMDBX_CHECKING=0"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DMDBX_CHECKING=1"],
    "asan0": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "chk2": ["-O1", "-DMDBX_CHECKING=2"],
    "sched": ["-O1", "-DNDEBUG=1", "-DMDBX_CHECKING=0", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"],
    "schedasan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DMDBX_CHECKING=1", "-fsanitize-coverage=trace-pc"],
}


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.exists(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:20]


def run(cmd, log):
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("BUILD FAILED: " + " ".join(cmd) + "\n" + r.stdout[-6000:], flush=True)
        sys.exit(2)
    return time.time() - t


def build(prop):
    ck = CHECKS[prop]
    bdir = os.path.join(os.environ.get("VF_BUILD", os.path.join(ROOT, ".build")))
    os.makedirs(bdir, exist_ok=True)
    libhash = sha([os.path.join(REPO, f) for f in LIBSRC])
    harhash = sha([os.path.join(SRC, f) for f in sorted(os.listdir(SRC))] + [os.path.join(ROOT, "check.py")])
    jobs, bins = [], []
    ex = cf.ThreadPoolExecutor(8)

    def compile_obj(src, out, flags):
        if os.path.exists(out):
            return
        tmp = out + ".tmp%d" % os.getpid()
        cxx = src.endswith((".cc", ".c++"))
        run((["g++", "-std=gnu++20"] if cxx else ["gcc", "-std=gnu11"]) + (["-x", "c++"] if src.endswith(".c++") else [])
            + ["-c", src, "-o", tmp] + flags, None)
        os.replace(tmp, out)

    futs = []
    variants = [ck.get("variant0", "opt")] + ([ck["variant1"]] if ck.get("variant1") else [])
    links = []
    for v in variants:
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if "asan" in v else []
        objs = []
        lib = os.path.join(bdir, "mdbx-%s-%s.o" % (v, libhash))
        futs.append(ex.submit(compile_obj, os.path.join(REPO, "mdbx.c"), lib, BASE + VARIANT[v]))
        objs.append(lib)
        if ck.get("cxx"):
            lx = os.path.join(bdir, "mdbxxx-%s-%s.o" % (v, libhash))
            futs.append(ex.submit(compile_obj, os.path.join(REPO, "mdbx.c++"), lx, BASE + VARIANT[v]))
            objs.append(lx)
        for s in ["vf_main.cc", "kit.cc"] + ck.get("extra", []) + [ck.get("src", prop + ".cc")]:
            o = os.path.join(bdir, "%s-%s-%s-%s.o" % (s.replace(".", "_"), v, harhash, libhash))
            fl = ["-O1", "-g1", "-w", "-I", REPO, "-I", SRC] + san
            fl += ck.get("cflags", [])
            if ck.get("src") and s == ck["src"]:
                o = os.path.join(bdir, "%s-%s-%s-%s-%s.o" % (prop, s.replace(".", "_"), v, harhash, libhash))
            futs.append(ex.submit(compile_obj, os.path.join(SRC, s), o, fl))
            objs.append(o)
        exe = os.path.join(bdir, "%s-%s-%s-%s" % (prop, v, harhash[:8], libhash[:8]))
        wraps = ["-Wl,--wrap=" + w for w in ck.get("wrap", [])]
        links.append((exe, ["g++", "-o", exe + ".tmp"] + objs + san + wraps + ["-lpthread", "-ldl", "-lm"]))
        bins.append(exe)
    for t, src in (("chk", 0), ("copy", 0), ("dump", 0), ("load", 0), ("stat", 0), ("drop", 0), ("defrag", 0)):
        if t in ck.get("tools", []):
            v = ck.get("tool_variant", "opt")
            out = os.path.join(bdir, "tool-%s-%s-%s" % (t, v, libhash[:12]))
            lib = os.path.join(bdir, "mdbx-%s-%s.o" % (v, libhash))
            to = os.path.join(bdir, "tool-%s-%s-%s.o" % (t, v, libhash))
            futs.append(ex.submit(compile_obj, os.path.join(REPO, "mdbx_%s.c" % t), to, BASE + VARIANT[v]))
            if v not in variants:
                futs.append(ex.submit(compile_obj, os.path.join(REPO, "mdbx.c"), lib, BASE + VARIANT[v]))
                variants.append(v)
            san = ["-fsanitize=address"] if "asan" in v else []
            links.append((out, ["gcc", "-o", out + ".tmp", to, lib] + san + ["-lpthread", "-ldl", "-lm"]))
            os.environ["VF_TOOL_" + t.upper()] = out
    for f in futs:
        f.result()
    for exe, cmd in links:
        if not os.path.exists(exe):
            run(cmd, None)
            os.replace(exe + ".tmp", exe)
    return bins


def main():
    prop = sys.argv[1]
    t0 = time.time()
    bins = build(prop)
    t1 = time.time()
    print("%s: built in %.1f s" % (prop, t1 - t0), flush=True)
    args = [bins[0]]
    if len(bins) > 1:
        args += ["--bin1", bins[1]]
    args += sys.argv[2:]
    env = dict(os.environ, VF_ROOT=ROOT)
    env.setdefault("VERIF_SEED", "1")
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:handle_segv=1:allocator_may_return_null=1:quarantine_size_mb=16:detect_stack_use_after_return=0:decorate_proc_maps=0"
    r = subprocess.run(args, env=env)
    sys.exit(r.returncode if r.returncode in (0, 1) else 2)


if __name__ == "__main__":
    main()
