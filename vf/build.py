"""Extract the program to verify: clang bitcode of /repo's current sources plus
the contract file.  What this drops is listed in DESIGN.md (nothing but the
optimiser's freedom: -O0 code generation, then sroa/early-cse/simplifycfg)."""
import os
import subprocess
import hashlib
import tempfile
import concurrent.futures

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def flags():
    try:
        cl = subprocess.run(["getconf", "LEVEL1_DCACHE_LINESIZE"], capture_output=True, text=True).stdout.strip()
    except OSError:
        cl = ""
    if not cl or cl == "0":
        cl = "64"
    f = ["-std=gnu++17", "-I" + REPO, f"-DCACHELINE_SIZE={cl}", '-DDEFAULT_CONFIG="/usr/local/etc/yrmcds.conf"', "-w"]
    if os.path.exists("/usr/include/gperftools/tcmalloc.h"):
        f.append("-DUSE_TCMALLOC")
    return f


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + p.stderr[-4000:])


def build_module(contract, sources, outdir, defs=(), native=False):
    """compile contract + sources, link, light cleanup; returns path of bitcode"""
    os.makedirs(outdir, exist_ok=True)
    base = ["clang++"] + flags() + ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-inline",
                                    "-fno-vectorize", "-emit-llvm", "-c"] + list(defs)
    if native:
        base = ["clang++"] + flags() + ["-O0", "-g", "-fsanitize=address", "-Xclang", "-disable-llvm-passes", "-DVF_NATIVE", "-emit-llvm", "-c"] + list(defs)
    jobs = []
    for s in [contract] + list(sources):
        src = s if os.path.isabs(s) else os.path.join(REPO, s)
        o = os.path.join(outdir, src.strip("/").replace("/", "_") + ".bc")
        cmd = base + [src, "-o", o]
        if src == contract:
            cmd += ["-I" + os.path.join(VERIF, "vf"), "-I" + os.path.join(VERIF, "contracts"), "-fno-access-control"]
        jobs.append((cmd, o))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(j[0]), jobs))
    out = os.path.join(outdir, "linked.bc")
    run(["llvm-link"] + [o for _, o in jobs] + ["-o", out])
    if native:
        return out
    opt = os.path.join(outdir, "module.bc")
    run(["opt", "-passes=sroa,early-cse,simplifycfg", out, "-o", opt])
    return opt
