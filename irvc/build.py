"""Compile the real sources + a contract file to one optimised LLVM IR module."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(os.environ.get("TMPDIR", "/tmp"), "irvc-cache"))
CLANG = "/usr/bin/clang++-18"
INC = ["-I" + os.path.join(REPO, "include", "mqt-core"), "-I" + os.path.join(VERIF, "shim"),
       "-I" + os.path.join(VERIF, "contracts")]
DEFS = ["-DNDEBUG"]
IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS",
           "-fno-access-control", "-fno-strict-aliasing", "-w", "-fno-vectorize", "-ffp-contract=off"]
PASSES = "function(sroa,early-cse,simplifycfg)"


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "shim"),
                 os.path.join(VERIF, "contracts")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            if "python" in d:
                continue
            for f in sorted(fs):
                p = os.path.join(d, f)
                if root.endswith("contracts") and not f.endswith(".h") and not f.endswith(".hpp"):
                    continue
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


_th = [None]


def th():
    if _th[0] is None:
        _th[0] = tree_hash()
    return _th[0]


def run(cmd, timeout=600, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:3]) + " ... failed:\n" + p.stderr[-4000:])
    return p.stdout


def compile_ll(src, defs=(), extra=()):
    os.makedirs(CACHE, exist_ok=True)
    with open(src, "rb") as fh:
        k = hashlib.sha256(fh.read() + th().encode() + repr((src, defs, extra, IRFLAGS, PASSES)).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "%s-%s.ll" % (os.path.basename(src).replace(".cpp", ""), k))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    run([CLANG] + IRFLAGS + DEFS + INC + list(defs) + list(extra) + ["-S", "-emit-llvm", src, "-o", tmp])
    run(["opt-18", "-S", "-passes=" + PASSES, tmp, "-o", tmp + ".o"])
    os.replace(tmp + ".o", out)
    os.unlink(tmp)
    return out


def build_module(harness, sources, defs=(), extra=()):
    """returns path of the linked .ll"""
    srcs = [harness] + [os.path.join(REPO, s) if not s.startswith("/") else s for s in sources]
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda s: compile_ll(s, defs, extra if s == harness else ()), srcs))
    if len(lls) == 1:
        return lls[0]
    k = hashlib.sha256("".join(lls).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "linked-%s-%s.ll" % (os.path.basename(harness).replace(".cpp", ""), k))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    run(["llvm-link-18", "-S"] + lls + ["-o", tmp])
    os.replace(tmp, out)
    return out
