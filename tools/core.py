#!/usr/bin/env python3
"""Builds facebook/wdt's sources (from /repo's current working tree) together
with harness sources from /verif/harness, against the folly stand-in in
/verif/shim.  Everything goes to /verif/build (ignored by git)."""
import fcntl, threading
import os, re, subprocess, sys, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WDT_REPO", "/repo")
BUILD = os.environ.get("WDT_BUILD", os.path.join(VERIF, "build"))

SAN = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined",
             "-fno-sanitize=enum,vptr,function,alignment",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}


def core_sources():
    out = []
    for p in sorted(glob.glob(REPO + "/*.cpp") + glob.glob(REPO + "/util/*.cpp")):
        if os.path.basename(p) != "wdtCmdLine.cpp":
            out.append(p)
    return out


def gen_includes(d):
    """wdt/ -> /repo, and WdtConfig.h the way the project's cmake makes it."""
    with open(d + "/.includes.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen_includes_locked(d)


def gen_includes_locked(d):
    inc, gen = d + "/inc", d + "/gen/wdt"
    os.makedirs(inc, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    link = inc + "/wdt"
    if not os.path.islink(link) or os.readlink(link) != REPO:
        if os.path.islink(link):
            os.unlink(link)
        os.symlink(REPO, link)
    cm = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    a, b, c = m.groups() if m else ("1", "32", "0")
    t = open(REPO + "/WdtConfig.h.in").read()
    for k, v in (("WDT_VERSION_MAJOR", a), ("WDT_VERSION_MINOR", b),
                 ("WDT_VERSION_PATCH", c), ("WDT_VERSION", "%s.%s.%s" % (a, b, c))):
        t = t.replace("@%s@" % k, v)
    t = re.sub(r"#cmakedefine (\w+)(.*)", r"#define \1\2", t)
    p = gen + "/WdtConfig.h"
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)


def build(cfg, binary, harness, repo_srcs=None, extra_flags=(), libs=None,
          opt="-O1", cli=False, quiet=True):
    """Returns the path of the built binary.  Raises on failure."""
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    gen_includes(d)
    if repo_srcs is None:
        repo_srcs = core_sources()
    repo_srcs = [s if s.startswith("/") else os.path.join(REPO, s) for s in repo_srcs]
    cxx = os.environ.get("WDT_CXX", "clang++")
    flags = ["-std=gnu++17", opt, "-gline-tables-only", "-pthread", "-msse4.2",
             "-mpclmul", "-w", "-DGFLAGS_NAMESPACE=gflags",
             "-DWDT_VERIF=1",
             "-I" + d + "/gen", "-I" + d + "/inc", "-I" + VERIF + "/shim",
             "-I" + VERIF + "/harness"] + SAN[cfg.split("-")[0]] + list(extra_flags)
    if libs is None:
        libs = ["-lglog", "-lgflags", "-lcrypto", "-lboost_system", "-lboost_filesystem"]
    nin = ["ninja_required_version = 1.5", "cxx = " + cxx, "flags = " + " ".join(flags),
           "rule cc", "  command = $cxx $flags $pch $xf -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc",
           "rule pch", "  command = $cxx $flags -x c++-header -MMD -MF $out.d $in -o $out",
           "  depfile = $out.d", "  deps = gcc",
           "rule ld", "  command = $cxx $flags -fuse-ld=lld $in -o $out " + " ".join(libs)]
    objs = []
    fh = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8]
    pch = "%s/o-%s/prelude.pch" % (d, fh)
    nin.append("pch = -include-pch " + pch)
    nin.append("build %s: pch %s" % (pch, VERIF + "/shim/prelude.h"))
    srcs = [(s, "") for s in repo_srcs]
    srcs += [(os.path.join(VERIF, "harness", h), "") for h in harness]
    if cli:
        srcs = [(s, "-DSTANDALONE_APP" if s.endswith("/util/WdtFlags.cpp") else x)
                for s, x in srcs] + [(REPO + "/wdtCmdLine.cpp", "-DSTANDALONE_APP")]
    for s, xf in srcs:
        o = "%s/o-%s/%s%s.o" % (d, fh, s.strip("/").replace("/", "_"), "_x" if xf else "")
        nin.append("build %s: cc %s | %s" % (o, s, pch))
        if xf:
            nin.append("  xf = " + xf)
        objs.append(o)
    out = os.path.join(d, binary)
    nin.append("build %s: ld %s" % (out, " ".join(objs)))
    nin.append("default " + out)
    nf = "%s/%s.ninja" % (d, binary)
    open(nf, "w").write("\n".join(nin) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-C", d], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise RuntimeError("build of %s failed" % binary)
    return out


def build_faultio():
    """The LD_PRELOAD monitor / fault injector (harness/faultio.c)."""
    os.makedirs(BUILD, exist_ok=True)
    out, src = os.path.join(BUILD, "faultio.so"), os.path.join(VERIF, "harness", "faultio.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        subprocess.check_call(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"])
        os.rename(tmp, out)
    return out


BENCH_LIBS = ["-lglog", "-lgflags"]


def build_bench(cfg, which):
    """The bench tools as they are: which = stats | files."""
    src = {"stats": "bench/wdtStats.cpp", "files": "bench/wdtGenFiles.cpp"}[which]
    return build(cfg, "wdt_gen_" + which, [], ["bench/Bigram.cpp", src], libs=BENCH_LIBS)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], sys.argv[3:], cli=(sys.argv[2] == "wdt"),
          opt=os.environ.get("OPT", "-O1")), "%.1fs" % (time.time() - t))
