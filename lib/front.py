"""Front end: builds tool/mdump if needed, lowers every translation unit of
/repo's current working tree, and loads the result.

Nothing is taken from a previous build of /repo: the sources are read on every
run.  A cache of the lowered form is keyed by a digest of every source file,
every header and the tool itself."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLSRC = os.path.join(VERIF, "tool", "mdump.cpp")
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis lost its subject: neither 'holds' nor 'violated'."""


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update((os.path.relpath(p, REPO) if p.startswith(REPO + "/")
                  else os.path.relpath(p, VERIF)).encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(
        glob.glob(REPO + "/macposts/_ext/*.cpp"))
    return s


def headers():
    r = []
    for d in ("src", "macposts"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith((".h", ".hpp", ".hh", ".ipp", ".inc")):
                    r.append(os.path.join(root, f))
    return sorted(r)


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    h = digest([TOOLSRC])
    exe = os.path.join(CACHE, "mdump-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-I" + LLVM + "/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE",
           TOOLSRC, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1",
           LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build mdump: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def py_include():
    py = "/opt/macposts-venv/bin/python"
    try:
        out = subprocess.run(
            [py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
            capture_output=True, text=True).stdout.strip()
        if out:
            return out
    except OSError:
        pass
    return "/usr/include/python3.12"


def flags():
    return ["-std=c++11", "-DNDEBUG", "-w", "-fsyntax-only", "-resource-dir",
            LLVM + "/lib/clang/18", "-I" + REPO + "/src", "-isystem",
            "/usr/include/eigen3", "-isystem", py_include()]


def lower(extra_sources=None):
    """Returns list of (source, json path)."""
    srcs = sources() if extra_sources is None else extra_sources
    if not srcs:
        raise AnalysisBroken("no C++ sources found under %s" % REPO)
    exe = build_tool()
    tudir = os.path.join(CACHE, "tu")
    os.makedirs(tudir, exist_ok=True)
    hh = digest(headers() + [TOOLSRC])
    fl = flags()
    out, todo = [], []
    for s in srcs:
        with open(s, "rb") as f:
            k = hashlib.sha256((hh + os.path.relpath(s, REPO)).encode() + f.read()).hexdigest()[:24]
        o = os.path.join(tudir, k + ".json")
        out.append((s, o))
        if "--thorough" in sys.argv or not os.path.exists(o):
            todo.append((s, o))
        else:
            os.utime(o)

    def one(so):
        s, o = so
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run([exe, REPO, tmp, "--"] + fl + [s],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            if os.path.exists(tmp):
                os.unlink(tmp)
            return s, r.stderr[-1500:]
        os.rename(tmp, o)
        return s, None
    todo.sort(key=lambda so: -os.path.getsize(so[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bad = [(s, e) for s, e in ex.map(one, todo) if e is not None]
    if bad:
        raise AnalysisBroken("does not compile: %s: %s" % bad[0])
    if todo:
        def mtime(x):
            try:
                return os.path.getmtime(x)
            except OSError:
                return 0
        old = sorted((mtime(x), x) for x in glob.glob(tudir + "/*.json"))
        for _, x in old[:-400]:
            try:
                os.unlink(x)
            except OSError:
                pass
    return out
