"""Builds harnesses together with the repository's own sources.

Everything is compiled from REPO's working tree.  Objects are cached by content
(ccache when installed) below build/, which git ignores.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, min(8, os.cpu_count() or 4))

COMMON = [
    "-std=gnu++14", "-w", "-g1", "-DNDEBUG", "-fPIC", "-fno-omit-frame-pointer",
    "-DEIGEN_HAS_CXX17_OVERALIGN=0", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1", "-DENABLE_PROFILING",
    '-D_PROF_LOG_DIR_=".static_mapping_log"', "-DVERIF_MONITOR",
    "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "stubs"),
    "-I", REPO + "/third_parties", "-I", REPO, "-I", REPO + "/builder",
    "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/pcl-1.14",
]

MODES = {
    # shipping configuration (optimised, libgomp)
    "plain": (["-O2", "-fopenmp"], ["-fopenmp"]),
    "asan": (["-O1", "-fopenmp", "-fsanitize=address,undefined",
              "-fno-sanitize=vptr,alignment,null,shift-base,return,nonnull-attribute,returns-nonnull-attribute",
              "-fsanitize-recover=undefined"],
             ["-fopenmp", "-fsanitize=address,undefined"]),
    # OpenMP regions run on the instrumented runtime in harness/gomp_shim.cc
    "tsan": (["-O1", "-fopenmp", "-fsanitize=thread", "-I", os.path.join(VERIF, "stubs_tsan")], ["-fsanitize=thread"]),
    # uninstrumented, but with the instrumented OpenMP runtime: thread counts
    # and schedules can be chosen by the harness
    "shim": (["-O2", "-fopenmp"], []),
}

LIBS = ("-Wl,--as-needed -lpcl_filters -lpcl_registration -lpcl_segmentation -lpcl_features "
        "-lpcl_kdtree -lpcl_search -lpcl_octree -lpcl_sample_consensus -lpcl_io -lpcl_common "
        "-lgtsam -lGeographicLib -lglog -lgflags -ltbb -lboost_timer -lboost_thread "
        "-lboost_filesystem -lboost_system -lboost_serialization -lflann_cpp -llz4 -lpng -lX11 "
        "-lpthread -ldl -lm").split()


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_NOHASHDIR"] = "1"
    env["CCACHE_SLOPPINESS"] = "time_macros,include_file_mtime,include_file_ctime"
    env["CCACHE_MAXSIZE"] = "4G"
    env["CCACHE_COMPILERCHECK"] = "content"
    env["TMPDIR"] = os.path.join(BUILD, "tmp")
    return env


_ccache = shutil.which("ccache")


def _compile(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ([_ccache] if _ccache else []) + ["g++"] + COMMON + flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), text=True)
    return r.returncode, r.stdout


def fallback_sources():
    """Everything in the tree that can be compiled here."""
    out = []
    for d in ("common", "common/performance", "builder", "builder/data", "back_end", "descriptor",
              "pre_processors", "registrators", "third_parties/pugixml"):
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    out = [s for s in out if not s.endswith("registrators/icp_pointmatcher.cc")]
    return [os.path.relpath(s, REPO) for s in out]


def build(name, mode, harness, sources, extra=(), flags=(), note=lambda s: None):
    """Returns the path of the linked program."""
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    cflags, lflags = MODES[mode]
    cflags = list(cflags) + list(flags)
    work = os.path.join(BUILD, "work", name + "-" + mode)
    os.makedirs(work, exist_ok=True)
    lock = open(os.path.join(work, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(work, cflags, lflags, mode, name, harness, sources, extra, note)
    finally:
        lock.close()


def warm(runs):
    """Compiles the sources of many runs into the cache, each only once."""
    if not _ccache:
        return
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    jobs = {}
    for mode, harness, sources, extra, flags in runs:
        cflags = list(MODES[mode][0]) + list(flags)
        for s in _units(mode, harness, extra) + [os.path.join(REPO, s) for s in sources]:
            if os.path.exists(s):
                jobs[(s, tuple(cflags))] = os.path.getsize(s) + (200000 if s.startswith(VERIF) else 0)
    todo = sorted(jobs, key=lambda k: -jobs[k])
    scratch = os.path.join(BUILD, "work", "warm")

    def one(k):
        src, flags = k
        h = hashlib.sha1(repr(k).encode()).hexdigest()[:16]
        obj = os.path.join(scratch, h + ".o")
        _compile(src, obj, list(flags))
        if os.path.exists(obj):
            os.remove(obj)

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, todo))


def _units(mode, harness, extra):
    units = [os.path.join(VERIF, "harness", h) for h in [harness, "contain.cc"] + list(extra)]
    if mode in ("tsan", "shim"):
        units.append(os.path.join(VERIF, "harness", "gomp_shim.cc"))
    if mode in ("tsan", "asan"):
        units.append(os.path.join(VERIF, "harness", "tbb_alloc.cc"))
    return units


def _build(work, cflags, lflags, mode, name, harness, sources, extra, note):
    prog = os.path.join(work, "prog")
    units = _units(mode, harness, extra)
    repo_units = [os.path.join(REPO, s) for s in sources]
    missing = [s for s in repo_units if not os.path.exists(s)]

    def objname(src):
        h = hashlib.sha1(src.encode()).hexdigest()[:10]
        return os.path.join(work, os.path.basename(src) + "." + h + ".o")

    def compile_all(srcs, tolerate=False):
        errs, ok = [], []
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(_compile, s, objname(s), cflags): s for s in srcs}
            for f in concurrent.futures.as_completed(futs):
                rc, out = f.result()
                if rc == 0:
                    ok.append(futs[f])
                else:
                    errs.append((futs[f], out))
        if errs and not tolerate:
            raise BuildError("compilation of %s failed:\n%s" % (errs[0][0], errs[0][1][-3000:]))
        return [s for s in srcs if s in ok]

    def link(objs):
        cmd = ["g++", "-rdynamic", "-o", prog] + objs + lflags + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), text=True)
        return r.returncode, r.stdout

    def link_archive(base, rest):
        lib = os.path.join(work, "librest.a")
        if os.path.exists(lib):
            os.remove(lib)
        subprocess.run(["ar", "rcs", lib] + [objname(s) for s in rest], check=True)
        return link([objname(s) for s in base] + ["-Wl,--start-group", lib, "-Wl,--end-group"])

    if not missing:
        compile_all(units + repo_units)
        rc, out = link([objname(s) for s in units + repo_units])
        if rc == 0:
            return prog
        note("direct link failed, trying every source of the tree (%s)" % " ".join(re.findall(r"undefined reference to .([^\n]*)'", out)[:3]))
    compile_all(units)
    rest = compile_all([os.path.join(REPO, s) for s in fallback_sources()], tolerate=True)
    rc, out = link_archive(units, rest)
    if rc != 0:
        raise BuildError("linking %s failed:\n%s" % (name, out[-3000:]))
    return prog
