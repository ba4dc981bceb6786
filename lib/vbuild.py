"""Instrumented build of /repo's current working tree, outside /repo.

Writes a ninja file over every .cpp of the product modules (globbed, so files
added by a change are picked up), compiles them with AddressSanitizer and
UndefinedBehaviorSanitizer, and links the CLI plus the API harnesses of
/verif/harness.  Objects go to /verif/build/<flavour>; ninja and (when it is
installed) ccache make the rebuild incremental, but nothing depends on either
having been warmed.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VEGA_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

MODULES = ["Abstract", "Nastran", "Optistruct", "ResultReaders", "Aster", "Systus"]

COMPAT = """#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
"""

# System headers only: a change to the product never has to rebuild this.
PCH = COMPAT + """
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <boost/algorithm/string.hpp>
#include <boost/algorithm/string/split.hpp>
#include <boost/assign.hpp>
#include <boost/bimap.hpp>
#include <boost/bimap/list_of.hpp>
#include <boost/filesystem.hpp>
#include <boost/functional/hash.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/io.hpp>
#include <boost/tokenizer.hpp>
#include <boost/unordered_map.hpp>
#include <boost/variant.hpp>
"""

SAN = ("-fsanitize=address,undefined -fno-sanitize=function -fno-omit-frame-pointer "
       "-D_GLIBCXX_ASSERTIONS")
FLAVOURS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("clang++", "-O0 -g1 " + SAN, SAN),
    "plain": ("clang++", "-O0 -g1", ""),
}

LIBS = ("-lmedC /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lboost_thread "
        "-lboost_date_time -lboost_program_options -lboost_filesystem -lboost_system "
        "-lboost_regex -lboost_chrono -lboost_atomic -lpthread")


def version_numbers():
    text = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    out = {}
    for part in ("MAJOR", "MINOR", "PATCH", "EXTRA"):
        m = re.search(r'VEGA_%s_VERSION\s+"?([^")\s]*)"?\s*\)' % part, text)
        out[part] = m.group(1) if m else ""
    return out


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def properties_header():
    v = version_numbers()
    return """#ifndef BUILD_PROPERTIES_H_
#define BUILD_PROPERTIES_H_
#define VEGA_VERSION_MAJOR %s
#define VEGA_VERSION_MINOR %s
#define VEGA_VERSION_PATCH %s
#define VEGA_VERSION_EXTRA "%s"
#define PROJECT_BASE_DIR "%s"
#define PROJECT_BINARY_DIR "/nonexistent"
#define Backtrace_FOUND 0
#define LIBUNWIND_FOUND 0
#define VALGRIND_FOUND 0
#define TESTS_NIGHTLY_BUILD ""
#define BUILD_TYPE "Debug"
#define DOXYGEN_DOT_EXECUTABLE ""
#define RUN_ASTER 0
#define ENABLE_ASTER 1
#define RUN_SYSTUS 0
#define RUN_NASTRAN 0
#endif
""" % (v["MAJOR"] or "0", v["MINOR"] or "0", v["PATCH"] or "0", v["EXTRA"], REPO)


def _names():
    """product sources -> object names"""
    srcs = []
    for m in MODULES:
        srcs += sorted(glob.glob(os.path.join(REPO, m, "*.cpp")))
    cl = sorted(glob.glob(os.path.join(REPO, "Commandline", "*.cpp")))
    return srcs, cl


def generate(flavour, bdir):
    cxx, cflags, lflags = FLAVOURS[flavour]
    ccache = shutil.which("ccache")
    srcs, cl = _names()
    inc = os.path.join(bdir, "include")
    os.makedirs(inc, exist_ok=True)
    pch = os.path.join(inc, "vp_pch.h")
    write_if_changed(pch, PCH)
    write_if_changed(os.path.join(inc, "build_properties.h"), properties_header())
    n = []
    n.append("ninja_required_version = 1.5")
    n.append("builddir = %s" % bdir)
    base = "-I%s -I%s -I/usr/include/hdf5/serial -std=gnu++14 -w -fPIC %s" % (inc, REPO, cflags)
    n.append("cflags = " + base)
    n.append("rule pch\n  command = %s $cflags -x c++-header -Xclang -fno-pch-timestamp "
             "-fpch-instantiate-templates $in -o $out\n  description = PCH" % cxx)
    n.append("rule cxx\n  command = %s%s $cflags -include-pch %s.pch -MD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc\n  description = CXX $out"
             % ((ccache + " ") if ccache else "", cxx, pch))
    n.append("build %s.pch: pch %s" % (pch, pch))
    n.append("rule link\n  command = %s %s -fuse-ld=lld -o $out $in %s\n  description = LINK $out"
             % (cxx, lflags, LIBS))
    n.append("rule ar\n  command = rm -f $out && ar rcsT $out $in\n  description = AR $out")

    def obj(path, prefix):
        rel = os.path.relpath(path, REPO if path.startswith(REPO + "/") else VERIF)
        return os.path.join(bdir, "obj", prefix, rel + ".o")

    lib_objs = []
    for s in srcs:
        o = obj(s, "r")
        n.append("build %s: cxx %s | %s.pch" % (o, s, pch))
        lib_objs.append(o)
    cl_objs = []
    mains = []
    for s in cl:
        o = obj(s, "r")
        n.append("build %s: cxx %s | %s.pch" % (o, s, pch))
        text = open(s, errors="replace").read()
        (mains if re.search(r"\bint\s+main\s*\(", text) else cl_objs).append(o)
    n.append("build %s/vegapp: link %s %s %s" % (bdir, " ".join(mains), " ".join(cl_objs), " ".join(lib_objs)))
    outs = ["%s/vegapp" % bdir]
    for h in sorted(glob.glob(os.path.join(VERIF, "harness", "api_*.cpp"))):
        o = obj(h, "h")
        name = os.path.splitext(os.path.basename(h))[0]
        n.append("build %s: cxx %s | %s.pch" % (o, h, pch))
        n.append("build %s/%s: link %s %s %s" % (bdir, name, o, " ".join(cl_objs), " ".join(lib_objs)))
        outs.append("%s/%s" % (bdir, name))
    for t in outs:
        n.append("build %s: phony %s" % (os.path.basename(t), t))
    n.append("default " + outs[0])
    write_if_changed(os.path.join(bdir, "build.ninja"), "\n".join(n) + "\n")


def tool(name):
    """small tools of /verif that do not depend on /repo (MED dumper)"""
    src = os.path.join(VERIF, "harness", name + ".c")
    out = os.path.join(BUILD, "tools", name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(os.path.join(BUILD, ".tools.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.check_call(["gcc", "-O1", "-w", "-I/usr/include/hdf5/serial", src, "-o", out + ".tmp",
                                   "-lmedC", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so"])
            os.rename(out + ".tmp", out)
    return out


def drop_stale(bdir):
    """ninja compares times: a file that was replaced by an older one must not leave its objects in place"""
    have = {}
    for m in MODULES + ["Commandline"]:
        for p in glob.glob(os.path.join(REPO, m, "*")):
            if os.path.isfile(p):
                have[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.path.getmtime(p)]
    stamp = os.path.join(bdir, "sources.json")
    try:
        with open(stamp) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = None
    if old is None or any(p in old and h != old[p][0] and t <= old[p][2] for p, (h, t) in have.items()):
        shutil.rmtree(os.path.join(bdir, "obj"), ignore_errors=True)
    return stamp, have


class BuildError(Exception):
    pass


def build(targets=("vegapp",), flavour="asan", quiet=True):
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    env = dict(os.environ)
    env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
    env["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"
    env["CCACHE_MAXSIZE"] = "1G"
    with open(os.path.join(BUILD, "." + flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate(flavour, bdir)
        t0 = time.time()
        stamp, have = drop_stale(bdir)
        r = subprocess.run(["ninja", "-C", bdir] + list(targets), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
        with open(stamp + ".tmp", "w") as f:
            json.dump({p: [h, t, time.time()] for p, (h, t) in have.items()}, f)
        os.rename(stamp + ".tmp", stamp)
        if not quiet:
            print("build %s %s: %.1fs" % (flavour, ",".join(targets), time.time() - t0))
    return bdir


if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "asan"
    print(build(tuple(sys.argv[2:]) or ("vegapp",), fl, quiet=False))
