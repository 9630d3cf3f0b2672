#!/usr/bin/env python3
"""Builds the verification harness together with the library from /repo's current working tree.

The sources are mirrored *by content* into WORK/src (a file is only rewritten when its bytes
changed), so that a rebuild depends on what the tree contains and never on time stamps in
/repo, and nothing is ever written below /repo.  A ninja file is generated from the mirror."""
import fcntl, os, subprocess, sys, filecmp, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
SRC = os.path.join(WORK, "src")
OUT = os.path.join(WORK, "obj")

BOOST = "-lboost_date_time -lboost_filesystem -lboost_iostreams -lboost_regex -lboost_thread -lboost_atomic -lboost_system"


def sync(src, dst, want):
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs.sort()
        rel = os.path.relpath(root, src)
        for f in files:
            if not f.endswith(want):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            seen.add(r)
            s, d = os.path.join(src, r), os.path.join(dst, r)
            if os.path.exists(d) and filecmp.cmp(s, d, shallow=False):
                continue
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in seen:
                os.unlink(os.path.join(root, f))


def write_if(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate():
    ext = (".cpp", ".c", ".h", ".in", ".hpp")
    sync(os.path.join(REPO, "src/core"), os.path.join(SRC, "core"), ext)
    sync(os.path.join(REPO, "src/contrib"), os.path.join(SRC, "contrib"), ext)
    sync(os.path.join(REPO, "include"), os.path.join(SRC, "include"), ext)
    sync(os.path.join(VERIF, "harness"), os.path.join(SRC, "harness"), ext)
    cfg = open(os.path.join(SRC, "include/config_h/Config.h.in")).read()
    cfg = cfg.replace("@USE_BOOST_INTEGER@", "undef").replace("@USE_CYCLIC_CHECK@", "undef")
    cfg = cfg.replace("@LPP_SHARED_DLL@", "undef")
    import re
    cfg = re.sub(r"@\w+@", "undef", cfg)
    write_if(os.path.join(SRC, "gen/Config.h"), cfg)
    write_if(os.path.join(SRC, "gen/vpch.h"),
             '#pragma once\n#include "Lucene.h"\n#include <boost/thread/mutex.hpp>\n#include <boost/thread/recursive_mutex.hpp>\n'
             '#include <boost/thread/condition.hpp>\n#include <boost/variant.hpp>\n#include <boost/any.hpp>\n#include <boost/function.hpp>\n'
             '#include <boost/date_time/posix_time/posix_time.hpp>\n#include "LuceneObject.h"\n#include "LuceneThread.h"\n#include "LuceneException.h"\n')
    flags = "-O1 -g1 -w -DNDEBUG -std=gnu++17 -fPIC -pthread -DLPP_BUILDING_LIB -DLPP_EXPOSE_INTERNAL -DLPP_VERIF_HOOKS"
    inc = " ".join("-I" + esc(os.path.join(SRC, d)) for d in
                   ("gen", "include/lucene++", "core/include", "contrib/include", "contrib/snowball/libstemmer_c/include"))
    L = ["ninja_required_version = 1.5", "builddir = " + esc(OUT),
         "flags = " + flags, "inc = " + inc,
         "rule pch", "  command = g++ $flags $inc -x c++-header -MMD -MF $out.d -o $out $in", "  depfile = $out.d", "  deps = gcc",
         "rule cxx", "  description = CXX $out", "  command = g++ $flags $inc -include " + esc(os.path.join(OUT, "pch/vpch.h")) + " -MMD -MF $out.d -c -o $out $in", "  depfile = $out.d", "  deps = gcc",
         "rule cc", "  description = CC $out", "  command = gcc -O1 -w -DNDEBUG -fPIC $inc -MMD -MF $out.d -c -o $out $in", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && gcc-ar rcs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
         "rule link", "  command = g++ -pthread -rdynamic -o $out $in " + BOOST + " -lz -ldl"]
    write_if(os.path.join(OUT, "pch/vpch.h"), '#error "precompiled header was not used"\n')
    pch = os.path.join(OUT, "pch/vpch.h.gch")
    L.append("build %s: pch %s" % (esc(pch), esc(os.path.join(SRC, "gen/vpch.h"))))
    objs = []

    def add(path, rel, objs):
        o = os.path.join(OUT, rel + ".o")
        if path.endswith(".c"):
            L.append("build %s: cc %s" % (esc(o), esc(path)))
        else:
            L.append("build %s: cxx %s | %s" % (esc(o), esc(path), esc(pch)))
        objs.append(o)

    for part in ("core", "contrib"):
        base = os.path.join(SRC, part)
        for root, dirs, files in os.walk(base):
            dirs.sort()
            rel = os.path.relpath(root, base)
            top = rel.split(os.sep)[0]
            for f in sorted(files):
                p = os.path.join(root, f)
                r = os.path.normpath(os.path.join(part, rel, f))
                if part == "core":
                    if top in ("search", "analysis", "document", "index", "queryparser", "store") and f.endswith(".cpp"):
                        add(p, r, objs)
                    elif top == "util" and f.endswith((".cpp", ".c")):
                        add(p, r, objs)
                else:
                    if top in ("analyzers", "highlighter", "memory", "index", "snowball") and f.endswith(".cpp"):
                        add(p, r, objs)
                    elif r.endswith("libstemmer/libstemmer_utf8.c") or ("/src_c/" in r and f.endswith(".c")) or ("/runtime/" in r and f.endswith(".c")):
                        add(p, r, objs)
    lib = os.path.join(OUT, "liblpp.a")
    L.append("build %s: ar %s" % (esc(lib), " ".join(map(esc, objs))))
    hobjs = []
    hbase = os.path.join(SRC, "harness")
    for f in sorted(os.listdir(hbase)):
        if f.endswith(".cpp"):
            add(os.path.join(hbase, f), "harness/" + f, hobjs)
    exe = os.path.join(WORK, "vdrive")
    L.append("build %s: link %s %s" % (esc(exe), " ".join(map(esc, hobjs)), esc(lib)))
    L.append("default " + esc(exe))
    write_if(os.path.join(WORK, "build.ninja"), "\n".join(L) + "\n")
    return exe


def build(quiet=True):
    """Returns (ok, log)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        env = dict(os.environ, LC_ALL="C.UTF-8")
        for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
            env.pop(k, None)
        p = subprocess.run(["ninja", "-C", WORK, "-j", str(max(8, os.cpu_count() or 8))], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode == 0, p.stdout.decode("utf-8", "replace")


if __name__ == "__main__":
    ok, log = build()
    sys.stdout.write(log[-6000:])
    sys.exit(0 if ok else 2)
