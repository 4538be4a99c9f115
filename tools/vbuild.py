"""Builds what a check needs from /repo's current working tree, into /verif/_build (git-ignored).

Sources come from each library's CMakeSourceFiles.txt, so a file added to the project is picked up.
Headers the project would download or generate (rapidxml, CompileDefinitions.h) are produced here;
the So-bogus friction library, which is not available offline, is replaced by shims/ (see DESIGN.md).
"""
import os, re, subprocess, sys, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCISIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
INC = os.path.join(BUILD, "inc")
CXXFLAGS = ("-std=c++14 -O1 -DNDEBUG -DEIGEN_DONT_PARALLELIZE -DEIGEN_INITIALIZE_MATRICES_BY_NAN "
            "-DCMAKE_DETECTED_GNU_COMPILER "
            "-ffp-contract=off -w")

PCH = """\
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/Eigenvalues>
#include <Eigen/QR>
#include <Eigen/SVD>
#include <Eigen/Cholesky>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <memory>
#include <random>
#include <functional>
#include <algorithm>
"""

# library -> other libraries it links with
LIBS = {
    "scisim": [],
    "ball2d": ["scisim"],
    "ball2dutils": ["ball2d", "scisim"],
    "rigidbody2d": ["scisim"],
    "rigidbody2dutils": ["rigidbody2d", "scisim"],
    "rigidbody3d": ["scisim"],
    "rigidbody3dutils": ["rigidbody3d", "scisim"],
}


class BuildError(Exception):
    pass


def lib_sources(lib):
    text = open(os.path.join(REPO, lib, "CMakeSourceFiles.txt")).read()
    out = []
    for m in re.finditer(r"^\s*set\(\s*\w*Sources(.*?)^\s*\)", text, re.S | re.M):
        for tok in m.group(1).split():
            if tok.endswith(".cpp") and "bogus/" not in tok:
                p = os.path.join(REPO, lib, tok)
                if os.path.exists(p) and p not in out:
                    out.append(p)
    return out


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen_headers():
    t = open(os.path.join(REPO, "scisim", "CompileDefinitions.h.in")).read()
    t = t.replace("@GIT_SHA1@", "0" * 40)
    t = re.sub(r"@\w+@", "x", t)
    write_if_changed(os.path.join(INC, "scisim", "CompileDefinitions.h"), t)
    t = open("/usr/include/boost/property_tree/detail/rapidxml.hpp").read()
    t = t.replace("namespace boost { namespace property_tree { namespace detail {namespace rapidxml",
                  "namespace rapidxml")
    t = re.sub(r"^\}\}\}\}", "}", t, flags=re.M)
    write_if_changed(os.path.join(INC, "rapidxml.hpp"), t)
    write_if_changed(os.path.join(BUILD, "pch.h"), PCH)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def build(targets, extra_flags="", tag=""):
    """targets: list of (exe name, [driver sources], [libs], [extra defines])"""
    os.makedirs(BUILD, exist_ok=True)
    gen_headers()
    sub = os.path.join(BUILD, "obj" + tag)
    flags = f"{CXXFLAGS} {extra_flags} -I{INC} -I{VERIF}/drivers -isystem /usr/include/eigen3 -I{REPO}"
    n = []
    n.append(f"cxx = g++\nflags = {flags}\n")
    n.append("rule pch\n  command = $cxx $flags -x c++-header -c $in -o $out\n  description = PCH\n")
    n.append("rule cc\n  command = $cxx $flags -include " + os.path.join(sub, "pch.h") +
             " $defs -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in\n")
    n.append("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out\n")
    n.append("rule link\n  command = $cxx -o $out $in $libs $xl -lpthread\n  description = LINK $out\n")
    os.makedirs(sub, exist_ok=True)
    shutil.copyfile(os.path.join(BUILD, "pch.h"), os.path.join(sub, "pch.h.src")) if not os.path.exists(os.path.join(sub, "pch.h")) else None
    write_if_changed(os.path.join(sub, "pch.h"), PCH)
    gch = os.path.join(sub, "pch.h.gch")
    n.append(f"build {gch}: pch {os.path.join(sub, 'pch.h')}\n")
    needed = []
    for _, _, libs, _ in targets:
        for l in libs:
            if l not in needed:
                needed.append(l)
    for l in needed:
        objs = []
        for s in lib_sources(l):
            o = os.path.join(sub, os.path.relpath(s, REPO))[:-4] + ".o"
            n.append(f"build {esc(o)}: cc {esc(s)} | {gch}\n")
            objs.append(o)
        if l == "scisim":
            for s in sorted(glob.glob(os.path.join(VERIF, "shims", "*.cpp"))):
                o = os.path.join(sub, "shims", os.path.basename(s))[:-4] + ".o"
                n.append(f"build {esc(o)}: cc {esc(s)} | {gch}\n")
                objs.append(o)
        n.append(f"build {sub}/lib{l}.a: ar {' '.join(map(esc, objs))}\n")
    outs = []
    for exe, srcs, libs, defs in targets:
        objs = []
        for s in srcs:
            s2 = s if os.path.isabs(s) else os.path.join(VERIF, "drivers", s)
            o = os.path.join(sub, "drv", exe, os.path.basename(s2))[:-4] + ".o"
            n.append(f"build {esc(o)}: cc {esc(s2)} | {gch}\n  defs = {' '.join(defs)}\n")
            objs.append(o)
        las = [f"{sub}/lib{l}.a" for l in libs]
        out = os.path.join(BUILD, "bin" + tag, exe)
        n.append(f"build {out}: link {' '.join(map(esc, objs))} | {' '.join(las)}\n  libs = {' '.join(las)}\n  xl = {extra_flags} {' '.join(d for d in defs if d.startswith('-fsanitize'))}\n")
        outs.append(out)
    n.append("default " + " ".join(outs) + "\n")
    nf = os.path.join(BUILD, f"build{tag}-{abs(hash(tuple(t[0] for t in targets))) % 10**8}.ninja")
    nf = os.path.join(BUILD, f"build{tag}-" + "-".join(t[0] for t in targets)[:80] + ".ninja")
    with open(nf, "w") as f:
        f.write("builddir = " + sub + "\n" + "\n".join(n))
    p = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout[-6000:])
    return outs


def build_java():
    cls = os.path.join(BUILD, "classes")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    out = os.path.join(cls, "Num.class")
    if not os.path.exists(out) or os.path.getmtime(out) < max(map(os.path.getmtime, src)):
        os.makedirs(cls, exist_ok=True)
        p = subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", cls, *src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(p.stdout[-4000:])
    return cls
