#!/usr/bin/env python3
"""Build libdiffpy from /repo's working tree and the check harnesses.

usage: build.py FLAVOR [ID ...]       (FLAVOR: opt or asan; no ID: all)

Everything goes to /verif/build/FLAVOR; nothing is written in /repo."""

import fcntl, glob, os, re, string, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

FLAVORS = {
    "opt": "-O1 -g0 -D_GLIBCXX_ASSERTIONS",
    "asan": "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined "
            "-fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer",
}

def write_if_changed(path, text):
    try:
        with open(path) as fp:
            if fp.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fp:
        fp.write(text)


def gen_headers(inc):
    d = os.path.join(REPO, "src/diffpy")
    with open(os.path.join(d, "version.tpl")) as fp:
        vt = fp.read()
    fv = "1.0.0.post0"
    try:
        with open(os.path.join(REPO, "site_scons/fallback_version.py")) as fp:
            m = re.search(r"^FALLBACK_VERSION\s*=\s*['\"]([^'\"]+)['\"]", fp.read(), re.M)
            fv = m.group(1)
    except (OSError, AttributeError):
        pass
    nums = [int(x) for x in re.findall(r"\d+", fv.partition(".post")[0])[:3]]
    nums += [0] * (3 - len(nums))
    num = "%iLL" % (((nums[0] * 1000 + nums[1]) * 1000 + nums[2]) * 1000 + 1)
    write_if_changed(os.path.join(inc, "diffpy/version.hpp"),
        string.Template(vt).safe_substitute(
            DIFFPY_VERSION=num, DIFFPY_VERSION_MAJOR=nums[0],
            DIFFPY_VERSION_MINOR=nums[1], DIFFPY_VERSION_MICRO=nums[2],
            DIFFPY_VERSION_PATCH=1, DIFFPY_VERSION_STR=fv,
            DIFFPY_VERSION_DATE="unknown", DIFFPY_GIT_SHA="unknown"))
    with open(os.path.join(d, "features.tpl")) as fp:
        ft = fp.read()
    write_if_changed(os.path.join(inc, "diffpy/features.hpp"),
        string.Template(ft).safe_substitute(DIFFPY_HAS_OBJCRYST="1"))


def shared_sources():
    return ["vt.cpp", "common.cpp", "calc.cpp"]


def all_ids():
    return sorted(os.path.basename(f)[:-4].upper()
        for f in glob.glob(os.path.join(VERIF, "harness/c[0-9][0-9].cpp")))


def build(flavor, ids):
    bdir = os.path.join(VERIF, "build", flavor)
    inc = os.path.join(bdir, "include")
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_headers(inc)
        gsl = subprocess.run(["gsl-config", "--libs"], capture_output=True, text=True).stdout.strip() or "-lgsl -lgslcblas -lm"
        srcs = sorted(glob.glob(os.path.join(REPO, "src/diffpy/*.cpp")) +
                      glob.glob(os.path.join(REPO, "src/diffpy/srreal/*.cpp")))
        # the generated headers come first; a version.hpp that may lie next to
        # the sources is found only by quoted includes, which are not used
        n = ["cxxflags = %s -fPIC -w -fno-var-tracking" % FLAVORS[flavor],
             "incs = -I%s -I%s/src" % (inc, REPO),
             "rule lib\n  command = g++ -std=c++11 $cxxflags $incs -DDIFFPYRUNTIMERELPATH=../../../nonexistent -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule har\n  command = g++ -std=c++14 $cxxflags $incs -I%s/harness -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % VERIF,
             "rule so\n  command = g++ %s -shared -o $out $in -lboost_serialization %s -ldl -lObjCryst" % (FLAVORS[flavor], gsl),
             "rule exe\n  command = g++ %s -o $out $in -L%s -ldiffpy -Wl,-rpath,%s -lboost_serialization %s -ldl -lObjCryst" % (FLAVORS[flavor], bdir, bdir, gsl)]
        objs = []
        for s in srcs:
            o = os.path.join(bdir, "lib", os.path.relpath(s, REPO + "/src").replace("/", "_")[:-4] + ".o")
            objs.append(o)
            n.append("build %s: lib %s" % (o, s))
        lib = os.path.join(bdir, "libdiffpy.so")
        hobjs = []
        for s in shared_sources():
            o = os.path.join(bdir, "har", s[:-4] + ".o")
            hobjs.append(o)
        targets = []
        hl = []
        for i in ids:
            hl.append("build %s: har %s" % (os.path.join(bdir, "har", i.lower() + ".o"), os.path.join(VERIF, "harness", i.lower() + ".cpp")))
        # harness objects first: they are the slowest to compile
        n[6:6] = hl + ["build %s: har %s" % (o, os.path.join(VERIF, "harness", s)) for o, s in zip(hobjs, shared_sources())]
        n.append("build %s: so %s" % (lib, " ".join(objs)))
        for i in ids:
            t = os.path.join(bdir, i)
            targets.append(t)
            n.append("build %s: exe %s %s | %s" % (t, os.path.join(bdir, "har", i.lower() + ".o"), " ".join(hobjs), lib))
        fname = os.path.join(bdir, "build-%s.ninja" % ("all" if len(ids) != 1 else ids[0]))
        write_if_changed(fname, "builddir = %s\n" % bdir + "\n".join(n) + "\n")
        cmd = ["ninja", "-C", bdir, "-f", fname] + (["-j", str(os.cpu_count() or 4)]) + targets
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write("\n".join(x for x in r.stdout.splitlines() if " note: " not in x and "error" in x)[:4000] + "\n" + r.stdout[-1500:])
            print("ERROR: build failed")
            return False
    return True


if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "opt"
    ok = build(fl, sys.argv[2:] or all_ids())
    sys.exit(0 if ok else 2)
