#!/usr/bin/env python3
"""Build /repo's sources plus the harness programs into /verif/build/<flavor> (ninja, incremental).
usage: build.py FLAVOR TARGET..."""
import os, sys, glob, subprocess, hashlib
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
FLAVORS = {
    "fast": "-O1 -fno-omit-frame-pointer",
    "gridsynth": "-O1 -fno-omit-frame-pointer -DUSE_GRIDSYNTH -I%s/shim/gridsynth" % ROOT,
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
}
SKIP = ("emscripten", "pybind", "lsqecc_slicer_main")

def build(flavor, targets):
    out = os.path.join(ROOT, "build", flavor)
    os.makedirs(out, exist_ok=True)
    srcs = sorted(s for s in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if not any(k in s for k in SKIP))
    flags = ("-std=gnu++20 -w -pipe -DENABLE_BOOST_GRAPH_SEARCH %s -I%s/shim -I%s/include -I%s/external/include "
             "-I%s/external/json/include -I%s/external/ordered-map/include -I%s -I/usr/include/postgresql"
             % (FLAVORS[flavor], ROOT, REPO, REPO, REPO, REPO, HERE))
    L = ["cxx = g++", "flags = " + flags, "rule cc", "  command = $cxx $flags -MMD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "rule ar", "  command = rm -f $out && ar crs $out $in",
         "rule ld", "  command = $cxx $flags $in -o $out $libs -lpthread", ""]
    objs = []
    for s in srcs:
        o = "lib/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        L.append("build %s: cc %s" % (o, s)); objs.append(o)
    L.append("build liblsqecc.a: ar " + " ".join(objs))
    main = REPO + "/src/lsqecc_slicer_main.cpp"
    if os.path.exists(main):
        L += ["build lib/main.o: cc " + main, "build lsqecc_slicer: ld lib/main.o liblsqecc.a", "  libs = -lpq"]
    common = []
    for s in sorted(glob.glob(HERE + "/common/*.cpp")):
        o = "common/" + os.path.basename(s) + ".o"
        L.append("build %s: cc %s" % (o, s)); common.append(o)
    for s in sorted(glob.glob(HERE + "/checks/*.cpp")):
        n = os.path.basename(s)[:-4]
        L.append("build checks/%s.o: cc %s" % (n, s))
        L += ["build %s: ld checks/%s.o %s liblsqecc.a" % (n, n, " ".join(common)), "  libs = -lsqlite3 -ldl"]
    txt = "\n".join(L) + "\n"
    p = os.path.join(out, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)
    # one builder at a time per flavor
    import fcntl
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["ninja", "-C", out, "-j", str(os.cpu_count() or 4)] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-8000:])
    return r.returncode, out

if __name__ == "__main__":
    rc, out = build(sys.argv[1], sys.argv[2:])
    sys.exit(rc)
