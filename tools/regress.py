#!/usr/bin/env python3
"""Development aid: run /repo/regression_tests cases (in a scratch copy) with a slicer binary; print cases whose output differs from the spec."""
import sys, os, subprocess, tempfile, shutil, glob
slicer = os.path.abspath(sys.argv[1])
d = tempfile.mkdtemp(prefix="regress")
try:
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git", "_build"))
    os.makedirs(d + "/bin"); os.symlink(slicer, d + "/bin/lsqecc_slicer")
    os.makedirs(d + "/repo/build"); os.symlink(slicer, d + "/repo/build/lsqecc_slicer")
    env = dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"])
    bad = []
    cases = sorted(glob.glob(d + "/repo/regression_tests/cases/**/*.case.sh", recursive=True))
    for c in cases:
        spec = c[:-8] + ".spec"
        try:
            r = subprocess.run(["bash", c], cwd=d + "/repo/regression_tests", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
            out = r.stdout
        except subprocess.TimeoutExpired:
            out = "TIMEOUT"
        if not os.path.exists(spec) or out.strip() != open(spec).read().strip():
            bad.append(c.split("cases/")[1])
            if len(sys.argv) > 2 and sys.argv[2] in c:
                open("/tmp/out.txt", "w").write(out); shutil.copy(spec, "/tmp/spec.txt")
    print(len(cases), "cases; differing:", *bad, sep="\n  ")
finally:
    shutil.rmtree(d)
