#!/usr/bin/env python3
"""seed.py <id>...: validate planted bugs in a scratch copy: builds, stable tests pass, demo fails with and passes without.
seed.py --catch <id>...: run the check of the property of a planted bug on the changed scratch copy."""
import json, os, subprocess, sys, re
R = "/tmp/seedwork"
S = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    if not os.path.exists(R):
        print(sh("git clone -q /repo %s" % R).stdout)
        print(sh("SETUPTOOLS_SCM_PRETEND_VERSION=0.0 CC=gcc CXX=g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TESTS=ON" % (R, R)).stdout[-300:])
    sh("cd %s && git fetch -q && git reset -q --hard FETCH_HEAD" % R)


def demo(i):
    # the demo refers to /repo only as its cwd
    return sh("bash %s/%s/demo.sh" % (S, i), cwd=R)


def tests():
    r = sh("ninja -C %s/_build" % R)
    if r.returncode:
        return "BUILD " + r.stdout[-1500:]
    r = sh("cd %s/_build && ctest -j8 --timeout 120" % R)
    if r.returncode:
        return "TESTS " + r.stdout[-1500:]
    return None


fresh()
ok = True
args = sys.argv[1:]
catch = args and args[0] == "--catch"
args = args[1:] if catch else args
for i in args or sorted(os.listdir(S)):
    m = json.load(open("%s/%s/meta.json" % (S, i)))
    sh("git checkout -q .", cwd=R)
    if not catch:
        r = demo(i)
        if r.returncode:
            print(i, "demo fails on the unchanged tree", r.stdout[-800:])
            continue
    r = sh("git apply %s/%s/patch.diff" % (S, i), cwd=R)
    if r.returncode:
        print(i, "does not apply", r.stdout)
        continue
    if catch:
        e = dict(os.environ, GF_REPO=R)
        r = sh("python3 check.py " + m["property"], cwd="/verif", env=e)
        print(i, m["property"], "caught" if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else "MISSED (exit %d)\n%s" % (r.returncode, r.stdout[-600:]))
        continue
    t = tests()
    if t:
        print(i, t)
        continue
    r = demo(i)
    print(i, "ok" if r.returncode else "demo passes with the change")
sh("git checkout -q .", cwd=R)
