"""mkseed.py SPEC.py : makes /verif/seeded/<id> from edits; with --try, builds
it in /repo, runs the demo and the property's check, and undoes it."""
import json, os, subprocess, sys, shutil
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, needs, breaks, edits, files, demo):
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == "", "dirty /repo"
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(a) != 1:
            sh("git -C /repo checkout -- ."); raise SystemExit("%s: %d matches in %s of %r" % (id, s.count(a), f, a))
        open(p, "w").write(s.replace(a, b))
    diff = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    for n, t in files.items(): open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
CPP = """#!/bin/bash
# Builds the demonstration against the library that build.sh made.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++17 -O1 -w -DPROJECT_SOURCE_DIR='"/repo"' -include boost/current_function.hpp -DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION \\
  -I/repo/src -I/repo -I/repo/_build -I/repo/_build/src -isystem /usr/include/libxml2 -I"$here" "$here/demo.cc" -o "$tmp/demo" \\
  -L/repo/_build/lib/scram -lscram -lxml2 -lboost_filesystem -lboost_system -lboost_random -ldl -lpthread \\
  -Wl,-rpath,/repo/_build/lib/scram
timeout 120 "$tmp/demo"
"""
def ftfiles(demo):
    return {"demo.cc": demo, "ft.h": open("/verif/native/ft.h").read(), "common.h": open("/verif/native/common.h").read()}
