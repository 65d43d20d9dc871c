#!/usr/bin/env python3
"""Planted bugs.  seed.py make SPEC.py: (re)creates /verif/seeded/<id> from a spec, confirming each in /repo (build, stable
tests, demo on both trees) and restoring /repo.   seed.py run [ID...]: which checks catch which bug."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
SH = """#!/bin/bash
# Builds demo.cpp against the libraries of the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
LIBS=""; for l in text network data system concurrent math lang database; do LIBS="$LIBS -Lbuild/src/$l -lpficommon_$l -Wl,-rpath,$PWD/build/src/$l"; done
g++ -std=c++11 -g -w -pthread %s-I src -I build/src "$D/demo.cpp" -o "$T/demo" -Wl,--no-as-needed $LIBS || exit 99
cd "$T" && timeout 120 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): assert sh("git -C /repo status --porcelain").stdout == "", "/repo is not clean"
def mk(id, prop, edits, demo, needs, breaks, flags=""):
    clean(); d = S + "/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(SH % (flags + " " if flags else "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    try:
        for f, o, n in edits:
            s = open("/repo/" + f).read(); assert s.count(o) == 1, (id, f, s.count(o), o); open("/repo/" + f, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = sh("bash %s/tools/repotest.sh" % V); ok = t.returncode == 0
        b = sh("bash %s/demo.sh" % d, cwd="/repo")
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh"); g = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("%s: tests %s, demo patched %d, clean %d -> %s" % (id, "pass" if ok else t.stdout[-500:], b.returncode, g.returncode, "OK" if ok and b.returncode not in (0, 99) and g.returncode == 0 else "BAD\n" + b.stdout[-600:] + g.stdout[-600:]), flush=True)
def run(ids):
    for i in ids or sorted(os.listdir(S)):
        p = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
        print(sh("python3 %s/tools/mut.py %s --patch %s/%s/patch.diff" % (V, p, S, i)).stdout.strip().split("\n")[-1].replace(S, ""), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "make": exec(open(sys.argv[2]).read())
    else: run(sys.argv[2:])
