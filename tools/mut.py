#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [more PROP...]: runs a check against a scratch copy of /repo with one replacement.
   mut.py PROP --rev COMMIT: with a commit reverted.   mut.py PROP --patch FILE"""
import os, shutil, subprocess, sys, tempfile
prop, a = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
try:
    subprocess.check_call("cp -a /repo/. %s/" % d, shell=True)
    if a[0] == "--rev":
        subprocess.check_call("git -C %s revert -n %s >/dev/null 2>&1" % (d, a[1]), shell=True)
    elif a[0] == "--patch":
        subprocess.check_call(["git", "-C", d, "apply", os.path.abspath(a[1])])
    else:
        f = os.path.join(d, a[0]); s = open(f).read()
        if s.count(a[1]) < 1: sys.exit("not found: " + a[1])
        open(f, "w").write(s.replace(a[1], a[2], 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.path.join("/tmp", "mutbuild"))
    # objects are keyed by path relative to the repository: reuse a build directory per copy
    env["VERIF_BUILD"] = d + "/_vb"
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("\n".join(r.stdout.split("\n")[-12:]))
    print("%s %s: %s" % (prop, " ".join(a)[:80], {0: "MISSED", 1: "caught"}.get(r.returncode, "no answer")))
finally:
    shutil.rmtree(d, ignore_errors=True)
