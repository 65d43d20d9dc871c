#!/usr/bin/env python3
"""campaign.py MUTANTS.py [-j N] [PROP...]: runs each mutant of a file (M = [(prop, file, old, new), ...]) in scratch copies of /repo
and says which are caught.  Never touches /repo."""
import concurrent.futures as cf, os, queue, shutil, subprocess, sys, tempfile
args = sys.argv[1:]; j = 2
if "-j" in args: i = args.index("-j"); j = int(args[i + 1]); del args[i:i + 2]
ns = {}; exec(open(args[0]).read(), ns); only = set(args[1:])
top = tempfile.mkdtemp(prefix="camp-", dir="/tmp"); slots = queue.Queue()
for i in range(j):
    d = os.path.join(top, str(i)); os.makedirs(d); subprocess.check_call("cp -a /repo %s/r" % d, shell=True); slots.put(d)
def one(m):
    prop, f, old, new = m; d = slots.get()
    try:
        p = os.path.join(d, "r", f); s = open(p).read()
        if s.count(old) < 1: return m, "NOT FOUND", ""
        open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_BUILD=d + "/b", PBT_WORKERS=str(max(1, 8 // j)), PBT_EVID=d)
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        open(p, "w").write(s)
        why = [l for l in r.stdout.split("\n") if l.startswith("reason:")]
        return m, {0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER"), (why[0][:150] if why else r.stdout[-300:] if r.returncode not in (0, 1) else "")
    finally: slots.put(d)
try:
    miss = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for m, v, why in ex.map(one, [m for m in ns["M"] if not only or m[0] in only]):
            if v != "caught": miss += 1
            print("%-9s %s %s: %r -> %r  %s" % (v, m[0], m[1], m[2][:70], m[3][:70], why), flush=True)
    print("not caught:", miss)
finally: shutil.rmtree(top, ignore_errors=True)
