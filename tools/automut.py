#!/usr/bin/env python3
"""automut.py [-n N] [-j J] [-s SEED] [PROP...]: random one-token mutants of the files a property is anchored in, run through its
check in scratch copies of /repo.  Prints the survivors (MISSED) with their diff for review."""
import concurrent.futures as cf, glob, json, os, queue, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def opt(k, d):
    if k in args:
        i = args.index(k); v = args[i + 1]; del args[i:i + 2]; return int(v)
    return d
N, J, SEED = opt("-n", 30), opt("-j", 4), opt("-s", 1)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
if args: props = [p for p in props if p["id"] in args]
OPS = [(r'(?<=\s)<(?=\s)', '<='), (r'(?<=\s)<=(?=\s)', '<'), (r'(?<=\s)>(?=\s)', '>='), (r'>=', '>'), (r'(?<=[\w\])])<(?=[\w(])', '<='), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w\])])\s*\+\s*(?=[\w(])', '-'), (r'(?<=[\w\])])\s*-\s*(?=[\w(])', '+'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b(\d+)\b', None), (r'\bif\s*\(([^;{}]*)\)', 'NEG'), (r'^\s*[^{}]*;\s*$', 'DEL'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\+\+', '--'), (r'\+=', '-='), (r'\*', '+'), (r'<<', '>>'), (r'>>', '<<'), (r'\|', '&'), (r'&(?=\s)', '|'), (r'!(?=[\w(])', '')]
def strip(s):   # blank comments, strings, preprocessor lines, keeping positions
    def b(m): return re.sub(r'[^\n]', ' ', m.group(0))
    s = re.sub(r'/\*.*?\*/', b, s, flags=re.S); s = re.sub(r'//[^\n]*', b, s); s = re.sub(r'"(?:[^"\\\n]|\\.)*"', lambda m: '"' + '\x01' * (len(m.group(0)) - 2) + '"', s)
    s = re.sub(r"'(?:[^'\\\n]|\\.)+'", lambda m: "'" + '\x01' * (len(m.group(0)) - 2) + "'", s); s = re.sub(r'^\s*#[^\n]*', b, s, flags=re.M); return s
def mutants(p):
    out = []
    for f in p["anchors"]["files"]:
        paths = [f] if not f.endswith("/") else [x[6:] for x in glob.glob("/repo/" + f + "*.h")]
        for g in paths:
            s = open("/repo/" + g).read(); t = strip(s)
            for pat, rep in OPS:
                for m in re.finditer(pat, t, re.M):
                    a, e = m.span(); w = s[a:e]
                    if not w.strip(): continue
                    if rep is None:
                        rs = [str(int(w) + 1)] + ([str(int(w) - 1)] if int(w) > 0 else [])
                    elif rep == 'NEG': rs = ["if (!(" + s[m.start(1):m.end(1)] + "))"]
                    elif rep == 'DEL':
                        if re.match(r'\s*(return|using|typedef|class|struct|public|private|template|friend|virtual|explicit|static)\b', w) or re.match(r'\s*[\w:<>,&*\s]+\s+[\w\[\]]+\s*(=[^=].*|\(.*\))?;\s*$', w): continue
                        rs = [";"]
                    else: rs = [rep]
                    for r in rs: out.append((p["id"], g, a, e, r))
    rnd = random.Random("%s %d" % (p["id"], SEED)); rnd.shuffle(out)
    seen, res = {}, []
    for m in out:      # at most two per line
        ln = (m[1], open("/repo/" + m[1]).read().count("\n", 0, m[2]))
        if seen.get(ln, 0) >= 2: continue
        seen[ln] = seen.get(ln, 0) + 1; res.append(m)
    return res[:N]
top = tempfile.mkdtemp(prefix="am-", dir="/tmp"); slots = queue.Queue()
for i in range(J):
    d = os.path.join(top, str(i)); os.makedirs(d); subprocess.check_call("cp -a /repo %s/r" % d, shell=True); slots.put(d)
def one(m):
    prop, f, a, e, r = m; d = slots.get()
    try:
        p = os.path.join(d, "r", f); s = open(p).read(); t = s[:a] + r + s[e:]; open(p, "w").write(t)
        env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_BUILD=d + "/b", PBT_WORKERS=str(max(1, 8 // J)), PBT_EVID=d, PBT_QUICK_S=os.environ.get("PBT_QUICK_S", "25"))
        try:
            x = subprocess.run([sys.executable, V + "/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600); rc, o = x.returncode, x.stdout
        except subprocess.TimeoutExpired: rc, o = 99, "timeout"
        open(p, "w").write(s)
        ln = s.count("\n", 0, a); ol, nl = s.split("\n")[ln], t.split("\n")[ln]
        v = {0: "MISSED", 1: "caught"}.get(rc, "nobuild" if "build of" in o else "NOANSWER")
        return v, "%s %s:%d\n    - %s\n    + %s" % (prop, f, ln + 1, ol.strip(), nl.strip()), o[-300:] if v == "NOANSWER" else ""
    finally: slots.put(d)
from collections import Counter
try:
    with cf.ThreadPoolExecutor(J) as ex:
        cnt = {}
        for (v, t, why) in ex.map(one, [m for p in props for m in mutants(p)]):
            cnt.setdefault(t[:3], Counter())[v] += 1
            if v not in ("caught", "nobuild"): print(v, t, why, flush=True)
    for k in sorted(cnt): print(k, dict(cnt[k]))
finally: shutil.rmtree(top, ignore_errors=True)
