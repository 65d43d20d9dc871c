#!/usr/bin/env python3
"""Builds one property's harness from /repo's current tree and runs it.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only SUB]
  check.py --setup

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  2: could not build or run.
"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
EVID = os.environ.get("PBT_EVID", os.path.join(V, "evidence"))

# module -> source directories of the repository (every non-test .cpp in them is compiled)
MOD = {
    "concurrent": ["src/concurrent"],
    "system": ["src/system"],
    "math": ["src/math/random"],
    "text": ["src/text", "src/text/json"],
    "code": ["src/data/code"], "digest": ["src/data/digest"], "encoding": ["src/data/encoding"],
    "sparse": ["src/data/sparse_matrix"], "string": ["src/data/string"], "data": ["src/data"],
    "net": ["src/network"], "http": ["src/network/http"], "rpc": ["src/network/rpc"], "cgi": ["src/network/cgi"],
    "mprpc": ["src/network/mprpc"], "pgsql": ["src/database/postgresql"], "mysql": ["src/database/mysql"],
}
SKIP = set()
ASAN = ["-fsanitize=address", "-fsanitize=bounds,return,unreachable", "-fno-sanitize-recover=all",
        "-fsanitize-coverage=inline-8bit-counters"]
SCHED = ["-fsanitize=address", "-fsanitize-coverage=edge,trace-loads,trace-stores,inline-8bit-counters", "-DPBT_SCHED=1"]
NETWRAP = ["-Wl,--wrap=%s" % x for x in "send recv connect accept setsockopt".split()]
# property -> (modules, variant, extra link flags)
H = {
    "C01": ("text string", "asan"), "C02": ("text string", "asan"), "C03": ("text string", "asan"),
    "C04": ("text string", "asan"), "C05": ("text string", "asan"), "C06": ("text string", "asan"),
    "C07": ("text net http cgi system concurrent", "asan"), "C08": ("system", "asan"), "C09": ("system", "asan"),
    "C10": ("string", "asan"), "C11": ("encoding", "asan"), "C12": ("digest system", "asan"),
    "C13": ("code", "asan"), "C14": ("sparse code system", "asan", ["-Wl,--wrap=_ZN3pfi6system7sysstat11get_sysstatERNS1_11sysstat_retE"]), "C15": ("string", "asan"),
    "C16": ("string", "asan"), "C17": ("string", "asan"), "C18": ("", "asan"), "C19": ("system", "asan"),
    "C20": ("", "asan"), "C21": ("data", "asan"), "C22": ("net system concurrent", "asan"),
    "C23": ("net http system concurrent encoding", "asan", NETWRAP), "C24": ("net http cgi text system concurrent", "asan", ["-Wl,--wrap=%s" % x for x in "FCGX_IsCGI FCGX_Accept FCGX_Finish".split()]),
    "C25": ("net system concurrent", "asan", NETWRAP + ["-Wl,--wrap=%s" % x for x in "socket bind listen getsockname".split()]), "C26": ("net rpc system concurrent", "asan", ["-Wl,--wrap=%s" % x for x in "socket bind connect accept getsockname setsockopt".split()]),
    "C27": ("net system concurrent", "asan"), "C28": ("net system concurrent", "sched"),
    "C52": ("text string encoding digest code sparse data net http cgi rpc math system concurrent", "sched"),
    "C53": ("", "asan"),
    "C29": ("concurrent system", "sched"), "C30": ("concurrent system", "sched"), "C31": ("concurrent system", "sched"),
    "C32": ("concurrent system", "sched"), "C33": ("concurrent system", "sched"), "C34": ("concurrent system", "sched"),
    "C35": ("concurrent system", "sched"), "C36": ("concurrent system", "sched"),
    "C37": ("math system", "asan"), "C38": ("", "asan"), "C39": ("", "asan"), "C40": ("", "asan"),
    "C41": ("system", "asan"), "C42": ("system", "asan", ["-Wl,--wrap=%s" % x for x in "open open64 close mmap mmap64 munmap fstat fstat64".split()]), "C43": ("system", "asan"), "C44": ("", "asan"),
    "C45": ("system", "asan"), "C46": ("pgsql system", "asan", ["-lpq"]), "C47": ("mysql system", "asan", ["-lmariadb"]),
    "C51": ("mprpc net system concurrent", "asan", ["-Wl,--wrap=%s" % x for x in "socket bind listen connect accept setsockopt read write recv send".split()]),
    "C54": ("system net rpc concurrent", "asan"),
    "C48": ("", "asan"), "C49": ("system net rpc concurrent", "asan"), "C50": ("system", "asan"),
}
INC = ["-I" + os.path.join(V, "harness", "standin"), "-I/usr/include/postgresql", "-I/usr/include/mariadb", "-I/usr/include/mysql"]
CXX = "clang++"
COMMON = ["-g", "-O1", "-fno-omit-frame-pointer", "-D_REENTRANT", "-w", "-pthread", "-ftrivial-auto-var-init=pattern"]


def q(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def genrpc_flags():
    """The generators of tools/genrpc include the installed headers, <pficommon/...>."""
    inc = os.path.join(BUILD, "inc")
    os.makedirs(inc, exist_ok=True)
    link = os.path.join(inc, "pficommon")
    if not os.path.islink(link) or os.readlink(link) != os.path.join(REPO, "src"):
        if os.path.islink(link):
            os.remove(link)
        os.symlink(os.path.join(REPO, "src"), link)
    return "-I%s -I%s -DGENRPC_DIR='\"%s\"'" % (inc, os.path.join(REPO, "tools", "genrpc"), os.path.join(REPO, "tools", "genrpc"))


def ninja_file(pid, everything=False):
    mods, variant = H[pid][0].split(), H[pid][1]
    if everything:
        mods = sorted(set(MOD) - ({"pgsql", "mysql", "mprpc"} - set(mods)))
    extra = (list(H[pid][2]) if len(H[pid]) > 2 else []) + (["-lfcgi"] if "cgi" in mods else [])
    flags = COMMON + (ASAN if variant == "asan" else SCHED)
    conf = os.path.join(BUILD, "conf", "a", "b")          # "../../pfi-config.h" resolves from here
    out = [
        "ninja_required_version = 1.5",
        "builddir = %s" % BUILD,
        "rule cxx", "  command = %s $flags -MMD -MF $out.d -c $in -o $out" % CXX, "  depfile = $out.d", "  deps = gcc",
        "rule link", "  command = %s $flags $in -o $out $libs" % CXX,
    ]
    objs = []
    for m in mods:
        for d in MOD[m]:
            for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
                b = os.path.basename(f)
                if b.endswith("_test.cpp") or b in SKIP:
                    continue
                o = os.path.join(BUILD, variant, os.path.relpath(f, REPO) + ".o")
                out += ["build %s: cxx %s" % (q(o), q(f)),
                        "  flags = %s -std=c++11 -I%s -I%s %s" % (" ".join(flags), os.path.join(REPO, "src"), conf, " ".join(INC) if m in ("pgsql", "mysql", "mprpc") else "")]
                objs.append(o)
    for f, inst in [(os.path.join(V, "harness", pid.lower() + ".cpp"), True), (os.path.join(V, "harness", "pbt.cpp"), False)] + \
            ([(os.path.join(V, "harness", "schedule.cpp"), False)] if variant == "sched" else []):
        o = os.path.join(BUILD, variant, "h_" + os.path.basename(f) + ".o")
        fl = COMMON + (["-fsanitize=address"] if variant == "asan" else ["-fsanitize=address", "-DPBT_SCHED=1"]) if not inst else flags
        out += ["build %s: cxx %s" % (q(o), q(f)),
                "  flags = %s -std=c++17 %s -I%s -I%s -I%s" % (" ".join(fl), " ".join(INC) if pid in ("C46", "C47", "C51") else genrpc_flags() if pid == "C54" else "", os.path.join(V, "harness"), os.path.join(REPO, "src"), conf)]
        objs.append(o)
    exe = os.path.join(BUILD, variant, pid.lower())
    lf = [x for x in flags if x.startswith("-fsanitize=")] + ["-pthread", "-rdynamic"]
    out += ["build %s: link %s" % (q(exe), " ".join(q(o) for o in objs)), "  flags = %s" % " ".join(lf), "  libs = %s -ldl" % " ".join(extra),
            "default %s" % q(exe), ""]
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    os.makedirs(conf, exist_ok=True)
    shutil.copyfile(os.path.join(V, "harness", "pfi-config.h.in"), os.path.join(BUILD, "conf", "pfi-config.h.new"))
    cur = os.path.join(BUILD, "conf", "pfi-config.h")
    new = cur + ".new"
    if not os.path.exists(cur) or open(cur).read() != open(new).read():
        os.replace(new, cur)
    else:
        os.remove(new)
    nf = os.path.join(BUILD, pid + ".ninja")
    with open(nf, "w") as f:
        f.write("\n".join(out))
    return nf, exe


def build(pid):
    for everything in (False, True):      # a module may have come to need another one: then link them all
        nf, exe = ninja_file(pid, everything)
        r = subprocess.run(["ninja", "-C", BUILD, "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
    if r.returncode != 0:
        sys.stdout.write("\n".join([l for l in r.stdout.split("\n") if "clang++ -g" not in l][-60:]) + "\n")
        print("check.py: build of %s failed" % pid)
        return None
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    if a.setup:
        for t in ("clang++", "ninja"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("tools present; checks build from %s on every run" % REPO)
        return 0
    pid = a.property
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID), exist_ok=True)
    exe = build(pid)
    if not exe:
        return 2
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    os.chmod(tmp, 0o755)
    ev = os.path.join(EVID, pid + ".json")
    cmd = [exe, "--tmp", tmp, "--seed", str(a.seed), "--tier", a.tier, "--scale", a.scale,
           "--evidence", ev, "--replay-dir", os.path.join(EVID, "replays")]
    if a.only:
        cmd += ["--only", a.only]
    if a.replay:
        cmd += ["--replay", a.replay]
    env = dict(os.environ)
    env.setdefault("TZ", "UTC")
    env["PBT_TMP"] = tmp
    env["LC_ALL"] = "C"
    env["PBT_HARNESS"] = os.path.join(V, "harness")
    env.pop("ASAN_OPTIONS", None)
    try:
        if not a.replay and os.path.exists(ev):
            os.remove(ev)
        r = subprocess.run(cmd, env=env, cwd=tmp)
        rc = r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known(pid)
    return rc if rc in (0, 1) else 2


def known(pid):
    """Prints the KNOWN-FINDING lines of this property (findings that are recorded, not repaired)."""
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("KNOWN-FINDING: property=%s " % pid):
                print(l.rstrip())


if __name__ == "__main__":
    sys.exit(main())
