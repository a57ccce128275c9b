#!/usr/bin/env python3
"""Runs the checks against variants of /repo kept in tools/battery/*.py (development aid; no check reads it).

Each file defines VARIANTS: a list of (name, {file: [(old, new), ...]}, [properties expected to be violated]).
usage: battery.py [-j N] [-v] [name substring ...]"""
import concurrent.futures as cf, fcntl, glob, importlib.util, os, re, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/battery"
k = 0
while True:
    # one scratch directory for each battery running at the same time
    os.makedirs(W, exist_ok=True)
    LOCK = open(W + "/.lock", "w")
    try:
        fcntl.flock(LOCK, fcntl.LOCK_EX | fcntl.LOCK_NB)
        break
    except OSError:
        k += 1
        W = "/tmp/battery%d" % k
loc = threading.local()
cnt = [0]
lock = threading.Lock()


def worker_dir():
    if not hasattr(loc, "d"):
        with lock:
            loc.d = os.path.join(W, "w%d" % cnt[0])
            cnt[0] += 1
        os.makedirs(loc.d, exist_ok=True)
        if not os.path.exists(loc.d + "/build/driver.stamp"):
            shutil.copytree(V + "/.build", loc.d + "/build", dirs_exist_ok=True)
    return loc.d


def one(v, props):
    name, edits, want = v
    d = worker_dir()
    repo = d + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git", "ruff"), symlinks=True)
    for f, rs in edits.items():
        p = os.path.join(repo, f)
        s = open(p).read()
        for old, new in rs:
            if s.count(old) < 1:
                return name, "EDIT-FAILED", "%s: %r" % (f, old[:60]), want, set()
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
    env = dict(os.environ, SA_DEBUG="1", SA_REPO=repo, SA_BUILD=d + "/build", SA_EVIDENCE=d + "/evidence")
    p = subprocess.run([V + "/check"] + props, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    got = set(re.findall(r"VIOLATION property=(C\d+)", p.stdout))
    st = "ok"
    if p.returncode not in (0, 1) or (p.returncode == 1 and not got):
        st = "CRASH"
    elif not set(want) <= got:
        st = "MISSED"
    elif got - set(want):
        st = "also" if want else "FALSE-ALARM"
    return name, st, p.stdout, want, got


def main():
    a = sys.argv[1:]
    j = 6
    verbose = "-v" in a
    if "-j" in a:
        j = int(a[a.index("-j") + 1])
        del a[a.index("-j"):a.index("-j") + 2]
    pr = None
    if "-p" in a:
        pr = a[a.index("-p") + 1].split(",")
        del a[a.index("-p"):a.index("-p") + 2]
    no = []
    if "-x" in a:
        no = a[a.index("-x") + 1].split(",")
        del a[a.index("-x"):a.index("-x") + 2]
    a = [x for x in a if not x.startswith("-")]
    vs = []
    for f in sorted(glob.glob(V + "/tools/battery/*.py")):
        sp = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        vs += m.VARIANTS
    if a:
        vs = [v for v in vs if any(x in v[0] for x in a)]
    props = pr or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/sa/props/c*.py"))
    props = [p for p in props if p not in no]
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for name, st, out, want, got in ex.map(lambda v: one(v, props), vs):
            want = [w for w in want if w in props]
            if st == "MISSED" and set(want) <= got:
                st = "ok"
            if st not in ("ok", "also"):
                bad += 1
            print("%-12s %-45s want=%s got=%s" % (st, name, ",".join(want), ",".join(sorted(got))))
            if st not in ("ok", "also") or verbose:
                ls = [l for l in out.splitlines() if not re.match(r"C\d+: \d+ obl", l)]
                print("\n".join("      " + l[:300] for l in ls[-(40 if verbose else 14):]))
    print("%d variants, %d not as expected" % (len(vs), bad))


main()
