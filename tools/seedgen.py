#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (development aid). usage: seedgen.py [id substring ...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools/seeds")
import common


def specs():
    for f in sorted(glob.glob(V + "/tools/seeds/s_*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        yield from m.SEEDS


def gen(s):
    d = "%s/seeded/%s" % (V, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "--no-recurse-submodules", "/repo", t + "/r"], check=True)
        for f, rs in s["edits"].items():
            p = t + "/r/" + f
            x = open(p).read()
            for old, new in rs:
                assert x.count(old) == 1, (s["id"], f, x.count(old), old[:80])
                x = x.replace(old, new)
            open(p, "w").write(x)
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    if "rs" in s:
        open(d + "/demo.sh", "w").write(common.DEMO_RS)
        open(d + "/prelude.rs", "w").write(common.PRELUDE)
        open(d + "/demo.rs", "w").write(s["rs"].lstrip("\n"))
    else:
        open(d + "/demo.sh", "w").write(common.DEMO_PY)
        open(d + "/demo.py", "w").write(s["py"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


for s in specs():
    if len(sys.argv) < 2 or any(a in s["id"] for a in sys.argv[1:]):
        gen(s)
        print("wrote", s["id"])
