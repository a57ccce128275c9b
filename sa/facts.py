"""Builds the MIR facts of /repo's current tree (type-checked program, resolved callees) with the rustc driver.

The `ruff` submodule is absent from this checkout, so the crate is type-checked against the signature-only stub crates
in /verif/stubs; if the tree no longer type-checks that way (it uses ruff API the stubs lack), the subset of modules
that does not need ruff is analysed instead, and everything else is reported as not analysed."""
import hashlib, json, os, re, shutil, subprocess, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(BUILD, "driver", "release", "rtest-facts-driver")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            e.pop(k)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _run(cmd, cwd, env, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def _hash_dir(h, root, exts):
    for dp, dn, fn in sorted(os.walk(root)):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git"))
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")


def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    _hash_dir(h, DRIVER_DIR, (".rs", ".toml", ".lock"))
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    rc, out = _run(["cargo", "+nightly", "build", "--release", "--offline"], DRIVER_DIR, e)
    if rc != 0:
        raise BuildError("driver build failed:\n" + out[-3000:])
    open(stamp, "w").write(h.hexdigest())


SUBSET_MODULES = ["cli", "config", "native_runner", "pytest_executor", "runner", "scheduler", "subproject", "utils", "worker"]


def _shadow(kind):
    """Writes the shadow crate that points at /repo's sources; returns its directory."""
    d = os.path.join(BUILD, "shadow_" + kind)
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = re.sub(r'path = "ruff/crates/(ruff_\w+)"', lambda m: 'path = "%s/stubs/%s"' % (VERIF, m.group(1)), t)
    lib = os.path.join(REPO, "src", "lib.rs")
    if kind == "subset":
        lib = os.path.join(d, "lib.rs")
        src = ""
        for m in SUBSET_MODULES:
            src += '#[path = "%s/src/%s.rs"]\npub mod %s;\n' % (REPO, m, m)
        src += "pub mod collection {\n"
        for m in ("config", "error", "types", "utils"):
            src += '    #[path = "%s/src/collection/%s.rs"]\n    pub mod %s;\n' % (REPO, m, m)
        src += "    pub use utils::*;\n}\npub mod python_discovery {\n    #[path = \"%s/src/python_discovery/pattern.rs\"]\n    pub mod pattern;\n}\n" % REPO
        for l in open(os.path.join(REPO, "src", "lib.rs")):
            pass
        src += _subset_reexports()
        open(lib, "w").write(src)
    t = re.sub(r'(?m)^\[lib\]\n(?:path = .*\n)?', '[lib]\npath = "%s"\n' % lib, t, count=1)
    if "[workspace]" not in t:
        t += "\n[workspace]\n"
    old = open(os.path.join(d, "Cargo.toml")).read() if os.path.exists(os.path.join(d, "Cargo.toml")) else None
    if old != t:
        open(os.path.join(d, "Cargo.toml"), "w").write(t)
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(d, "Cargo.lock"))
    return d


def _subset_reexports():
    src = open(os.path.join(REPO, "src", "lib.rs")).read()
    out = ""
    for m in re.finditer(r"(?ms)^pub use (\w+)::(.*?);", src):
        if m.group(1) in SUBSET_MODULES:
            out += "pub use %s::%s;\n" % (m.group(1), m.group(2))
    return out


def _facts(kind, out):
    d = _shadow(kind)
    e = _env()
    tgt = os.path.join(BUILD, "target")
    e["CARGO_TARGET_DIR"] = tgt
    e["FACTS_CRATE"] = "rtest" if kind == "full" else "rtest"
    e["FACTS_OUT"] = out
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=e).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
    e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Cpanic=abort -Coverflow-checks=on"
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("rtest-") or n.startswith("_rtest-"):
                shutil.rmtree(os.path.join(fp, n))
    bd = os.path.join(tgt, "debug", "build")
    for n in ("rtest", "_rtest"):
        shutil.rmtree(os.path.join(bd, n), ignore_errors=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib"]
    if kind == "full":
        cmd += ["--features", "extension-module"]
    rc, log = _run(cmd, d, e)
    if rc != 0 or not os.path.exists(out):
        return log
    return None


def load():
    """Returns the facts of the current tree: {'fns','consts','types','impls','scope','sha'}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ensure_driver()
        h = hashlib.sha256()
        _hash_dir(h, os.path.join(REPO, "src"), (".rs",))
        for f in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                h.update(open(p, "rb").read())
        _hash_dir(h, os.path.join(VERIF, "stubs"), (".rs", ".toml"))
        h.update(open(os.path.join(BUILD, "driver.stamp")).read().encode())
        sha = h.hexdigest()
        out = os.path.join(BUILD, "facts.json")
        stamp = os.path.join(BUILD, "facts.stamp")
        if os.path.exists(out) and os.path.exists(stamp):
            s = open(stamp).read().split()
            if len(s) == 2 and s[0] == sha:
                F = json.load(open(out))
                F["scope"], F["sha"] = s[1], sha
                return F
        scope = "full"
        log = _facts("full", out)
        if log is not None:
            scope = "subset"
            log2 = _facts("subset", out)
            if log2 is not None:
                raise BuildError("the tree does not type-check:\n" + log[-2500:] + "\n--- subset ---\n" + log2[-2500:])
        open(stamp, "w").write(sha + " " + scope)
        F = json.load(open(out))
        F["scope"], F["sha"] = scope, sha
        return F


if __name__ == "__main__":
    t = time.time()
    F = load()
    print(F["scope"], len(F["fns"]), "%.1fs" % (time.time() - t))
    t = time.time()
    F = load()
    print(F["scope"], len(F["fns"]), "%.1fs" % (time.time() - t))
