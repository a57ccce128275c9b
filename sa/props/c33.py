"""C33: rtest itself writes nothing into the project."""
import ast
from .. import ctx, mir, pyfiles
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from . import c04, c26
from .c16 import guard
from .c25 import calls, callers, root
from .c32 import leaves, target

FS = {"write": 0, "rename": 0, "remove_file": 0, "remove_dir": 0, "remove_dir_all": 0, "create_dir": 0, "create_dir_all": 0, "copy": 1, "hard_link": 1, "soft_link": 1, "set_permissions": 0}
FILE = {"create": 0, "create_new": 0, "create_buffered": 0}
HANDLE = {"set_len", "set_permissions", "set_times", "set_modified"}
READS = {"read", "read_to_string", "read_dir", "read_link", "metadata", "symlink_metadata", "canonicalize", "exists"}
IN_DIR = {"new_in", "with_prefix_in", "with_suffix_in", "tempdir_in", "tempfile_in", "make_in"}
KEEP = {"persist", "persist_noclobber", "into_path", "keep", "disable_cleanup", "into_temp_path"}
OPTS = {"write", "append", "truncate", "create", "create_new"}
EVENTS = ("files", "print")


def short(t):
    return show(t)[:80]


def site(t):
    """(what, index of the written path or None) of a call that changes files."""
    p = t["f"]["path"].split("<")[0]
    q = t["f"]["path"]
    last = q.split("::")[-1].split("<")[0]
    if q.startswith("std::fs::") and q.count("::") == 2 and last in FS:
        return last, FS[last]
    if q.startswith("std::fs::File::"):
        if last in FILE:
            return "File::" + last, FILE[last]
    if q == "std::fs::OpenOptions::open":
        return "OpenOptions::open", 1
    if q.startswith(("std::fs::DirBuilder::",)) and last == "create":
        return "DirBuilder::create", 1
    if q.startswith(("std::os::unix::fs::", "std::os::fd")) and last in ("symlink", "chown", "lchown", "fchown", "mkfifo"):
        return last, 1 if last == "symlink" else 0
    if q.startswith("tempfile::"):
        if last in IN_DIR:
            tys = t.get("argtys") or []
            return "tempfile " + last, len(tys) - 1
        if last in ("persist", "persist_noclobber"):
            return "tempfile " + last, 1
    if q.startswith("log4rs::") or q.startswith("simplelog::") or q.startswith("libc::"):
        if last in ("unlink", "rename", "mkdir", "rmdir", "creat", "open", "truncate"):
            return q, 0
    return None


def append_opts(f):
    """OpenOptions of the function are given a writing mode."""
    return any(root(g) == root(f) and t["f"]["path"].startswith("std::fs::OpenOptions::") and t["f"]["path"].split("::")[-1] in OPTS for g, t in calls())


def flat(e, evs, d=0):
    for x in evs:
        yield x
        if x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                yield from flat(e, c.ev, d + 1)
        elif x.a[0] == "spawn" and d < 10:
            for _, evs2, _ in e.thread_paths(x.a[1]):
                yield from flat(e, evs2, d + 1)


def place(e, t, d=0):
    """'temp' (inside the run's temporary directory), 'null', 'param' (given by the caller), 'other', or None."""
    t = target(t)
    if t.t == "elem" and t.a[0].t == "seq" and d < 4:
        try:
            ls, ops = leaves(e, t.a[0].a[0])
            ks = {place(e, v, d + 1) for v, _ in ls}
            if len(ks) == 1 and None not in ks:
                return ks.pop()
        except Unk:
            pass
    if c26.is_dir(t):
        return "temp"
    if isc(t):
        return "null" if cval(t) == "/dev/null" else "other"
    if t.t == "op" and t.a[0] == "pjoin":
        base = place(e, t.a[1], d + 1)
        if base == "temp":
            for x in t.a[2:]:
                if isc(x) and (str(cval(x)).startswith("/") or ".." in str(cval(x)).split("/")):
                    return "other"
                if x.t == "param" or x.t == "op" and str(x.a[0]).startswith((".", "pl:")):
                    return None
        return base
    if t.t == "elem":
        inside = [y for y in walk(t) if y.t == "op" and y.a[0] == "tempdir"]
        if inside:
            return None
    if contains(t, lambda y: y.t == "op" and y.a[0] == "tempdir"):
        return None
    if contains(t, lambda y: y.t == "op" and str(y.a[0]).split("::")[-1] in ("tempdir", "temp_dir_of")):
        return None
    if contains(t, lambda y: y.t == "param"):
        return "param"
    return "other"


def written(fn):
    """For every writing call on a path of the function: (what, site function, place)."""
    class Silent:
        said = []

        def __getattr__(self, n):
            return lambda *a, **k: self.said.append(a)
    R = Silent()
    caps = list(mir.CAPS)
    r = ctx.run(R, fn, events=EVENTS, opaque=ctx.named(*c04.MAIN_OPAQUE)) if fn.startswith("pyo3::") else ctx.run(R, fn, events=EVENTS)
    mir.CAPS[:] = caps
    if r is None:
        return None
    e = r.e
    out = []
    for st, ret in r.rets:
        for x in flat(e, st.ev):
            if x.a[0] != "file":
                continue
            k = site({"f": {"path": x.a[1]}, "argtys": [None] * len(x.a[2])})
            if k is None:
                continue
            what, i = k
            args = x.a[2]
            out.append((what, x.a[3] if len(x.a) > 3 else None, place(e, args[i]) if i < len(args) else None, short(args[i]) if i < len(args) else ""))
    return out


def rust(R):
    n = 0
    found = {}
    for f, t in calls():
        if f.startswith("std::") or "::tests::" in f:
            continue
        n += 1
        k = site(t)
        if k and not (k[0] == "OpenOptions::open" and not append_opts(f)):
            found.setdefault((root(f), k[0]), 0)
            found[root(f), k[0]] += 1
        elif t["f"]["path"].startswith("std::fs::") and k is None and t["f"]["path"].split("::")[-1] in HANDLE:
            found.setdefault((root(f), t["f"]["path"].split("::")[-1]), 0)
    R.count("Rust call sites", n)
    R.floor("Rust call sites", n, 500)
    for (fn, what), _ in sorted(found.items()):
        guard(R, "rust:%s:%s" % (fn, what), fn, decide, R, fn, what)
    if not found:
        R.ok("rust", "%d call sites, none of which writes, moves or deletes a file" % n)


def makes_temp(fn):
    return any(root(f) == fn and (t["f"]["path"].startswith("tempfile::") or "TempDir" in (t.get("dty") or "")) for f, t in calls())


def holds_temp(fn, seen=()):
    """The function or one above it has a temporary directory."""
    return makes_temp(fn) or any(holds_temp(c, seen + (fn,)) for c in callers(fn) if c not in seen)


def decide(R, fn, what, seen=()):
    """A function that writes is judged where the path comes from."""
    out = written(fn)
    if out is None:
        raise Unk("%s cannot be read" % fn)
    mine = [x for x in out if x[0] == what]
    up = [c for c in callers(fn) if c not in seen]
    if not mine:
        raise Unk("the %s of %s is on no path that was read" % (what, fn))
    for w, s, p, shown in mine:
        if p == "other":
            raise Bad("writes", "%s of %s is outside the run's temporary directory" % (w, shown))
    if any(p is None for _, _, p, _ in mine):
        raise Unk("the path of %s is not understood" % what)
    if any(p == "param" for _, _, p, _ in mine):
        up = [c for c in up if holds_temp(c)]
        if not up:
            raise Bad("writes", "%s of a path no temporary directory can be in: %s" % (what, next(x[3] for x in mine if x[2] == "param")))
        for c in up:
            decide(R, c, what, seen + (fn,))
    R.ok("rust:%s:%s" % (fn, what), "inside the run's temporary directory")


def python(R):
    P = pyfiles.Package()
    R.count("Python calls", len(P.calls))
    R.floor("Python calls", len(P.calls), 50)
    if not P.dest:
        R.unk("py:out", "the worker has no --out option")
    n = 0
    for f, c, what, t, sure in P.sinks():
        n += 1
        key = "py:%s:%s" % (f.qual, what)
        where = "%s (line %d)" % (f.qual, c.lineno)
        if t is None:
            R.unk(key, "the file of %s is not named in the call" % what)
            continue
        k = P.kind(f, t)
        if k in ("null", "fd") or k == "out" and what not in ("unlink", "rmdir"):
            R.ok(key, "%s: %s" % (what, k))
        elif k == "near":
            if what == "mkdir" or what == "os.makedirs" or what == "os.mkdir":
                R.ok(key, "the directory of the result file")
            else:
                R.unk(key, "%s beside the result file" % what)
        elif k == "other" and sure:
            R.bad(key, where, "%s of %s, which is not the result file named by --out" % (what, ast.unparse(t)[:60]))
        else:
            R.unk(key, "the target of %s is not understood: %s" % (what, ast.unparse(t)[:60]))
    R.floor("Python file effects", n, 1)


def check(R):
    R.rule("Every call of the Rust code is classified; one that writes, moves or deletes files is followed to where its path comes from, which must be the temporary directory made for the run. Every call of the Python package that opens a file for writing, or moves or deletes one, is followed through variables, parameters and records to the value of --out.")
    R.assume("Python's bytecode cache and what pytest itself writes are not counted; library calls other than those listed change no files")
    guard(R, "rust", "src", rust, R)
    guard(R, "py", "python/rtest", python, R)
