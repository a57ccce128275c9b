"""C28: every test file is loaded as a module of its own, registered while it runs, and removed after the tests."""
import string
from .. import pyc, rows
from ..pyc import Sources, Unk, brief
from ..rows import Bad
from ..pyx import VECNEW
from ..terms import *
from .c16 import guard

IMP = pyc.RUNNER + "_import_module_from_file"
RUN = pyc.RUNNER + "run_tests"
KEEP = ("m:replace", "call:str", "m:with_suffix", "m:as_posix", "m:removesuffix", "m:rstrip", "m:relative_to", "m:resolve", "call:os.fspath", "m:strip", "m:join", "join", "m:split",
        "call:os.path.relpath", "m:absolute", "call:pathlib.Path", "call:os.path.splitext", "m:removeprefix", "m:translate", "call:re.sub", "m:rsplit", "m:partition", "m:rpartition")


def check(R):
    R.rule("On every path that returns a module, it is made by module_from_spec of a spec for the given file itself under a name with a constant prefix and the file's whole "
           "path, put into sys.modules under that name before it is executed, executed exactly once and returned. run_tests loads each file in its own iteration, removes from "
           "sys.modules the names of exactly the modules loaded, and no test runs after a removal.")
    R.assume("importlib and sys.modules behave as documented; no installed package starts with the prefix")
    r = pyc.analyse(R, IMP, must=False)
    if r is not None:
        n, good = 0, True
        for status, x in r.rets:
            if status[0] == "ret":
                n += 1
                good &= guard(R, "load", IMP, load, r.e, x, r.e.freeze(x, status[1]))
        R.floor("paths that load a file", n, 1, IMP)
        if good:
            R.ok("load", "own file, own name, registered, executed once (%d paths)" % n)
    r = pyc.analyse(R, RUN)
    if r is not None:
        n, good = 0, True
        for status, x in r.rets:
            if status[0] == "ret":
                n += 1
                good &= guard(R, "clean", RUN, clean, r.e, x)
        R.floor("paths of a run", n, 1, RUN)
        if good:
            R.ok("clean", "every loaded name is removed, after the tests (%d paths)" % n)


def call(t, *names):
    return t.t == "op" and t.a[0] in ["call:" + n for n in names]


def load(e, x, v):
    evs = list(pyc.events(e, x.ev))
    if v.t == "op" and v.a[0] in ("m:get", "index", "call:sys.modules.get", "mapget", "getitem") and contains(v, lambda y: y.t == "g" and y.a[0] == "sys.modules") \
            or call(v, "sys.modules.get", "importlib.import_module") or call(v, "__import__"):
        raise Bad("cached", "a module already loaded is handed out instead of loading the file: " + show(v)[:80])
    if not call(v, "importlib.util.module_from_spec"):
        if contains(v, lambda y: y.t == "g" and y.a[0] == "sys.modules"):
            raise Bad("cached", "a module already loaded is handed out instead of loading the file: " + show(v)[:80])
        raise Unk("a module " + show(v)[:80])
    spec = v.a[1]
    if not call(spec, "importlib.util.spec_from_file_location"):
        raise Unk("a module specification " + show(spec)[:80])
    a = {i: y for i, y in enumerate(spec.a[1:])}
    name, path = spec.a[1], spec.a[2] if len(spec.a) > 2 else None
    for y in spec.a[1:]:
        if y.t == "kw":
            if y.a[0] == "location":
                path = y.a[1]
    if path is None:
        raise Unk("a specification without a file")
    p = path
    while p.t == "op" and p.a[0] in ("call:str", "m:resolve", "m:absolute", "call:os.fspath", "m:as_posix", "call:pathlib.Path") and len(p.a) == 2:
        p = p.a[1]
    if p.t != "param":
        if contains(path, lambda y: y.t == "param"):
            raise Bad("path", "the module is loaded from %s and not from the file itself" % show(path)[:80])
        raise Unk("the file " + show(path)[:80])
    named(e, x, name, p)
    reg = exe = None
    for i, (ev, nest) in enumerate(evs):
        if nest:
            continue
        if ev.a[0] in ("mutate", "lib") and "sys.modules" in show(ev.a[1] if isinstance(ev.a[1], N) else mk("g", str(ev.a[1]))):
            if ev.a[0] == "mutate" and ev.a[2] == "insert" or ev.a[0] == "lib" and str(ev.a[1]).endswith(("setdefault", "__setitem__")):
                args = ev.a[3] if ev.a[0] == "mutate" else ev.a[2]
                if args[0] is not name and not (args[0].t == "op" and args[0].a[0] in (".name", ".__name__")):
                    raise Bad("name", "the module is registered under %s and named %s" % (show(args[0])[:60], show(name)[:60]))
                if args[1] is not v:
                    raise Bad("registered", "what is registered is not the module: " + show(args[1])[:80])
                reg = i
                if ev.a[0] == "lib" and str(ev.a[1]).endswith("setdefault"):
                    raise Unk("sys.modules.setdefault")
            elif reg is not None and exe is None or exe is not None:
                raise Bad("unregistered", "the module is removed from sys.modules before its tests run")
        if ev.a[0] == "user" and contains(ev.a[1], lambda y: y.t == "op" and y.a[0] in (".exec_module", ".load_module")) and v in ev.a[2]:
            if exe is not None:
                raise Bad("twice", "the module is executed twice")
            exe = i
            if not contains(ev.a[1], lambda y: y is spec):
                raise Unk("a loader " + show(ev.a[1])[:80])
    if exe is None:
        if any(ev.a[0] == "user" and v in (ev.a[2] if isinstance(ev.a[2], tuple) else ()) for ev, _ in evs):
            raise Unk("a module executed in another way")
        raise Bad("unexecuted", "the module is handed out without having been executed (%s)" % brief(x.conds))
    if reg is None:
        raise Bad("unregistered", "the module is executed without being in sys.modules")
    if reg > exe:
        raise Bad("late", "the module is registered only after it was executed")


def named(e, x, name, p):
    """The name has a constant prefix, then the whole path."""
    parts = name.a if name.t == "cat" else (name,)
    if name.t == "op" and name.a[0] == "add":
        parts = name.a[1:]
    if not isc(parts[0]):
        if contains(name, lambda y: y is p) and plain(name, p):
            raise Bad("prefix", "the name of a module is the path alone, as that of an installed package may be: " + show(name)[:90])
        raise Unk("the name " + show(name)[:90])
    if not str(cval(parts[0])).strip("."):
        raise Bad("prefix", "the name of a module starts with nothing of its own")
    body = [y for y in parts[1:] if contains(y, lambda z: z is p)]
    if not body:
        raise Bad("same", "the name of a module does not depend on its file: " + show(name)[:90])
    for y in body:
        if plain(y, p):
            for z in walk(y):
                # directories and file are joined by nothing, or by what names are made of
                j = None
                if z.t == "op" and z.a[0] == "m:replace" and len(z.a) == 4 and isc(z.a[2]) and cval(z.a[2]) == "/":
                    j = z.a[3]
                elif z.t == "op" and z.a[0] in ("m:join", "join") and len(z.a) == 3:
                    j = next((q for q in z.a[1:] if isc(q)), None)
                if j is not None and isc(j) and isinstance(cval(j), str) and not cval(j).strip("_" + string.ascii_letters + string.digits):
                    raise Bad("joined", "files of different directories can get the same module name: the parts of the path are joined by %r" % cval(j))
            return
    narrow = lambda q: q.t == "op" and (q.a[0] in (".stem", ".name", "index", "call:os.path.basename") or q.a[0] == "pyslice" and not suffix(q))
    dirs = any(z.t == "op" and z.a[0] == ".parent" and len(z.a) == 2 and plain(z.a[1], p) and not any(narrow(q) and contains(q, lambda r: r is z) for q in walk(y)) for y in body for z in walk(y))
    last = any(contains(y, lambda z: z.t == "op" and z.a[0] in (".stem", ".name", "call:os.path.basename") and plain(z.a[1], p)) for y in body)
    if dirs and last:
        return
    if contains(name, lambda z: z.t == "op" and (z.a[0] in ("call:hash", "m:hexdigest", "call:id", "call:next") or z.a[0].startswith(("call:hashlib", "call:uuid", "py:")))):
        raise Unk("the name " + show(name)[:90])
    for y in body:
        if contains(y, lambda z: z.t == "op" and z.a[0] in (".stem", ".name", "call:os.path.basename", "call:inspect.getmodulename", "index") or z.t == "op" and z.a[0] == "pyslice" and not suffix(z)):
            raise Bad("base", "files of the same name in different directories can get the same module name: " + show(y)[:90])
    raise Unk("the name " + show(name)[:90])


def suffix(z):
    """A slice that cuts a constant suffix such as .py."""
    return (len(z.a) > 3 and isc(z.a[2]) and cval(z.a[2]) is None and (isc(z.a[3]) and cval(z.a[3]) == -3 or "neg" in show(z.a[3]) or "sub" in show(z.a[3])))


def plain(y, p, parent=False):
    """Whether a term is the whole path (or that of its directory), only rewritten character by character or shortened by its suffix."""
    while True:
        if y is p:
            return not parent
        if y.t in ("seq", "coll"):
            y = y.a[0]
            continue
        if y.t == "cat":
            c = [z for z in y.a if not isc(z)]
            if len(c) != 1:
                return False
            y = c[0]
            continue
        if y.t != "op":
            return False
        n = y.a[0]
        if parent and n == ".parent" and len(y.a) == 2:
            y, parent = y.a[1], False
        elif n == "pyslice" and suffix(y):
            y = y.a[1]
        elif n in ("m:replace",) and len(y.a) == 4:
            y = y.a[1]
        elif n == "m:relative_to":
            y = y.a[1]
        elif n in ("call:str", "m:with_suffix", "m:as_posix", "m:removesuffix", "m:resolve", "call:os.fspath", "call:os.path.relpath", "m:absolute", "call:pathlib.Path", ".parts", "m:removeprefix") and len(y.a) >= 2:
            y = y.a[1]
        elif n in ("m:join", "join") and len(y.a) == 3:
            y = y.a[2] if contains(y.a[2], lambda z: z is p) else y.a[1]
        elif n == "m:split" and len(y.a) <= 3:
            y = y.a[1]
        else:
            return False


def removal(ev):
    """The key a change of sys.modules removes; None for other events."""
    if ev.a[0] == "lib" and str(ev.a[1]) in ("sys.modules.pop", "sys.modules.__delitem__"):
        return ev.a[2][0]
    if ev.a[0] == "lib" and str(ev.a[1]) in ("sys.modules.clear", "sys.modules.popitem"):
        raise Bad("all", "modules that were not loaded from test files are removed")
    if ev.a[0] == "mutate" and show(ev.a[1]) == "g[sys.modules]":
        if ev.a[2] in ("remove", "pop", "delete", "del"):
            return ev.a[3][0] if isinstance(ev.a[3], tuple) else ev.a[3]
        if ev.a[2] in ("clear",):
            raise Bad("all", "modules that were not loaded from test files are removed")
    return None


def isload(t):
    return t.t == "op" and t.a[0] == "py:_import_module_from_file"


def clean(e, x):
    evs = list(pyc.events(e, x.ev))
    rem, runs, loads = [], [], []
    for i, (ev, nest) in enumerate(evs):
        k = removal(ev)
        if k is not None:
            rem.append((i, k, nest))
        elif ev.a[0] == "call" and str(ev.a[1]).endswith("_run_single_test"):
            runs.append((i, nest))
        elif ev.a[0] == "call" and str(ev.a[1]).endswith("_import_module_from_file"):
            loads.append((i, ev, nest))
    if not loads:
        if any(k.t == "next" for k in x.conds):
            raise Unk("a run without loading")
        return
    for i, ev, nest in loads:
        f = ev.a[2][0]
        if not nest:
            raise Unk("a file loaded outside of a loop")
        L = nest[-1][0]
        if not contains(f, lambda y: y.t == "elem" and y.a[1] == L and contains(y, lambda z: z.t == "param")):
            if contains(f, lambda y: y.t in ("lv", "fold", "mut") or y.t == "op" and y.a[0] in ("index", "popped", "pop")):
                raise Unk("the file loaded is " + show(f)[:80])
            raise Bad("file", "the file loaded is " + show(f)[:80])
    if not rem:
        if not any(True for _ in runs):
            return
        raise Bad("kept", "the modules loaded are not removed (%s)" % brief(x.conds))
    for i, k, nest in rem:
        own = [y for y in walk(k) if y.t == "elem" and any(y.a[1] == L for L, _ in nest)]
        direct = [y for y in walk(k) if isload(y)]
        for j, rn in runs:
            if j < i:
                continue
            common = 0
            while common < min(len(nest), len(rn)) and nest[common] == rn[common]:
                common += 1
            if common and direct:
                if j > i:
                    raise Bad("early", "tests of a module run after it was removed from sys.modules")
                continue
            if not common or j > i:
                # different iterations of the same loop come in both orders
                raise Bad("early", "tests run after modules were removed from sys.modules")
        if direct:
            if not (k.t == "op" and k.a[0] == ".__name__" and isload(k.a[1])):
                raise Unk("the name removed is " + show(k)[:80])
            continue
        names(e, x, k, nest)


def names(e, x, k, nest):
    """The key goes over the names of all loaded modules."""
    t = k
    if t.t == "op" and t.a[0] == ".__name__":
        t = t.a[1]
    if t.t != "elem":
        if contains(t, lambda y: y.t == "elem"):
            raise Bad("name", "what is removed is not the name of a loaded module: " + show(k)[:80])
        raise Unk("the name removed is " + show(k)[:80])
    L = t.a[1]
    rec = e.loops[L]
    src, stages = pyc.nextkey(e, L)
    if any(s.t not in ("rev", "enumerate", "map") for s in stages):
        raise Bad("part", "only some of the modules are removed")
    for c in rec.conts:
        if not any(removal(ev) is k for ev, _ in pyc.events(e, c.ev)):
            if any(q.t == "op" and q.a[0] == "contains" and w is False and contains(q, lambda y: y.t == "g" and y.a[0] == "sys.modules") for q, w in c.conds.items()):
                continue
            raise Bad("part", "a loaded module is passed over (%s)" % brief(c.conds))
    for kind, conds, ev, groups in rec.exits:
        if kind[0] == "exit" and any(q.t == "next" and q.a[2] == L and w is True for q, w in conds.items()):
            raise Bad("part", "the modules after some point are not removed")
    recorded(e, src)


def recorded(e, src, depth=4):
    """The collection holds the module loaded (or its name) of every iteration that loads one."""
    t = pyc.strip(src)
    if t.t == "seq":
        t = pyc.strip(t.a[0])
    if t.t == "mut" and t.a[0] is VECNEW and len(t.a) == 2 and t.a[1].a[0] == "extend":
        t = pyc.strip(t.a[1].a[1])
    if t.t == "op" and t.a[0] in ("pyslice", "islice"):
        raise Bad("part", "only some of the modules are removed: " + show(t)[:80])
    if t.t != "mut":
        raise Unk("the names removed are those of " + show(t)[:80])
    if depth:
        r = None
        try:
            r = rows.rowlist(e, t)
        except (Bad, Unk):
            pass
        if r is not None and not any(contains(v, isload) for c, v in r.rows):
            for c, v in r.rows:
                w = v.a[1] if v.t == "op" and v.a[0] in (".__name__", ".name") else v
                if w.t != "elem" or w.a[1] != r.L:
                    raise Unk("the names removed are " + show(v)[:80])
            return recorded(e, r.src, depth - 1)
    ls = [o for o in t.a[1:] if o.a[0] == "loop"]
    if len(ls) != 1 or len(t.a) > 2 and any(o.a[0] not in ("loop", "sort", "reverse") for o in t.a[1:]):
        raise Unk("the names removed are those of " + show(t)[:80])
    M, pk = ls[0].a[1], ls[0].a[2]
    rm = e.loops[M]
    for c in rm.conts:
        done = any(ev.a[0] == "call" and str(ev.a[1]).endswith("_discover_tests_in_module") for ev, _ in pyc.events(e, c.ev))
        u = c.upd.get(pk)
        ops = u.a[1:] if u is not None and u.t == "mut" else ()
        if not ops:
            if done:
                raise Bad("kept", "a module is loaded and not recorded for removal (%s)" % brief(c.conds))
            continue
        for o in ops:
            w = o.a[-1] if o.a[0] == "push" else o.a[1] if o.a[0] == "insert" else None
            if w is None:
                raise Unk("names recorded by " + o.a[0])
            if w.t == "op" and w.a[0] in (".__name__", ".name"):
                w = w.a[1]
            if not isload(w):
                raise Bad("name", "what is recorded for removal is not the name of the module loaded: " + show(w)[:80])
