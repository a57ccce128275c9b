"""C29: every pytest setting reaches the place it configures, and no other."""
from .. import ctx, entry, mir
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from .c16 import guard
from .c32 import calls, leaves, natural, target, LOSSY

READ = "config::read_pytest_config"
KEYS = ("testpaths", "python_files", "python_classes", "python_functions")
SECTION = ("tool", "pytest", "ini_options")
DEFAULTS = {"python_files": ["test_*.py", "*_test.py"], "python_classes": ["Test*"], "python_functions": ["test*"]}
CHANGED = {"to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "trim_start_matches", "trim_end_matches", "trim_matches",
           "strip_prefix", "strip_suffix", "file_name", "file_stem", "parent", "canonicalize", "escape"}


def short(t):
    return show(t)[:70]


def text(t):
    """A constant string."""
    return isc(t) and isinstance(cval(t), str)


# ---- reading the file ----

def content(t):
    """The file whose text is t."""
    if t.t == "op" and t.a[0] in ("pl:Ok", "pl:Some") and calls(t.a[1], "read_to_string"):
        return t.a[1].a[1]
    return None


def keyof(t):
    """The keys from the top of the document to a value, None if it is not a part of the document."""
    out = []
    while t.t == "op":
        n = t.a[0]
        if n == "pl:Some" and calls(t.a[1], "get"):
            g = t.a[1]
            if len(g.a) != 3 or not text(g.a[2]):
                return None
            out.append(cval(g.a[2]))
            t = g.a[1]
        elif n in ("pl:Some", "pl:Ok") and (calls(t.a[1], "as_table") or calls(t.a[1], "try_into")):
            t = t.a[1].a[1]
        elif n == "pl:Table":
            t = t.a[1]
        elif n == "pl:Ok" and (calls(t.a[1], "from_str") or calls(t.a[1], "parse")):
            return tuple(reversed(out)) if content(t.a[1].a[1]) is not None else None
        else:
            return None
    return None


def sub(t):
    """The keys of a get."""
    if calls(t, "get") and len(t.a) == 3 and text(t.a[2]):
        k = keyof(t.a[1])
        return None if k is None else k + (cval(t.a[2]),)
    return None


class Facts:
    """What a path says of the document."""

    def __init__(self, p):
        self.unreadable = False
        self.absent, self.kind, self.no = set(), {}, {}
        self.odd = []
        for k, v in p.items():
            if not self.note(k, v):
                self.odd.append(k)

    def note(self, k, v):
        if k.t in ("next", "exit"):
            return True
        if k.t == "discr":
            x = k.a[0]
            if calls(x, "read_to_string"):
                self.unreadable |= v != "Ok"
                return True
            if (calls(x, "from_str") or calls(x, "parse")) and content(x.a[1]) is not None:
                self.unreadable |= v != "Ok"
                return True
            s = sub(x)
            if s is not None:
                if v == "None":
                    self.absent.add(s)
                return v in ("None", "Some")
            s = keyof(x)
            if s is not None and isinstance(v, str):
                self.kind[s] = v
                return True
            for n, kind in (("as_table", "Table"), ("as_array", "Array"), ("as_str", "String")):
                if calls(x, n) and keyof(x.a[1]) is not None:
                    self.is_(keyof(x.a[1]), kind, v in ("Some", "Ok"))
                    return True
            return False
        if calls(k, "exists") or calls(k, "is_file") or calls(k, "try_exists"):
            if not ours(k.a[1]):
                return False
            self.unreadable |= v is False
            return True
        for n, kind in (("is_table", "Table"), ("is_array", "Array"), ("is_str", "String")):
            if calls(k, n) and keyof(k.a[1]) is not None:
                self.is_(keyof(k.a[1]), kind, v)
                return True
        return False

    def is_(self, s, kind, yes):
        if yes:
            self.kind[s] = kind
        else:
            self.no.setdefault(s, set()).add(kind)

    def state(self, key):
        if self.unreadable:
            return "none"
        full = SECTION + (key,)
        for i in range(1, len(full) + 1):
            if full[:i] in self.absent:
                return "none"
        for i in range(len(full)):
            if self.kind.get(full[:i], "Table") != "Table" or "Table" in self.no.get(full[:i], ()):
                return "none"
        if full in self.kind:
            return self.kind[full]
        no = self.no.get(full, set())
        if {"Array", "String"} <= no:
            return "Other"
        if "Array" in no:
            return "not an array"
        if "String" in no:
            return "not a string"
        return "unknown"


def ours(t):
    """pyproject.toml of the root."""
    t = target(t)
    return t.t == "op" and t.a[0] == "pjoin" and len(t.a) == 3 and target(t.a[1]).t == "param" and isc(t.a[2]) and cval(t.a[2]) == "pyproject.toml"


def sources(t, file):
    """The files read for a value."""
    for y in walk(t):
        if calls(y, "read_to_string"):
            f = target(y.a[1])
            if ours(f):
                file.add(f)
                continue
            if f.t == "op" and f.a[0] == "pjoin" and len(f.a) == 3:
                if text(f.a[2]) and cval(f.a[2]) != "pyproject.toml":
                    raise Bad("file", "the settings are read from %s" % cval(f.a[2]))
                if target(f.a[1]).t == "op" and any(calls(z, n) for z in walk(f.a[1]) for n in ("parent", "current_dir", "canonicalize", "ancestors")) and not calls(target(f.a[1]), "canonicalize"):
                    raise Bad("file", "the settings are read from " + short(f))
            elif text(f):
                raise Bad("file", "the settings are read from %s of the current directory" % cval(f))
            raise Unk("the settings are read from " + short(f))


def plain(key, v, at):
    """A string taken over unchanged: the term it is taken from."""
    while True:
        v = target(v)
        if v.t == "op" and len(v.a) == 2 and v.a[0] in ("ptext",):
            v = v.a[1]
            continue
        if v.t == "op" and v.a[0] in ("pl:Some", "pl:Ok") and v.a[1].t == "op" and str(v.a[1].a[0]).split("::")[-1] in CHANGED:
            v = v.a[1]
        if v.t == "op" and str(v.a[0]).split("::")[-1] in CHANGED:
            raise Bad("changed:" + key, "a value of %s is changed: %s" % (key, short(v)))
        if v.t in ("cat", "fmt") or v.t == "op" and v.a[0] in ("cat", "pjoin"):
            raise Bad("changed:" + key, "a value of %s is changed: %s" % (key, short(v)))
        return v


def arr_of(t):
    """The keys of the array t is."""
    if t.t == "op" and t.a[0] == "pl:Array":
        return keyof(t.a[1])
    if t.t == "op" and t.a[0] == "pl:Some" and calls(t.a[1], "as_array"):
        return keyof(t.a[1].a[1])
    return None


def str_of(t):
    if t.t == "op" and t.a[0] == "pl:String":
        return keyof(t.a[1])
    if t.t == "op" and t.a[0] == "pl:Some" and calls(t.a[1], "as_str"):
        return keyof(t.a[1].a[1])
    return None


def stages_ok(key, st):
    for x in st or ():
        n = x if isinstance(x, str) else str(x.t if x.t != "op" else x.a[0])
        if n in LOSSY:
            raise Bad("part:" + key, "only some of the values of %s are taken (%s)" % (key, n))
        if n == "rev" and key == "testpaths":
            raise Bad("order:" + key, "the values of %s are taken backwards" % key)


def value(e, key, t):
    """("empty",), ("array", keys) or ("string", keys): what a setting's value is made of."""
    k = splitted(key, t)
    if k is not None:
        return "string", k
    if t.t == "default" or t.t == "op" and str(t.a[0]).split("::")[-1] == "default":
        return "empty", None
    ls, ops = leaves(e, t)
    for o in ops:
        n = o.a[0]
        if n in ("pop", "truncate", "remove", "clear", "drain", "swap_remove", "retain", "split_off") or n in ("reverse", "sort") and key == "testpaths":
            raise Bad("whole:" + key, "the values of %s are not kept as they are (%s)" % (key, n))
        raise Unk("the values of %s go through %s" % (key, n))
    if not ls:
        return "empty", None
    out = set()
    for v, chain in ls:
        if not chain:
            x = plain(key, v, ())
            k = str_of(x)
            if k is not None:
                raise Bad("split:" + key, "the string %s is taken as one value" % key)
            if text(x):
                raise Bad("constant:" + key, "%s holds '%s' whatever the file says" % (key, cval(x)))
            raise Unk("a value of %s is %s" % (key, short(x)))
        out.add(one(e, key, v, chain))
    if len(out) != 1:
        raise Unk("the values of %s come from several places" % key)
    return out.pop()


def splitted(key, t):
    if t.t in ("coll", "seq") and isinstance(t.a[0], N):
        t = t.a[0]
    if t.t == "of" or show(t).startswith("of:"):
        nm, x = ofparts(t)
        if x is None:
            return None
        k = str_of(x)
        if k is None:
            return None
        n = nm.split("::")[-1]
        if n in ("split_whitespace", "split_ascii_whitespace"):
            return k
        if n in ("chars", "bytes", "char_indices", "lines", "split_terminator"):
            raise Bad("split:" + key, "the string %s is taken apart by %s" % (key, n))
        raise Unk("a string taken apart by " + nm)
    return None


def ofparts(t):
    if t.t == "op" and str(t.a[0]).startswith("of:"):
        return t.a[0], t.a[1]
    if str(t.t).startswith("of:"):
        return t.t, t.a[0]
    if t.t == "of":
        return t.a[0], t.a[1]
    return "", None


def string_elem(x):
    """The array element whose string x is."""
    if x.t == "op" and (x.a[0] == "pl:String" or x.a[0] == "pl:Some" and calls(x.a[1], "as_str")):
        y = x.a[1] if x.a[0] == "pl:String" else x.a[1].a[1]
        return y if y.t == "elem" else None
    return None


def one(e, key, v, chain):
    """Where one value comes from, and that all of its kind are taken."""
    x = plain(key, v, chain)
    # values of a list gathered before, whole
    el = x if x.t == "elem" else string_elem(x)
    if el is None:
        raise Unk("a value of %s is %s" % (key, short(x)))
    L = el.a[1]
    src = el.a[0]
    if src.t == "seq" and arr_of(src.a[0]) is not None:
        if el is x:
            raise Unk("a value of %s is %s" % (key, short(x)))
        k, kind = arr_of(src.a[0]), "array"
    elif splitted(key, src) is not None:
        k, kind = splitted(key, src), "string"
    elif src.t == "seq":
        kind, k = value(e, key, src.a[0])
        if kind == "empty":
            raise Unk("values of " + short(src))
    else:
        raise Unk("values of " + short(src))
    every(e, key, L, el, x)
    return kind, k


def every(e, key, L, el, x):
    """A loop takes every string it is given."""
    rec = e.loops[L]
    src, st = ctx.sources(rec)
    stages_ok(key, st)
    for xx in rec.exits:
        if not natural(xx, L):
            on = [k for k, v in xx[1].items() if k.t != "next"]
            if any(k.t == "discr" for k in on) and all(k.t == "discr" and (calls(k.a[0], "as_str") or k.a[0] is el) for k in on):
                raise Unk("a value that is no string ends the list")
            raise Bad("part:" + key, "only some of the values of %s are taken" % key)
    for c in rec.conts:
        for p in c.paths():
            if not any(u.t == "mut" for u in c.upd.values()):
                # skipped: not a string
                if any(k.t == "discr" and (calls(k.a[0], "as_str") and v == "None" or k.a[0] is el and v != "String") or calls(k, "is_str") and v is False for k, v in p.items()):
                    continue
                on = [k for k, v in p.items() if k.t != "next" and contains(k, lambda y: y is el)]
                if any(contains(k, lambda y: calls(y, "trim") or y.t == "op" and y.a[0] == "is_empty") for k in on):
                    raise Unk("some values of %s are left out: %s" % (key, short(on[0])))
                raise Bad("part:" + key, "some values of %s are left out%s" % (key, ": " + show(on[0])[:60] if on else ""))


def reading(R):
    caps = list(mir.CAPS)
    mir.CAPS[:] = [6000, 6000]
    try:
        r = ctx.run(R, READ)
    finally:
        mir.CAPS[:] = caps
    if r is None:
        return None
    e, n, files, seen = r.e, 0, set(), set()
    for s, ret in r.outcomes() if hasattr(r, "outcomes") else r.rets:
        if ret.t == "default" or ret.t == "op" and str(ret.a[0]).split("::")[-1] == "default":
            fields = {k: None for k in KEYS}
        elif ret.t == "agg":
            fields = dict(ret.a[2])
        else:
            raise Unk("the settings are " + short(ret))
        vals = {}
        for key in KEYS:
            if key not in fields:
                raise Unk("no field " + key)
            vals[key] = ("empty", None) if fields[key] is None else value(e, key, fields[key])
            if fields[key] is not None:
                sources(fields[key], files)
        for p in s.paths(20000):
            for k in p:
                if k not in seen:
                    seen.add(k)
                    sources(k, files)
            f = Facts(p)
            for key in KEYS:
                n += 1
                decide(e, key, vals[key], f)
    if not files:
        raise Unk("no file is read")
    return "%d settings on %d ways to read the file, each from its own key" % (n, len(r.rets))


def trivial(k):
    """A question whether a list is empty."""
    return k.t == "op" and (k.a[0] == "is_empty" or k.a[0] in ("eq", "lt") and any(isc(x) and cval(x) == 0 for x in k.a[1:]))


def of_own(e, key, k):
    """A condition on the setting's own value."""
    for y in walk(k):
        if y.t in ("mut", "coll"):
            try:
                if value(e, key, y)[1] == SECTION + (key,):
                    return True
            except (Unk, Bad):
                pass
    return False


def decide(e, key, v, f):
    kind, k = v
    own = SECTION + (key,)
    if kind != "empty" and k != own:
        raise Bad("own:" + key, "%s is read from %s" % (key, ".".join(k)))
    st = f.state(key)
    if kind == "empty":
        if st in ("none", "Other") or st not in ("Array", "String", "unknown", "not an array", "not a string"):
            return
        mine = [k for k in f.odd if contains(k, lambda y: sub(y) == own) or not contains(k, lambda y: sub(y) is not None)]
        if any(trivial(k) and of_own(e, key, k) for k in f.odd):
            return
        own = [k for k in f.odd if not trivial(k) and of_own(e, key, k)]
        if own:
            raise Bad("dropped:" + key, "%s is left empty when %s" % (key, short(own[0])))
        other = [k for k in mine if any(of_own(e, q, k) for q in KEYS if q != key)]
        if other and len(other) == len(mine) and st in ("unknown", "Array", "String"):
            raise Bad("dropped:" + key, "%s is left empty depending on another setting: %s" % (key, short(other[0])))
        if mine:
            raise Unk("%s is left empty when %s" % (key, short(mine[0])))
        what = {"Array": "an array", "String": "a string"}.get(st)
        if st == "unknown" and not f.odd and not f.absent and not f.kind:
            raise Bad("dropped:" + key, "%s is never read" % key)
        others = [".".join(x) for x in sorted(f.absent)] + ["%s = %s" % (".".join(x), y) for x, y in sorted(f.kind.items()) if y != "Table" and x != own]
        raise Bad("dropped:" + key, "%s is left empty %s%s" % (key, "though it is " + what if what else "without looking at it" if st == "unknown" else "when it is " + st,
                                                         " (with %s)" % ", ".join(others)[:90] if st == "unknown" and others else ""))
    if kind == "array" and st == "String" or kind == "string" and st == "Array":
        raise Unk("%s: %s read as %s" % (key, st, kind))


# ---- where it goes ----

def strip(t):
    while True:
        t = target(t)
        if t.t in ("coll", "seq") and isinstance(t.a[0], N) and not show(t.a[0]).startswith("of:"):
            t = t.a[0]
        else:
            return t


def setting(t):
    """(name, root) when t is a setting as read."""
    t = strip(t)
    if t.t == "op" and str(t.a[0]).startswith(".") and t.a[0][1:] in KEYS and calls(t.a[1], "read_pytest_config"):
        return t.a[0][1:], t.a[1].a[1]
    return None


def listed(e, t):
    """The strings of a list of constants."""
    try:
        ls, ops = leaves(e, t)
    except Unk:
        return None
    out = []
    for v, chain in ls:
        v = target(v)
        if chain or not text(v):
            return None
        out.append(cval(v))
    return None if ops else out


def emptiness(p, name):
    """What a path says of a setting's emptiness."""
    for k, v in p.items():
        if k.t != "op":
            continue
        if k.a[0] == "is_empty" and setting(k.a[1]) and setting(k.a[1])[0] == name:
            return v
        if k.a[0] in ("eq", "lt") and len(k.a) == 3 and contains(k, lambda y: y.t == "op" and y.a[0] == "len" and setting(y.a[1]) and setting(y.a[1])[0] == name):
            z = [x for x in k.a[1:] if isc(x)]
            if z and cval(z[0]) == 0:
                return v if k.a[0] == "eq" else not v
    return None


def used(R, e, where, name, t, ps, root, defaults=True):
    """A list of patterns is the setting of that name, or its default when the setting is empty."""
    own = setting(t)
    # the setting copied by a loop
    if own is None:
        own = copied(e, name, t)
    if own:
        if own[0] != name:
            raise Bad("%s:%s" % (where, name), "%s: %s is given %s" % (where, name, own[0]))
        if not root(own[1]):
            raise Bad("%s:root" % where, "%s: the settings are those of %s" % (where, short(own[1])))
        for p in ps:
            if defaults and emptiness(p, name) is not False:
                if emptiness(p, name) is True:
                    raise Bad("%s:%s" % (where, name), "%s: %s has no default" % (where, name))
                raise Unk("%s: %s may be empty" % (where, name))
        return "own"
    const = listed(e, t)
    if const is None:
        raise Unk("%s: %s is %s" % (where, name, short(t)))
    for p in ps:
        v = emptiness(p, name)
        if v is True:
            continue
        if v is False:
            raise Bad("%s:%s" % (where, name), "%s: a configured %s is not used" % (where, name))
        on = [k for k, b in p.items() if contains(k, lambda y: setting(y) is not None)]
        if [k for k in on if contains(k, lambda y: setting(y) is not None and setting(y)[0] == name)]:
            raise Unk("%s: %s has its default when %s" % (where, name, short(on[0])))
        raise Bad("%s:%s" % (where, name), "%s: the default of %s is used whatever is configured" % (where, name))
    if sorted(const) != sorted(DEFAULTS[name]):
        raise Bad("default:" + name, "%s: the default of %s is %s" % (where, name, const))
    return "default"


def copied(e, name, t):
    """The setting a list is an unchanged copy of."""
    try:
        ls, ops = leaves(e, t)
    except Unk:
        return None
    if ops or len(ls) != 1 or len(ls[0][1]) != 1:
        return None
    v, chain = ls[0]
    x = plain(name, v, chain)
    if x.t != "elem" or x.a[0].t != "seq":
        return None
    s = setting(x.a[0].a[0])
    if s is None:
        return None
    every(e, name, x.a[1], x, x)
    return s


def cwd(t):
    return any(calls(y, "get_current_dir") or calls(y, "current_dir") for y in walk(t))


def running(R):
    """The native run."""
    r, ps = entry.paths(R, entry.MAIN)
    if r is None:
        return None
    n, got = 0, set()
    for p in ps:
        for name, args, conds in p.calls:
            if name.split("::")[-1] != "execute_native":
                continue
            n += 1
            cl = p.conds_list
            cfg = target(args[0])
            if cfg.t != "agg":
                raise Unk("the configuration of the native run is " + short(cfg))
            f = dict(cfg.a[2])
            for key in ("python_classes", "python_functions", "python_files"):
                if key in f:
                    got.add((key, used(R, r.e, "native run", key, f[key], cl, cwd)))
                else:
                    raise Unk("no " + key)
            scan = [y for y in walk(args[1]) if calls(y, "collect_test_files")]
            if not scan:
                raise Unk("the files executed are " + short(args[1]))
            got.add(("files", used(R, r.e, "native scan", "python_files", scan[0].a[3], cl, cwd)))
            paths_of(r.e, "native scan", scan[0].a[2], cl, cwd)
    if not n:
        raise Unk("the native runner is not started")
    if len(got) < 8:
        raise Unk("only %s" % sorted(got))
    return "%d ways to start a native run, every setting in its place" % n


def given(p):
    """Whether paths were given on the command line."""
    for k, v in p.items():
        if k.t == "op" and k.a[0] == "is_empty" and not contains(k, lambda y: setting(y) is not None) and contains(k.a[1], lambda y: y.t == "op" and y.a[0] == ".files") and not contains(k, lambda y: calls(y, "collect_tests_rust")):
            return not v
    return None


def paths_of(e, where, t, ps, root):
    """The paths searched: those given, or else the configured ones."""
    s = setting(t) or copied(e, "testpaths", t)
    if s:
        if s[0] != "testpaths":
            raise Bad(where + ":testpaths", "%s: the paths searched are %s" % (where, s[0]))
        if not root(s[1]):
            raise Bad(where + ":root", "%s: the settings are those of %s" % (where, short(s[1])))
        for p in ps:
            g = given(p)
            if g:
                raise Bad(where + ":given", "%s: the paths given are not used" % where)
            if g is None:
                raise Unk("%s: testpaths are used when %s" % (where, "?"))
        return "testpaths"
    x = strip(t)
    if x.t == "op" and x.a[0] == ".files":
        for p in ps:
            if given(p) is None and not any(contains(k, lambda y: setting(y) is not None and setting(y)[0] == "testpaths") for k in p):
                raise Bad(where + ":testpaths", "%s: testpaths is not used when no path is given" % where)
            if given(p) is False and not any(emptiness(p2, "testpaths") for p2 in [p]):
                raise Bad(where + ":testpaths", "%s: testpaths is not used when no path is given" % where)
        return "given"
    raise Unk("%s: the paths searched are %s" % (where, short(t)))


NEW = "collection::nodes::Session::new"
PERFORM = "collection::nodes::Session::perform_collect"
COLLECTORS = "collection::nodes::Module"


def session(R):
    """What collection is configured with."""
    r = ctx.run(R, NEW, opaque=(READ,))
    if r is None:
        return None
    got = set()
    for s, ret in r.rets:
        if ret.t != "agg" or "config" not in dict(ret.a[2]):
            raise Unk("a session is " + short(ret))
        cfg = target(dict(ret.a[2])["config"])
        if cfg.t == "agg":
            f = dict(cfg.a[2])
        else:
            raise Unk("a session's settings are " + short(cfg))
        for key in DEFAULTS:
            if key not in f:
                raise Unk("no " + key)
            got.add((key, used(R, r.e, "collection", key, f[key], s.paths(), lambda t: target(t).t == "param")))
    for key in DEFAULTS:
        if (key, "default") not in got:
            raise Unk("%s has no default" % key)
    return "%d ways to set up a collection, each pattern list in its place" % len(r.rets)


def searched(R):
    """Which paths collection searches."""
    opaque = (READ,) + ctx.named("collect_path")
    r = ctx.run(R, PERFORM, opaque=opaque, events=opaque)
    if r is None:
        return None
    e, n = r.e, 0
    for s, ret in r.rets:
        if ret.t == "agg" and ret.a[1] == "Err":
            continue
        loops = [L for L, rec in e.loops.items() if any(str(x.a[0]) == "call" and str(x.a[1]).split("::")[-1] == "collect_path" for c in rec.conts for x in c.ev)]
        mine = [x.a[1] for x in s.ev if x.a[0] == "loop" and x.a[1] in loops]
        for L in mine:
            src, st = ctx.sources(e.loops[L])
            if src is None or src.t != "seq":
                raise Unk("what is searched is not a list")
            n += 1
            where_from(e, src.a[0], s.paths())
    if not n:
        raise Unk("nothing is searched")
    return "%d ways to choose what is searched" % n


def where_from(e, t, ps):
    x = strip(t)
    own = x.t == "op" and x.a[0] == ".testpaths" and not setting(x)
    if setting(x):
        raise Bad("collection:joined", "%s is searched as it is, not below the root" % setting(x)[0])
    ls, ops = leaves(e, t) if not own else ([], [])
    if ops:
        if any(o.a[0] in ("pop", "truncate", "remove", "clear", "drain", "swap_remove") for o in ops):
            raise Bad("collection:testpaths", "not every path is searched")
        raise Unk("the paths searched go through " + show(ops[0])[:50])
    kinds = set()
    for v, chain in ls:
        x = target(v)
        if x.t == "op" and x.a[0] == "pjoin" and len(x.a) == 3:
            y = target(x.a[2])
        else:
            y = x
        if y.t == "elem" and y.a[0].t == "seq":
            s = setting(y.a[0].a[0])
            if s:
                if s[0] != "testpaths":
                    raise Bad("collection:testpaths", "collection searches " + s[0])
                if y is x:
                    raise Bad("collection:joined", "testpaths are not taken below the root")
                every(e, "testpaths", y.a[1], y, y)
                kinds.add("testpaths")
                continue
            if y.a[0].a[0].t == "param":
                kinds.add("given")
                continue
        elif not chain and x.t == "op" and x.a[0] == ".rootpath":
            kinds.add("root")
            continue
        raise Unk("a path searched is " + short(x))
    if own:
        kinds.add("session")
    elif not ls:
        raise Unk("the paths searched are " + short(t))
    for p in ps:
        g = None
        for k, v in p.items():
            if k.t == "op" and k.a[0] == "is_empty" and k.a[1].t == "param":
                g = not v
        if g is None:
            raise Unk("the paths searched without regard to those given")
        te = emptiness(p, "testpaths")
        if g and kinds != {"given"}:
            raise Bad("collection:given", "the paths given are not searched")
        if not g and te is False and kinds != {"testpaths"}:
            raise Bad("collection:testpaths", "configured testpaths are not searched")
        if not g and te is None:
            raise Bad("collection:testpaths", "testpaths is not looked at when no path is given")


def module(R):
    """The patterns a file is searched with."""
    F = ctx.F()["fns"]
    fns = [f for f in F if "Module" in f and f.split("::")[-1] == "collect" and "nodes" in f]
    n = 0
    for fn in fns:
        r = ctx.run(R, fn, opaque=ctx.named("discover_tests_with_inheritance"), events=ctx.named("discover_tests_with_inheritance"))
        if r is None:
            continue
        for s, ret in r.rets:
            for t in [ret] + list(s.conds) + [x for ev in s.ev for x in flat(ev)]:
                for y in walk(t):
                    if calls(y, "discover_tests_with_inheritance"):
                        n += fields(y)
    if not n:
        raise Unk("no search of a file")
    return "the class and function patterns of the session go to the search of each file"


def flat(ev):
    for a in ev.a:
        if isinstance(a, N):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, N):
                    yield b


def fields(y):
    for a in y.a[1:]:
        a = target(a)
        if a.t == "agg" and "TestDiscoveryConfig" in str(a.a[0]):
            for k, v in a.a[2]:
                v = strip(v)
                if v.t == "op" and str(v.a[0]).startswith(".") and v.a[0][1:] in KEYS:
                    if v.a[0][1:] != k:
                        raise Bad("module:" + k, "a file's search is given %s as %s" % (v.a[0][1:], k))
                elif k in DEFAULTS:
                    if listed(None, v) is not None:
                        raise Bad("module:" + k, "a file is searched with constant " + k)
                    raise Unk("%s is %s" % (k, short(v)))
            return 1
    raise Unk("a file is searched with other settings")


def told(R, key, where, f):
    out = []
    if guard(R, key, where, lambda: out.append(f(R))) and out and out[0]:
        R.ok(key, out[0])


def check(R):
    R.rule("Path by path through the reader of pyproject.toml: each setting's value is empty or made of every string of its own key of tool.pytest.ini_options, unchanged and in order (the array, or the parts of the string), and is empty only when that key is absent or malformed or the file cannot be read, whatever the other keys are; each user of the settings is given the setting of its own name, and that setting's default exactly when it is empty; testpaths is searched exactly when no path was given.")
    told(R, "reading", READ, reading)
    told(R, "collection", NEW, session)
    told(R, "searched", PERFORM, searched)
    told(R, "module", COLLECTORS, module)
    told(R, "running", entry.MAIN, running)
