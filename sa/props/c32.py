"""C32: the native file scan: every matching file once, and only those."""
from .. import ctx, entry
from ..lists import leaves, looped, resolved
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from .c07 import calls_in
from .c16 import guard

SCAN = "native_runner::collect_test_files"
EXECUTE = "native_runner::execute_native"
GLOB = "glob_match"
NEUTRAL = {"filter", "filter_map", "map", "inspect", "flatten", "filter_entry", "enumerate", "cloned", "copied", "peekable", "flat_map"}
LOSSY = {"take", "skip", "step_by", "take_while", "skip_while", "map_while", "scan"}
NAMED = {"file_name", "path", "into_path", "depth", "file_type"}


def calls(t, name):
    return t.t == "op" and str(t.a[0]).startswith("call:") and str(t.a[0]).split("::")[-1] == name


def at(d, what):
    return what + ": " + "; ".join("%s = %s" % (show(k)[-90:], v) for k, v in list(d.items())[:8])


# ---- what a path says of one file ----

def target(t):
    """A path handed on unchanged."""
    while True:
        if t.t == "op" and str(t.a[0]).split("::")[-1] in ("to_path_buf", "to_owned", "clone", "as_path", "into_os_string", "from", "new", "borrow", "as_ref", "deref", "into_boxed_path") and len(t.a) == 2:
            t = t.a[1]
        elif t.t == "op" and len(t.a) == 2 and (calls(t, "into_path") or calls(t, "path")) and "DirEntry" in str(t.a[0]):
            return entry_of(t.a[1])
        else:
            return t


def entry_of(t):
    if t.t == "op" and t.a[0] == "pl:Ok":
        return t.a[1]
    return t


# names a file or directory can have
NAMES = ("test_a.py", "a_test.py", ".test_a.py", "test_a.txt", "test_a", ".py", "test_a.PY", "test.a.py", "test_a.pyc", "__pycache__", ".git", "build", "venv", "node_modules",
         "__pycache__.py", "test_a.py.bak", "conftest.py", "__init__.py", "Test_B.py", "tests", "_test", "a", "_", "__pycache__old", "x__pycache__", "a" * 70 + ".py", "x\\test_a.py", "test a.py", "test-a.py", "d" * 200, "dist", "x.egg", "test_\u00e9.py", "deep dir", "__init__", "..x", "_.py")


def hidden(w):
    return w.startswith(".") or w == "__pycache__"


def suffix(w):
    i = w.rfind(".")
    return None if i <= 0 else w[i + 1:]


def ends_py(w):
    return suffix(w) == "py"


def pieces(sp, S, w):
    x = val(sp.a[0], S, w)
    seps = [str(cval(y)) for y in (sp.a[1].a if sp.a[1].t == "arr" else (sp.a[1],)) if isc(y)]
    if not isinstance(x, str) or not seps or sp.a[1].t == "arr" and len(seps) != len(sp.a[1].a):
        return None
    out = [x]
    for y in seps:
        if not y:
            return None
        out = [z for o in out for z in o.split(y)]
    return out


def val(t, S, w):
    """A term about the file S, for the name w: text, number, truth, ("Some", x) or ("None",); None when it is not read."""
    if isc(t):
        v = cval(t)
        return v
    if t.t == "agg":
        if t.a[1] == "None":
            return ("None",)
        if t.a[1] == "Some" and len(t.a[2]) == 1:
            x = val(t.a[2][0][1], S, w)
            return None if x is None else ("Some", x)
        return None
    if t.t == "nth" and t.a[0].t == "split" and len(t.a[0].a) == 2 and type(t.a[1]) is int:
        ps = pieces(t.a[0], S, w)
        return ps[t.a[1]] if ps is not None and -len(ps) <= t.a[1] < len(ps) else None
    if t.t == "has" and t.a[0].t == "split" and len(t.a[0].a) == 2 and type(t.a[1]) is int:
        ps = pieces(t.a[0], S, w)
        return None if ps is None else len(ps) > t.a[1]
    if t.t != "op":
        return None
    n = str(t.a[0]).split("::")[-1]
    if n in ("to_str", "to_string_lossy", "ptext", "display") and len(t.a) == 2 and target(t.a[1]) is S:
        return ("Some", "/p/sub dir/" + w) if n == "to_str" else "/p/sub dir/" + w
    if n in ("file_name", "file_stem", "extension") and len(t.a) == 2 and (target(t.a[1]) is S or "DirEntry" in str(t.a[0]) and entry_of(t.a[1]) is S):
        if n == "file_name":
            return w if "DirEntry" in str(t.a[0]) else ("Some", w)
        x = suffix(w)
        if n == "extension":
            return ("None",) if x is None else ("Some", x)
        return ("Some", w if x is None else w[:-len(x) - 1])
    a = [val(x, S, w) if isinstance(x, N) else x for x in t.a[1:]]
    if any(x is None for x in a):
        return None
    if t.a[0] in ("pl:Some", "Some", "unwrap", "expect"):
        return a[0][1] if isinstance(a[0], tuple) and len(a[0]) == 2 else None
    if n == "to_str":
        return ("Some", a[0])
    if n in ("to_string_lossy", "ptext", "as_ref", "into_owned", "to_string", "deref", "to_owned", "as_str", "borrow", "new", "from", "to_os_string", "into_string", "clone", "as_bytes", "as_encoded_bytes"):
        return a[0]
    if n in ("unwrap_or", "default", "unwrap_or_default"):
        return a[0][1] if isinstance(a[0], tuple) and len(a[0]) == 2 else (a[1] if len(a) > 1 else "")
    if n in ("eq", "eq_ignore_ascii_case", "starts_with", "ends_with", "contains", "has_sep", "strip_prefix", "strip_suffix", "lt", "le") and len(a) == 2:
        x, y = a
        if n == "eq":
            return x == y
        if not (isinstance(x, str) and isinstance(y, str)):
            return (x < y if n == "lt" else x <= y) if n in ("lt", "le") and type(x) is int and type(y) is int else None
        if n == "eq_ignore_ascii_case":
            return x.lower() == y.lower()
        if n == "starts_with":
            return x.startswith(y)
        if n == "ends_with":
            return x.endswith(y)
        if n in ("contains", "has_sep"):
            return y in x
        if n == "strip_prefix":
            return ("Some", x[len(y):]) if x.startswith(y) else ("None",)
        if n == "strip_suffix":
            return ("Some", x[:len(x) - len(y)]) if x.endswith(y) else ("None",)
    if n in ("to_lowercase", "to_ascii_lowercase") and isinstance(a[0], str):
        return a[0].lower()
    if n in ("to_uppercase", "to_ascii_uppercase") and isinstance(a[0], str):
        return a[0].upper()
    if n == "len" and isinstance(a[0], str):
        return len(a[0].encode())
    if n == "is_empty" and isinstance(a[0], str):
        return a[0] == ""
    if n == "not" and isinstance(a[0], bool):
        return not a[0]
    return None


def read(e, p, S, patterns, w):
    """(the facts of a path can hold for a file S of this name, what they say of it, those not read)."""
    out, other = {}, []
    for k, v in p.items():
        if k.t == "exit" and len(k.a) == 1:
            continue
        if k.t == "next":
            if v is False and patterns is not None:
                x = unmatched(e, k.a[0], k.a[1], k.a[2], S, patterns, w)
                if x is True:
                    out["match"] = False
                elif x is None:
                    other.append((k, v))
            continue
        if k.t == "fold" and patterns is not None and k.a[0] in e.loops:
            x = gathered(e, k, S, patterns, w)
            if x is True:
                out["match"] = v
            elif x is None and contains(k, lambda y: y is S):
                other.append((k, v))
            continue
        if calls(k, GLOB) and patterns is not None:
            g = globbed(k, S, patterns, w)
            if g and v is True:
                out["match"] = True
            elif g is None:
                other.append((k, v))
            continue
        if not contains(k, lambda y: y is S):
            continue
        if k.t == "discr" and len(k.a) == 1 and k.a[0] is S:
            out["ok"] = v == "Ok"
            continue
        if k.t == "discr" and calls(k.a[0], "to_str") and target(k.a[0].a[1]) is S:
            if v == "None":
                return False, out, other
            continue
        x = val(k.a[0], S, w) if k.t == "discr" else val(k, S, w)
        if x is not None:
            if k.t == "discr" and isinstance(x, tuple):
                if x[0] != v:
                    return False, out, other
            elif x != v:
                return False, out, other
            continue
        if k.t == "op" and k.a[0] in ("eq", "lt", "le") and any(isinstance(x, N) and calls(x, "depth") and entry_of(x.a[1]) is S for x in k.a[1:3]):
            b = top(k, v)
            if b is None:
                other.append((k, v))
            else:
                out["top"] = b
        elif calls(k, "is_file") or calls(k, "is_dir"):
            x = k.a[1]
            if calls(x, "file_type") and entry_of(x.a[1]) is S or target(x) is S:
                out["file" if calls(k, "is_file") else "dir"] = v
            else:
                other.append((k, v))
        elif any(calls(k, n) for n in ("is_absolute", "is_relative", "exists", "try_exists", "is_symlink")):
            pass
        else:
            other.append((k, v))
    if out.get("dir") is True and out.get("file") is True:
        return False, out, other
    if out.get("dir") is True:
        out.setdefault("file", False)
    if out.get("file") is True:
        out.setdefault("dir", False)
    return True, out, other


def unmatched(e, src, st, L, S, patterns, w):
    """At the end of a loop over the patterns, none matched: True; not known: False; not read: None."""
    rec = e.loops.get(L)
    if rec is None or src.t != "seq" or src.a[0] is not patterns or st:
        return None if rec is not None and contains(src, lambda y: y is patterns) and any(calls(k, GLOB) for c in rec.conts for k in c.conds) else False
    for c in rec.conts:
        for q in c.paths():
            if compatible(q, S, w) is False:
                continue
            gs = [(globbed(k, S, patterns, w, L), v) for k, v in q.items() if calls(k, GLOB)]
            if not any(g and v is False for g, v in gs):
                return None if any(g is None for g, v in gs) else False
    return bool(rec.conts)


def gathered(e, k, S, patterns, w):
    """A flag that a loop over the patterns sets when one matches."""
    rec = e.loops[k.a[0]]
    src, st = ctx.sources(rec)
    pk = k.a[1]
    i = rec.init.get(pk)
    if src is None or src.t != "seq" or src.a[0] is not patterns or st or i is None or not isc(i) or cval(i) is not False:
        return None
    for c in rec.conts:
        u = c.upd.get(pk)
        for q in c.paths():
            g = [v for k2, v in q.items() if globbed(k2, S, patterns, w, k.a[0])]
            if u is None or u.t == "lv":
                if False not in g:
                    return None
            elif isc(u) and cval(u) is True:
                if True not in g:
                    return None
            elif u.t == "op" and u.a[0] in ("bitor", "or") and any(y.t == "lv" for y in u.a[1:]) and any(globbed(y, S, patterns, w, k.a[0]) for y in u.a[1:]):
                pass
            else:
                return False if globbed(u, S, patterns, w, k.a[0]) or isc(u) and cval(u) is False else None
    return bool(rec.conts)


def compatible(p, S, w):
    for k, v in p.items():
        if contains(k, lambda y: y is S) and k.t in ("discr", "op"):
            x = val(k.a[0], S, w) if k.t == "discr" else val(k, S, w)
            if x is not None and (x[0] if isinstance(x, tuple) else x) != v:
                return False
    return True


def top(k, v):
    """Depth compared with a constant: is it 0?"""
    a, b = k.a[1:3]
    o = k.a[0]
    if isc(b):
        n = cval(b)
        if o == "eq" and n == 0:
            return v
        if (o, n) in (("lt", 1), ("le", 0)):
            return v
    elif isc(a):
        n = cval(a)
        if o == "eq" and n == 0:
            return v
        if (o, n) in (("lt", 0), ("le", 1)):
            return not v
    return None


def globbed(k, S, patterns, w, L=None):
    """One of the patterns compared with the name of S: True; with another text: False; None when it is not read."""
    if not calls(k, GLOB) or len(k.a) != 3:
        return False
    a, b = k.a[1], k.a[2]
    if not (a.t in ("elem", "nextof") and a.a[0].t == "seq" and a.a[0].a[0] is patterns and (L is None or a.a[1] == L)):
        return False if not contains(a, lambda y: y is patterns) else None
    x = val(b, S, w)
    if x is None:
        y = b
        while y.t == "op" and len(y.a) == 2 and str(y.a[0]).split("::")[-1] in ("to_str", "to_string_lossy", "pl:Some", "as_ref", "deref", "display", "to_string", "into_owned"):
            y = y.a[1]
        return False if target(y) is S else None
    return x == w


# ---- directories ----

def walked(t):
    """The directory a WalkDir goes through; (directory, builder calls)."""
    ops = []
    while t.t == "op" and str(t.a[0]).startswith("call:walkdir::") and not str(t.a[0]).endswith("WalkDir::new"):
        ops.append(t)
        t = t.a[1]
    if t.t == "mut":
        ops += list(t.a[1:])
        t = t.a[0]
    if t.t == "op" and str(t.a[0]).endswith("WalkDir::new"):
        return t.a[1], ops
    return None, ops


def builder(o):
    n = str(o.a[0]).split("::")[-1]
    n = str(o.a[1]).split("::")[-1] if n == "call" else n
    v = next((cval(x) for x in o.a[1:] if isinstance(x, N) and isc(x)), None)
    if n in ("into_iter", "sort_by", "sort_by_file_name", "sort_by_key", "max_open"):
        return
    if n == "follow_links" and v is False or n == "follow_root_links" or n == "same_file_system" and v is False or n == "contents_first" and v is False or n == "min_depth" and v in (0, 1):
        return
    if n in ("follow_links", "same_file_system", "contents_first", "min_depth", "max_depth"):
        raise Bad("walk", "directories are searched with %s(%s)" % (n, v))
    raise Unk("a directory search with " + show(o)[:60])


def prune(R, e, stages):
    """Hidden and cache directories are not entered: the first stage that decides it is a filter_entry."""
    done = False
    for st in stages:
        if st.t in LOSSY:
            raise Bad("stops", "the search of a directory ends early (%s)" % show(st)[:60])
        if st.t not in NEUTRAL:
            raise Unk("a search with " + show(st)[:60])
        if st.t != "filter_entry":
            continue
        c = st.a[0]
        if c.t not in ("clo", "fn") or c.a[0] not in ctx.F()["fns"]:
            raise Unk("the entries searched are chosen by " + show(c)[:60])
        r = ctx.run(R, c.a[0])
        if r is None:
            raise Unk("the choice of directories is out of reach")
        for s, ret in r.rets:
            for p in s.paths():
                S = subject(list(p) + [ret])
                if S is None and (p or not isc(ret)):
                    raise Unk(at(p, "the entries searched are chosen in another way"))
                for b in ((cval(ret),) if isc(ret) else (True, False)):
                    z = dict(p)
                    if not isc(ret):
                        neg = ret.t == "op" and ret.a[0] == "not"
                        z[ret.a[1] if neg else ret] = (not b) if neg else b
                    for w in NAMES:
                        can, f, other = read(r.e, z, S, None, w) if S is not None else (True, {}, [])
                        if not can or f.get("dir") is False or f.get("file") is True:
                            continue
                        for first in (True, False):
                            if f.get("top", first) is not first or b is (first or not hidden(w)):
                                continue
                            msg = at(z, "%s directory named %r is %s" % ("the given" if first else "a", w, "searched" if b else "passed over"))
                            if other:
                                raise Unk(msg)
                            raise Bad("hidden" if b else "passed", msg)
        done = True
    if not done:
        raise Bad("hidden", "hidden and cache directories are searched")


def subject(ts):
    """The entry a filter looks at."""
    for t in ts:
        for y in walk(t):
            if y.t == "op" and len(y.a) == 2 and str(y.a[0]).startswith("call:walkdir::DirEntry::"):
                return entry_of(y.a[1])
            if y.t == "op" and len(y.a) == 2 and "DirEntry" in str(y.a[0]):
                return entry_of(y.a[1])
    return None


def search(R, e, L, patterns):
    """One directory search: what it adds, path by path."""
    rec = e.loops[L]
    src, stages = ctx.sources(rec)
    if src is None or src.t != "seq":
        raise Unk("a search without a source")
    D, ops = walked(src.a[0])
    if D is None:
        raise Unk("a search through " + show(src.a[0])[:60])
    for o in ops:
        builder(o)
    prune(R, e, stages)
    E = mk("elem", src, L)
    lists = [pk for pk in rec.lv if any(c.upd.get(pk) is not None and c.upd[pk].t == "mut" for c in rec.conts)]
    if len(lists) != 1:
        raise Unk("a search that fills %d lists" % len(lists))
    for x in rec.exits:
        if natural(x, L):
            continue
        if any(k.t == "discr" and k.a[0] is E and v == "Err" for k, v in x[1].items()):
            raise Bad("stops", "the search ends at a directory that cannot be read")
        raise Unk("a search that ends early")
    n = 0
    for c in rec.conts:
        u = c.upd.get(lists[0])
        adds = []
        if u is not None and u.t == "mut":
            for o in u.a[1:]:
                if o.a[0] not in ("push", "insert"):
                    raise Unk("a search that does " + show(o)[:60])
                adds.append(o.a[1])
        for p in c.paths():
            n += 1
            if adds:
                if len(adds) != 1:
                    raise Bad("twice", at(p, "a file is added %d times" % len(adds)))
                if target(adds[0]) is not E:
                    raise Bad("element", "what is added is " + show(adds[0])[:80])
            for w in NAMES:
                can, f, other = read(e, p, E, patterns, w)
                if not can:
                    continue
                msg = table(bool(adds), f, w, f.get("top") is not True)
                if msg is None:
                    continue
                if other:
                    raise Unk(at(p, msg))
                raise Bad("only" if adds else "every", at(p, msg))
    R.count("entry paths", n)
    return D


def table(added, f, w, below):
    """What is wrong with adding, or passing over, a file of this name; None when it is right."""
    if added:
        if f.get("file") is not True:
            return "%r is added though it may be no file" % w
        if not ends_py(w):
            return "%r is added, which is no Python file" % w
        if f.get("match") is not True:
            return "%r is added though it may match no pattern" % w
        if below and hidden(w):
            return "%r is added, which is hidden" % w
        return None
    if below and hidden(w) or not ends_py(w) or f.get("ok") is False or f.get("file") is False or f.get("match") is False or f.get("dir") is True:
        return None
    return "%r is passed over" % w


def full(t, p, root, src):
    """The path of a name on the command line."""
    def name(x):
        x = target(x)
        return x.t == "elem" and x.a[0].t == "seq" and x.a[0].a[0] is src
    t = target(t)
    if t.t == "op" and t.a[0] == "pjoin" and len(t.a) == 3 and target(t.a[1]) is root and name(t.a[2]):
        return True
    if name(t):
        return any(name(k.a[1]) and v is (calls(k, "is_absolute")) for k, v in p.items() if calls(k, "is_absolute") or calls(k, "is_relative"))
    return None


def facts(chain):
    out = {}
    for L, p in chain:
        out.update(p)
    return out


def result(R, e, s, ret, P):
    root, names, patterns = P
    empty = None
    for k, v in s.conds.items():
        if k.t == "op" and k.a[0] == "is_empty" and k.a[1] is names:
            empty = v
        if k.t == "op" and k.a[0] in ("eq", "lt") and contains(k, lambda y: y.t == "op" and y.a[0] == "len" and y.a[1] is names):
            b = [x for x in k.a[1:3] if isc(x)]
            if k.a[0] == "eq" and b and cval(b[0]) == 0:
                empty = v
    ls, ops = leaves(e, ret)
    for d in s.paths():
        for k, v in d.items():
            if k.t == "exit" and k.a[0] in e.loops and not any(k2.t == "next" and k2.a[2] == k.a[0] and v2 is False for k2, v2 in d.items()):
                if is_search(e, k.a[0]):
                    search(R, e, k.a[0], patterns)
                elif ctx.sources(e.loops[k.a[0]])[0] is mk("seq", names):
                    raise Bad("names", at(d, "names after one are not looked at"))
                raise Unk("a loop is left early")
            if k.t == "discr" and v == "Err" and k.a[0].t == "elem" and k.a[0].a[0].t == "seq" and walked(k.a[0].a[0].a[0])[0] is not None:
                raise Bad("stops", "the search ends at a directory that cannot be read")
    if not ls:
        if empty is None and s.conds:
            raise Unk("an empty result (%s)" % at(s.conds, ""))
        raise Bad("empty", at(s.conds, "no file is found"))
    searches = {}
    direct = []
    for v, chain in ls:
        if empty is True and chain and ctx.sources(e.loops[chain[0][0]])[0] is mk("seq", names):
            continue
        if chain and is_search(e, chain[-1][0]):
            searches.setdefault(chain[-1][0], []).append((v, chain))
        else:
            direct.append((v, chain))
    for L in searches:
        D = search(R, e, L, patterns)
        for v, chain in searches[L]:
            outer = chain[:-1]
            if empty is True:
                if outer:
                    raise Unk("a search within a loop, without names")
                if target(D) is not root:
                    raise Bad("root", "without names, %s is searched" % show(D)[:60])
                continue
            if not outer:
                raise Unk("a search outside of the loop over the names")
            p = facts(outer)
            ok = full(D, p, root, names)
            if ok is None:
                raise Bad("directory", "the directory searched is " + show(D)[:80])
            if ok is False:
                raise Bad("directory", at(p, "a relative name is searched outside of the project"))
    if empty is True:
        if direct:
            raise Unk("files added without names")
    else:
        if empty is None:
            raise Unk("names are not looked at")
        named(R, e, ret, ls, P)
    sorted_ = False
    unique = False
    for o in ops:
        n = o.a[0]
        if n == "sort":
            how(R, o)
            sorted_, rev = True, False
        elif n in ("dedup_by", "dedup_by_key"):
            same(R, o)
            if not sorted_:
                raise Bad("twice", "neighbours are compared before the sort")
            unique = True
        elif n == "dedup" and len(o.a) == 1:
            if not sorted_:
                raise Bad("twice", "neighbours are compared before the sort")
            unique = True
        elif n == "loop":
            raise Unk("a later loop")
        else:
            raise (Bad("order", "the files are changed by " + show(o)[:60]) if n in ("reverse", "truncate", "pop", "clear", "swap_remove", "shuffle") else Unk("the files are changed by " + show(o)[:60]))
    if base(ret).t == "op" and base(ret).a[0] in ("set_new", "map_new"):
        sorted_ = unique = True
    if not sorted_:
        raise Bad("order", "the files are not sorted (%s)" % at(s.conds, ""))
    if not unique and empty is False:
        raise Bad("twice", "a file that is named twice is kept twice")


def base(t):
    while t.t in ("mut", "coll", "seq"):
        t = t.a[0]
    return t


def how(R, o):
    """The order of a sort."""
    if "by" not in str(o.a[1]).split("::")[-1]:
        return
    t = next((y for x in o.a[2:] for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, N)), None)
    if t is None:
        raise Unk("a sort by " + show(o)[:60])
    if "key" in str(o.a[1]).split("::")[-1]:
        if target(t).t == "elem" or t.t == "op" and t.a[0] in ("ptext", "call:std::path::Path::to_str") and target(t.a[1]).t == "elem":
            return
    elif t.t == "op" and str(t.a[0]).split("::")[-1] in ("cmp", "partial_cmp") and len(t.a) == 3 and all(target(x).t == "elem" for x in t.a[1:3]):
        if target(t.a[1]).a[1] < target(t.a[2]).a[1]:
            raise Bad("order", "the files are sorted backwards")
        return
    lossy(t, "sorted by ")
    raise Unk("a sort by " + show(o)[:60])


def lossy(t, what):
    if any(calls(y, n) for y in walk(t) for n in ("file_name", "file_stem", "len", "extension", "parent", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "components", "count")) or any(y.t == "op" and y.a[0] == "len" for y in walk(t)):
        raise Bad("order", "the files are %s%s" % (what, show(t)[:80]))


def same(R, o):
    """Neighbours are dropped only when they are equal."""
    c = o.a[1]
    r = ctx.run(R, c.a[0]) if c.t in ("clo", "fn") and c.a[0] in ctx.F()["fns"] else None
    if r is None:
        raise Unk("neighbours are compared by " + show(o)[:60])
    for s, ret in r.rets:
        for t in [ret] + list(s.conds):
            lossy(t, "compared by ")
    for s, ret in r.rets:
        if target(ret).t == "param" or ret.t == "op" and ret.a[0] == "eq" and all(target(x).t == "param" for x in ret.a[1:3]):
            continue
        lossy(ret, "compared by ")
        raise Unk("neighbours are compared by " + show(ret)[:60])


def natural(x, L):
    """The exit of a loop whose source is exhausted."""
    return x[0] == "done" or any(k.t == "next" and k.a[2] == L and v is False for k, v in x[1].items())


def is_search(e, L):
    src, st = ctx.sources(e.loops[L])
    return src is not None and src.t == "seq" and walked(src.a[0])[0] is not None


def named(R, e, ret, ls, P):
    """The loop over the names: each that is a matching file is added, each that is a directory is searched."""
    root, names, patterns = P
    loops = {chain[0][0] for v, chain in ls if chain}
    if len(loops) != 1:
        raise Unk("%d loops over the names" % len(loops))
    L = loops.pop()
    rec = e.loops[L]
    src, stages = ctx.sources(rec)
    if src is None or src.t != "seq" or src.a[0] is not names:
        raise Unk("the names are not gone through directly")
    for st in stages:
        if st.t in LOSSY:
            raise Bad("names", "not every name is looked at (%s)" % show(st)[:60])
        if st.t not in NEUTRAL:
            raise Unk("names go through " + show(st)[:60])
    for x in rec.exits:
        if not natural(x, L):
            raise Bad("names", "names after one are not looked at (%s)" % at(x[1], ""))
    lists = [pk for pk in rec.lv if any(c.upd.get(pk) is not None and c.upd[pk].t == "mut" for c in rec.conts)]
    for c in rec.conts:
        us = [c.upd.get(pk) for pk in lists]
        adds = [o for u in us if u is not None and u.t == "mut" for o in u.a[1:]]
        for p in c.paths():
            S = name_path(p, root, names, adds)
            if S is None:
                if not adds and not any(k.t != "next" and not calls(k, "is_absolute") and not calls(k, "is_relative") for k in p):
                    raise Bad("every", at(p, "a name is passed over"))
                raise Unk(at(p, "a name is not looked at"))
            kind = None
            for o in adds:
                if o.a[0] in ("push", "insert") and target(o.a[1]) is S:
                    kind = "file" if kind is None else "more"
                elif o.a[0] in ("extend", "loop") or o.a[0] == "push" and o.a[1].t == "elem" and len(o.a[1].a) == 3:
                    kind = "dir" if kind is None else "more"
                elif o.a[0] in ("push", "insert"):
                    raise Bad("element", "what is added is " + show(o.a[1])[:80])
                else:
                    raise Unk("a name changes the list by " + show(o)[:60])
            if full(S, p, root, names) is False:
                raise Bad("directory", at(p, "a relative name is not taken from the project"))
            if kind == "more":
                raise Bad("twice", at(p, "a name is added twice"))
            for w in NAMES:
                can, f, other = read(e, p, S, patterns, w)
                if not can:
                    continue
                isdir = f.get("dir") is True
                if kind == "dir":
                    msg = None
                    if f.get("file") is True or f.get("dir") is False:
                        msg = "%r is searched though it is no directory" % w
                    elif not isdir and f.get("file") is not False and f.get("match") is not False and ends_py(w):
                        msg = "%r may be searched though it is a file" % w
                elif kind == "file":
                    msg = table(True, f, w, False)
                else:
                    msg = table(False, dict(f, dir=None), w, False)
                    if msg is None and f.get("dir") is not False and not p_empty(e, p) and f.get("file") is not True:
                        msg = "the directory %r is passed over" % w
                if msg is None:
                    continue
                if other:
                    raise Unk(at(p, msg))
                raise Bad("only" if kind else "every", at(p, msg))


def p_empty(e, p):
    """The path on which the nested list had no element."""
    return any(k.t == "next" and v is False and contains(k, lambda y: y.t == "mut") for k, v in p.items())


def name_path(p, root, names, adds):
    """The path the facts of a name are about."""
    for t in [o.a[1] for o in adds if o.a[0] in ("push", "insert")] + list(p):
        for y in walk(t) if t.t != "next" else ():
            if full(y, p, root, names) and not (y.t == "op" and y.a[0] != "pjoin"):
                if any(calls(k, n) and contains(k, lambda z: z is y) for k in p for n in ("is_file", "is_dir", "exists", "metadata")):
                    return y
    for k in p:
        if calls(k, "is_file") or calls(k, "is_dir"):
            t = target(k.a[1])
            if full(t, p, root, names) is not None:
                return t
    return None


def check(R):
    R.rule("Path by path through the scan: an entry of a searched directory is added, once and unchanged, exactly when it was read, is a regular file ending in .py, matches a pattern and is not hidden; hidden and cache directories are never entered, except one that was named; a name is added when it is a matching file and searched when it is a directory; no entry or name ends the scan of the others; the result is sorted and each file is in it once; it is what the native runner executes.")
    r = ctx.run(R, SCAN, opaque=ctx.named(GLOB))
    if r is None:
        return
    P = tuple(mk("param", "arg%d" % i) for i in range(3))
    good = True
    for s, ret in r.rets:
        good &= guard(R, "scan", SCAN, result, R, r.e, s, ret, P)
    if good and not r.rets:
        R.bad("scan:none", SCAN, "the scan never returns")
        good = False
    if good:
        R.ok("scan", "every matching file, once, sorted; %d loops" % len(r.e.loops))
    guard(R, "runs", EXECUTE, runs, R)


def runs(R):
    """What the native runner executes is the result of the scan of the command line's names, in the project."""
    n = 0
    r, ps = entry.paths(R, entry.MAIN)
    for p in ps:
        for name, args, conds in p.calls:
            if name.split("::")[-1] != "execute_native":
                continue
            n += 1
            t = args[1]
            if not calls(t, "collect_test_files"):
                raise Unk("the files executed are " + show(t)[:80])
            a = t.a[1:]
            if not (a[1].t == "op" and a[1].a[0] == ".files" or contains(a[1], lambda y: y.t == "op" and y.a[0] == ".files")):
                from .c29 import given, paths_of
                here = [given(q) for q in p.conds_list]
                if any(here) or None in here and leaves(r.e, a[1]) == ([], []):
                    raise Bad("names", "the names scanned are " + show(a[1])[:80])
                if leaves(r.e, a[1])[0]:
                    paths_of(r.e, "scan", a[1], p.conds_list, lambda t: True)
            if not contains(a[0], lambda y: calls(y, "get_current_dir")):
                raise Bad("root", "the directory scanned is " + show(a[0])[:80])
    if not n:
        raise Unk("the native runner is not started")
    R.ok("runs", "%d ways to start a native run" % n)
