"""C05: grouping by subproject keeps every test, finds the nearest project directory and only shortens paths."""
from .. import ctx, strs
from ..terms import *
from ..pyc import Unk
from .c06 import plain, base, early
from .c16 import guard

GROUP = "subproject::group_tests_by_subproject"
RELATIVE = "subproject::make_test_paths_relative"
MARK = "pyproject.toml"
SAME = ("copied", "cloned", "iter", "into_iter", "by_ref", "enumerate", "peekable", "fuse", "map", "inspect")
ROOT, NODES = mk("param", "arg0"), mk("param", "arg1")


def check(R):
    R.rule("Every iteration of the grouping loop puts its test, unchanged, into exactly one group. The key of that group is either a directory known to hold a "
           "pyproject.toml, reached by climbing one parent at a time from the test's file and passing over none that holds one, or the root, on paths that know "
           "there is no such directory. Every id rewritten is the path relative to the new base followed by the id from its first '::' on, and an id is left alone only where its "
           "path does not lie below the new base.")
    R.assume("std::path behaves as documented; a path does not change while it is looked at")
    r = ctx.run(R, GROUP)
    canon = None
    if r is not None:
        guard(R, "grouping", GROUP, grouping, R, r)
    r2 = ctx.run(R, RELATIVE)
    if r2 is not None:
        guard(R, "rewriting", RELATIVE, rewriting, R, r2, r)


def call(t, name):
    return t.t == "op" and t.a[0].startswith("call:") and t.a[0].endswith("::" + name)


def whole_loop(R, key, w, rec, src, stages, nodes):
    if src is None or base(src) is not nodes:
        raise Unk("the loop does not go over the tests")
    for s in stages:
        if s.t in ("filter", "filter_map", "skip", "take", "step_by", "take_while", "skip_while", "map_while", "rev", "flat_map"):
            if s.t == "filter_map":
                continue
            R.bad(key + ":whole", w, "not every test is looked at, in order (%s)" % s.t)
        elif s.t not in SAME:
            raise Unk("the tests pass through " + s.t)
    if early(rec):
        R.bad(key + ":whole", w, "the loop over the tests can end early")


def grouping(R, r):
    e = r.e
    w = ctx.where(GROUP)
    n0 = len(R.bads) + len(R.unks)
    npaths = nloops = 0
    climbs = set()
    for s, v in r.outcomes():
        m = v
        if not (m.t == "mut" and m.a[1].a[0] == "loop"):
            raise Unk("returns " + show(m)[:100])
        for o in m.a[2:]:
            later(R, e, w, o)
        L, pk = m.a[1].a[1], m.a[1].a[2]
        rec = e.loops[L]
        src, stages = ctx.sources(rec)
        whole_loop(R, "grouping", w, rec, src, stages, NODES)
        for c in rec.conts:
            u = c.upd.get(pk)
            ops = [] if u is None or u.t == "lv" else list(u.a[1:]) if u.t == "mut" else None
            if ops is None:
                raise Unk("the groups become " + show(u)[:100])
            for p in c.paths():
                npaths += 1
                one(R, e, w, p, ops, src, climbs)
    for L, D in climbs:
        nloops += 1
        climb(R, e, w, L, D)
    R.count("paths of the grouping loop", npaths)
    R.floor("paths of the grouping loop", npaths, 2, w)
    R.floor("climbing loops", nloops, 1, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("grouping", "%d paths: one group each, of the nearest project directory" % npaths)


LOSSY = ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "clear", "pop", "remove", "swap_remove", "drain", "split_off", "pop_first", "pop_last", "remove_entry",
         "extract_if")
HARMLESS = ("shrink_to_fit", "reserve", "touch", "read")


def later(R, e, w, o):
    """What is done to the groups once every test is in one."""
    todo = [o]
    seen = set()
    while todo:
        x = todo.pop()
        if x.t != "o" or x in seen:
            continue
        seen.add(x)
        name = str(x.a[1]).split("::")[-1] if x.a[0] == "call" else str(x.a[0])
        if name in LOSSY:
            R.bad("grouping:dropped", w, "tests can be taken out of the groups again (%s)" % name)
            return
        if name == "loop":
            rec = e.loops[x.a[1]]
            for c in rec.conts:
                for u in c.upd.values():
                    todo += [y for y in walk(u) if y.t == "o"]
            continue
        if name in ("ent", "at", "each"):
            todo += [y for y in x.a[1:] if isinstance(y, N) and y.t == "o"]
            continue
        if name not in HARMLESS:
            raise Unk("once made, the groups are changed by " + show(x)[:80])


def puts(ops, conds, R, w):
    """(key, value) of every test put into a group."""
    out = []
    for o in ops:
        k = o.a[0]
        if k == "ent":
            key, dflt = o.a[1], o.a[2]
            for x in o.a[3:]:
                if x.a[0] == "push":
                    out.append((key, x.a[1]))
                elif x.a[0] in ("touch",):
                    pass
                else:
                    raise Unk("a group is changed by " + show(x)[:80])
        elif k == "insert":
            key, v = o.a[1], o.a[2]
            g = v.a[0] if v.t == "mut" else v
            if g.t == "op" and g.a[0] == "mapget" or g.t == "mapget":
                if g.a[-1] is not key:
                    raise Unk("a group becomes " + show(v)[:80])
                if any(x.a[0] != "push" for x in v.a[1:] if v.t == "mut"):
                    raise Unk("a group becomes " + show(v)[:80])
                out += [(key, x.a[1]) for x in v.a[1:]] if v.t == "mut" else []
                continue
            if not any(absent(k, b, key) for k, b in conds.items()):
                R.bad("grouping:replaced", w, "a group that may have tests already is replaced (%s)" % why(conds))
            items = v.a if v.t == "arr" else [x.a[1] for x in v.a[1:]] if v.t == "mut" and all(x.a[0] == "push" for x in v.a[1:]) and is_new(v.a[0]) else None
            if items is None:
                raise Unk("a group becomes " + show(v)[:80])
            out += [(key, x) for x in items]
        elif k == "at":
            key = o.a[1]
            for x in o.a[2:]:
                if x.a[0] == "push":
                    out.append((key, x.a[1]))
                else:
                    raise Unk("a group is changed by " + show(x)[:80])
        else:
            raise Unk("the groups are changed by " + show(o)[:80])
    return out


def absent(k, b, key):
    if k.t == "op" and k.a[0] == "contains" and k.a[-1] is key or k.t == "contains" and k.a[-1] is key:
        return b is False
    return k.t == "discr" and b == "None" and any(y is key for y in walk(k))


def is_new(t):
    from .. import models
    return t is models.VECNEW or t.t == "op" and t.a[0] == "seq_new"


def one(R, e, w, conds, ops, src, climbs):
    ps = puts(ops, conds, R, w)
    if not ps:
        R.bad("grouping:dropped", w, "a test goes into no group (%s)" % why(conds))
        return
    if len(ps) > 1:
        R.bad("grouping:twice", w, "a test goes into several groups, or twice into one (%s)" % why(conds))
    key, v = ps[0]
    if not plain(v, base(src)):
        R.bad("grouping:changed", w, "what goes into a group is not the test: " + show(v)[:100])
    el = next((y for x in [v] + list(conds) for y in walk(x) if y.t in ("elem", "nextof") and base(y.a[0]) is base(src)), None)
    if el is None:
        raise Unk("the test itself is not seen")
    justify(R, e, w, conds, key, el, climbs)


def why(conds):
    return ", ".join("%s is %s" % (show(k)[:70], v) for k, v in conds.items() if k.t not in ("next", "exit"))[:200]


def test_path(t, el, conds):
    """'lexical' or 'canonical' when t is the path of the test's file; a text saying what is wrong; None: not read."""
    if t.t == "op" and t.a[0] == "pl:Ok" and call(t.a[1], "canonicalize"):
        x = test_path(t.a[1].a[1], el, conds)
        return "canonical" if x in ("lexical", "canonical") else x
    if t.t == "op" and t.a[0] == "pjoin" and t.a[1] is ROOT:
        return "lexical" if file_part(t.a[2], el, conds) else "the path looked at is not that of the test's file: " + show(t.a[2])[:80]
    return None


def file_part(x, el, conds):
    p = strs.piece(x, el, "::")
    if p == (None, 0, 1):
        return True
    n = strs.parts(conds, el, "::").get(None, (1, None))
    return p == (None, 0, None) and n[1] == 1


def parent_of(t):
    """x when t is pl:Some(parent(x))."""
    if t.t == "op" and t.a[0] == "pl:Some" and call(t.a[1], "parent"):
        return t.a[1].a[1]


def unfold(t, L=None):
    """The term with a loop's final values written as those of its current iteration, as (loop, term)."""
    for y in walk(t):
        if y.t == "fold":
            return y.a[0], subst(t, {y: mk("lv", *y.a)})
        if y.t == "elem" and y.a[0].t.startswith("of:Path::ancestors"):
            return (cval(y.a[1]) if isinstance(y.a[1], N) else y.a[1]), t
        if y.t == "mut" and len(y.a) > 1 and y.a[1].a[0] == "loop":
            lv = mk("lv", *y.a[1].a[1:])
            return y.a[1].a[1], subst(t, {y: mk("mut", lv, *y.a[2:]) if len(y.a) > 2 else lv})
    return None, t


def exists(k):
    """X when k says that X/pyproject.toml exists."""
    if k.t == "op" and (call(k, "exists") or call(k, "is_file")) and k.a[1].t == "op" and k.a[1].a[0] == "pjoin" and isc(k.a[1].a[2]) and cval(k.a[1].a[2]) == MARK:
        return k.a[1].a[1]
    if call(k, "try_exists"):
        return None


def justify(R, e, w, conds, key, el, climbs):
    found = [exists(k) for k, v in conds.items() if v is True and exists(k) is not None]
    if key is not ROOT:
        if key in found:
            L, D = unfold(key)
            if L is None:
                # a fixed number of steps
                R.bad("grouping:nearest", w, "only %s is looked at on the way up" % show(key)[:100])
                return
            climbs.add((L, D))
            start(R, e, w, conds, L, D, el)
            below(R, e, w, conds, L, D, key, el)
            return
        if key.t == "op" and key.a[0] == "pl:Some" and key.a[1].t == "fold" and is_none(e.loops[key.a[1].a[0]].init.get(key.a[1].a[1])):
            # a variable that remembers what was found
            L, D = key.a[1].a[0], remembered(e, *key.a[1].a)
            if D is not None:
                climbs.add((L, D))
                start(R, e, w, conds, L, D, el)
                below(R, e, w, conds, L, D, key, el)
                return
        L, D = unfold(key)
        if L is not None and e.loops.get(L) is not None if isinstance(e.loops, dict) else L is not None:
            rec = e.loops[L]
            ds = {exists(k) for c in rec.conts for k in c.conds} - {None}
            if ds:
                climbs.add((L, next(iter(ds))))
        R.bad("grouping:unfounded", w, "a test goes into the group of a directory not known to hold a %s: %s (%s)" % (MARK, show(key)[:80], why(conds)))
        return
    # the root: there must be no project directory on the way
    for k, v in conds.items():
        if k.t == "discr" and v == "Err" and call(k.a[0], "canonicalize") and test_path(k.a[0].a[1], el, conds) in ("lexical", "canonical"):
            return
        if k.t == "discr" and v == "None" and call(k.a[0], "parent") and test_path(k.a[0].a[1], el, conds) in ("lexical", "canonical"):
            return
        if call(k, "starts_with") and v is False and k.a[2] is ROOT and test_path(k.a[1], el, conds) in ("lexical", "canonical"):
            return
    for k, v in conds.items():
        if k.t == "op" and k.a[0] == "eq" and v is True and ROOT in k.a[1:]:
            o = k.a[1] if k.a[2] is ROOT else k.a[2]
        elif call(k, "starts_with") and v is False and k.a[2] is ROOT:
            o = k.a[1]
        elif k.t == "discr" and v == "None" and call(k.a[0], "parent"):
            o = k.a[0].a[1]
            if conds_exists(conds, o) is not False:
                continue
        elif k.t == "discr" and v == "None" and k.a[0].t == "fold":
            if is_none(e.loops[k.a[0].a[0]].init.get(k.a[0].a[1])):
                continue
            o = op("pl:Some", k.a[0])
        elif call(k, "pop") and v is False:
            o = k.a[1]
        elif k.t == "next" and v is False and k.a[0].t.startswith("of:Path::ancestors"):
            L = k.a[2]
            limit = [s for s in k.a[1] if s.t in ("take", "step_by")]
            if limit:
                R.bad("grouping:limit", w, "only so many directories are looked at (%s)" % limit[0].t)
            climbs.add((L, mk("elem", k.a[0], L)))
            start(R, e, w, conds, L, mk("elem", k.a[0], L), el)
            return
        else:
            continue
        L, D = unfold(o)
        if L is None:
            continue
        if call(k, "pop"):
            rec = e.loops[L]
            ds = [exists(q) for c in rec.conts for q in c.conds if exists(q) is not None]
            if not ds:
                continue
            D = ds[0]
        climbs.add((L, D))
        start(R, e, w, conds, L, D, el)
        return
    R.bad("grouping:missed", w, "a test goes into the root's group although a directory on the way may hold a %s (%s)" % (MARK, why(conds)))


def is_none(t):
    return t is not None and t.t == "agg" and t.a[1] == "None"


def some_of(t):
    """x when t is Some(x)."""
    if t is not None and t.t == "agg" and t.a[1] == "Some":
        return dict(t.a[2]).get("0") if t.a[2] else None
    return None


def unref(t):
    while t is not None and t.t == "op" and (t.a[0] in ("cloned", "copied") or call(t, "to_path_buf") or call(t, "to_owned")):
        t = t.a[1]
    return t


def remembered(e, L, F):
    """The directory a variable that starts as None is set to inside the climb, always one known to hold the file."""
    out = None
    for c in e.loops[L].conts:
        u = c.upd.get(F)
        if u is None or u.t == "lv":
            continue
        x = unref(some_of(u))
        if x is None or out not in (None, x):
            return None
        if not all(any(exists(k) is x and v is True for k, v in p.items()) for p in c.paths()):
            return None
        out = x
    return out


def conds_exists(conds, d):
    for k, v in conds.items():
        if exists(k) is d:
            return v


def loop_key(D):
    for y in walk(D):
        if y.t == "lv":
            return y
    return None


def start(R, e, w, conds, L, D, el):
    """The climb starts at the test's file or its directory."""
    lv = loop_key(D)
    if lv is None:
        T = next(y for y in walk(D) if y.t.startswith("of:Path::ancestors")).a[0]
        st = None
    else:
        i = e.loops[L].init.get(lv.a[1])
        if i is None:
            raise Unk("the climb has no start")
        T = i
        if i.t == "op" and i.a[0] == "pl:Some" and call(i.a[1], "parent"):
            T = i.a[1].a[1]
        elif call(i, "parent"):
            T = i.a[1]
        elif i.t == "agg" and str(i.a[0]).startswith("Option") and i.a[2]:
            T = dict(i.a[2]).get("0", i)
    s = test_path(T, el, conds)
    if s is None:
        q = T
        n = 0
        while parent_of(q) is not None:
            q, n = parent_of(q), n + 1
        if n and test_path(q, el, conds) in ("lexical", "canonical"):
            R.bad("grouping:start", w, "the climb starts %d directories above the one that holds the test" % n)
            return
        raise Unk("the climb starts at " + show(T)[:100])
    if s not in ("lexical", "canonical"):
        R.bad("grouping:file", w, s)


def below(R, e, w, conds, L, D, key, el):
    """The directory found lies below the root."""
    def known(conds, d):
        return any(call(k, "starts_with") and v is True and k.a[1] is d and k.a[2] is ROOT for k, v in conds.items())
    if known(conds, key):
        return
    inside = any(call(k, "starts_with") and v is True and k.a[2] is ROOT and test_path(k.a[1], el, conds) in ("lexical", "canonical") for k, v in conds.items()) \
        or any(test_path(y, el, conds) == "lexical" for x in (D,) for y in walk(x)) and False
    rec = e.loops[L]
    src, stages = ctx.sources(rec)
    stops = all(not any(is_eq(k, D) and v is True for k, v in p.items()) or any(s.t == "take_while" for s in stages) for c in rec.conts for p in c.paths())
    looks = all(any(is_eq(k, D) for k in p) for c in rec.conts for p in c.paths() if p) if rec.conts else True
    if inside and stops and looks:
        return
    R.bad("grouping:outside", w, "the climb can go on above the root, and find a %s there" % MARK)


def is_eq(k, D):
    return k.t == "op" and k.a[0] == "eq" and ROOT in k.a[1:] and D in k.a[1:]


def climb(R, e, w, L, D):
    """One parent at a time, passing over no directory that holds the file."""
    rec = e.loops[L]
    lv = loop_key(D)
    src, stages = ctx.sources(rec)
    if lv is None:
        for s in stages:
            if s.t == "skip":
                k = s.a[0]
                k = cval(k) if isinstance(k, N) and isc(k) else k
                if not isinstance(k, int):
                    raise Unk("the climb leaves out directories")
                if k > 1:
                    R.bad("grouping:start", w, "the climb leaves out the first %d directories" % (k - 1))
            elif s.t in ("take", "step_by"):
                R.bad("grouping:limit", w, "only so many directories are looked at (%s)" % s.t)
            elif s.t in ("rev",):
                R.bad("grouping:nearest", w, "the climb starts at the top")
            elif s.t not in SAME + ("filter", "take_while", "filter_map", "skip_while"):
                raise Unk("the directories pass through " + s.t)
    for c in rec.conts:
        for p in c.paths():
            ok = False
            kept = {F for F, u in c.upd.items() if unref(some_of(u)) is D and is_none(rec.init.get(F))}
            for k, v in p.items():
                if exists(k) is D and v is False:
                    ok = True
                if k.t == "discr" and k.a[0].t == "lv" and (v == "Some" and remembered(e, *k.a[0].a) is D or v == "None" and k.a[0].a[1] in kept):
                    ok = True
                if is_eq(k, D) and v is True or call(k, "starts_with") and v is False and k.a[1] is D and k.a[2] is ROOT:
                    ok = True
            if not ok:
                R.bad("grouping:nearest", w, "the climb passes over a directory that may hold a %s (%s)" % (MARK, why(p)))
        if lv is not None:
            u = c.upd.get(lv.a[1])
            up = None
            if D is lv:
                up = u is not None and u.t == "op" and u.a[0] == "pl:Some" and call(u.a[1], "parent") and u.a[1].a[1] is D
            elif D.t == "op" and D.a[0] == "pl:Some" and D.a[1] is lv:
                up = u is not None and call(u, "parent") and u.a[1] is D
            elif D.t == "mut" and D.a[0] is lv and len(D.a) == 2 and str(D.a[1].a[1]).endswith("::pop"):
                up = u is D
            if not up:
                x, n = u, 0
                while x is not None and x.t == "op" and (x.a[0] == "pl:Some" or call(x, "parent")):
                    n += call(x, "parent")
                    x = x.a[1]
                if n > 1 or u is None or u is lv or u.t == "mut" and sum(str(y.a[1]).endswith("::pop") for y in u.a[1:]) > 1:
                    R.bad("grouping:step", w, "the climb does not go up one directory at a time: " + show(u)[:100] if u is not None else "the climb stays where it is")
                else:
                    raise Unk("the climb goes to " + show(u)[:100])


# ---- rewriting ----
def rewriting(R, r, rg):
    e = r.e
    w = ctx.where(RELATIVE)
    n0 = len(R.bads) + len(R.unks)
    npaths = 0
    canonical = rg is not None and uses_canonical(rg)
    for s, v in r.outcomes():
        if not (v.t == "mut" and len(v.a) == 2 and v.a[1].a[0] == "loop" and is_new(v.a[0])):
            if v is ROOT or base(v) is ROOT:
                if any(k.t == "op" and k.a[0] == "eq" and b is True for k, b in s.conds.items()):
                    continue
            raise Unk("returns " + show(v)[:100])
        L, pk = v.a[1].a[1], v.a[1].a[2]
        rec = e.loops[L]
        src, stages = ctx.sources(rec)
        whole_loop(R, "rewriting", w, rec, src, stages, mk("param", "arg0"))
        for c in rec.conts:
            u = c.upd.get(pk)
            ops = [] if u is None or u.t == "lv" else list(u.a[1:]) if u.t == "mut" else None
            if ops is None or any(o.a[0] != "push" for o in ops):
                raise Unk("the ids become " + show(u)[:100])
            for p in c.paths():
                npaths += 1
                if not ops:
                    R.bad("rewriting:dropped", w, "a test is dropped (%s)" % why(p))
                    continue
                if len(ops) > 1:
                    R.bad("rewriting:twice", w, "one test becomes %d" % len(ops))
                rewritten(R, w, p, ops[0].a[1], src, canonical)
    R.count("paths of the rewriting loop", npaths)
    R.floor("paths of the rewriting loop", npaths, 2, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("rewriting", "%d paths: the path made relative, the rest of the id kept" % npaths)


def uses_canonical(r):
    """The groups' keys are made from resolved paths."""
    for s, v in r.outcomes():
        for o in v.a[1:] if v.t == "mut" else ():
            if o.a[0] == "loop":
                for c in r.e.loops[o.a[1]].conts:
                    u = c.upd.get(o.a[2])
                    for y in walk(u) if u is not None else ():
                        if y.t == "fold" and isinstance(y.a[0], int):
                            i = r.e.loops[y.a[0]].init.get(y.a[1])
                            if i is not None and contains(i, lambda z: call(z, "canonicalize")):
                                return True
                        if y.t == "elem" and y.a[0].t.startswith("of:Path::ancestors") and contains(y.a[0], lambda z: call(z, "canonicalize")):
                            return True
    return False


OLD, NEW = mk("param", "arg1"), mk("param", "arg2")


def rewritten(R, w, conds, v, src, canonical):
    el = next((y for x in [v] + list(conds) for y in walk(x) if y.t in ("elem", "nextof") and base(y.a[0]) is base(src)), None)
    if el is None:
        raise Unk("the test itself is not seen")

    def route(q):
        """How path q stands for the test's file."""
        if q.t == "op" and q.a[0] == "pl:Ok" and call(q.a[1], "canonicalize"):
            x = route(q.a[1].a[1])
            return "canonical" if x == "lexical" else x
        if q.t == "op" and q.a[0] == "pjoin":
            if q.a[1] is not OLD:
                return "the path is taken relative to %s" % show(q.a[1])[:60]
            return "lexical" if file_part(q.a[2], el, conds) else "the path is not that of the test's file: " + show(q.a[2])[:60]
        return None
    if v is el or plain(v, base(src)) or strs.piece(v, el, "::") == (None, 0, None):
        fails = set()
        for k, b in conds.items():
            if k.t == "discr" and b == "Err" and call(k.a[0], "strip_prefix") and k.a[0].a[2] is NEW:
                x = route(k.a[0].a[1])
                if x in ("lexical", "canonical"):
                    fails.add(x)
            if k.t == "discr" and b == "Err" and call(k.a[0], "canonicalize") and route(k.a[0].a[1]) == "lexical":
                fails.add("canonical")
            if k.t == "op" and k.a[0] == "eq" and b is True and set(k.a[1:]) == {OLD, NEW}:
                return
            if call(k, "starts_with") and b is False and k.a[2] is NEW and route(k.a[1]) in ("lexical", "canonical"):
                fails.add(route(k.a[1]))
        if not fails:
            R.bad("rewriting:kept", w, "an id is left as it is although its file may lie below the new base (%s)" % why(conds))
        elif canonical and "canonical" not in fails:
            R.bad("rewriting:symlink", w, "groups are found by resolved path, but an id whose path leads there through a symlink is left as it is")
        return
    parts = list(v.a) if v.t == "cat" else [v]
    head, tail = parts[0], parts[1:]
    if head.t == "op" and head.a[0] in ("ptext", "text", "to_string"):
        head = head.a[1]
    else:
        bad = [y for y in walk(v) if y.t == "op" and y.a[0].split("::")[-1] in ("replace", "replacen", "trim_start_matches", "trim_matches", "file_name", "file_stem")]
        if bad:
            R.bad("rewriting:path", w, "an id is not rewritten by taking its path relative to the new base: " + show(v)[:120])
            return
        raise Unk("an id becomes " + show(v)[:120])
    if head.t == "op" and head.a[0] == "default" or head.t == "default":
        R.bad("rewriting:path", w, "an id's path can become empty: " + show(v)[:120])
        return
    if head.t == "op" and head.a[0] == "pl:Ok" and call(head.a[1], "strip_prefix") and head.a[1].a[2] is NEW:
        x = route(head.a[1].a[1])
        if x is None:
            raise Unk("the path made relative is " + show(head.a[1].a[1])[:100])
        if x not in ("lexical", "canonical"):
            R.bad("rewriting:path", w, x)
    else:
        lost = [y for y in walk(head) if call(y, "file_name") or call(y, "file_stem") or call(y, "parent")]
        if lost:
            R.bad("rewriting:path", w, "an id keeps only part of its relative path: " + show(head)[:100])
            return
        raise Unk("the new path is " + show(head)[:100])
    n = strs.parts(conds, el, "::").get(None, (1, None))
    if not tail:
        if n[1] != 1:
            R.bad("rewriting:rest", w, "the part of the id from its first '::' on is dropped (%s)" % why(conds))
        return
    # tail: '::' + everything after the first one
    if len(tail) == 1 and tail[0].t == "op" and tail[0].a[0] == "slice":
        r = tail[0]
        d = dict(r.a[2].a[2]) if r.a[2].t == "agg" else {}
        stt = d.get("start")
        if r.a[1] is el and stt is not None and d.get("end") is None and stt.t == "op" and stt.a[0] in ("find", "pl:Some", "len"):
            at = stt.a[1]
            if stt.a[0] == "len" and file_part(at, el, conds) or stt.a[0] == "find" and at is el and isc(stt.a[2]) and cval(stt.a[2]) == "::":
                return
        raise Unk("the rest of the id is " + show(r)[:100])
    if isc(tail[0]) and str(cval(tail[0])) == "::" and len(tail) > 1:
        rest = tail[1] if len(tail) == 2 else mk("cat", *tail[1:])
        p = strs.piece(rest, el, "::")
        if p == (None, 1, None) or p == (None, 1, 2) and n == (2, 2):
            return
        R.bad("rewriting:rest", w, "the part of the id after its first '::' does not stay as it was: " + show(rest)[:100])
        return
    if any(isc(t) for t in tail) or all(strs.piece(t, el, "::") is not None for t in tail):
        R.bad("rewriting:rest", w, "the rest of the id does not stay as it was: " + show(mk("cat", *tail))[:100])
        return
    raise Unk("the rest of the id is " + show(mk("cat", *tail))[:100])
