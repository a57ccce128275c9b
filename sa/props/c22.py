"""C22: only names matching the configured patterns are tests, and every matching one is considered."""
import ast
from .. import ctx, pyc, pyx
from ..mir import dnf
from ..pyc import Sources, Unk, brief
from ..rows import Bad
from ..flow import norm
from ..terms import *

PAT = "python_discovery::pattern::matches"
GLOB = "collection::utils::glob_match"
S = "python_discovery::semantic_analyzer::SemanticTestDiscovery::"
V = "python_discovery::visitor::TestDiscoveryVisitor::"
FN = pyc.RUNNER + "_discover_tests_in_module"
KINDS = {"python_functions": "function", "python_classes": "class"}


def check(R):
    R.rule("Every path of both pattern matchers, of the name tests of collection and of every place that makes a test (Rust and Python) is enumerated. A test is made only "
           "where the glob match of its own name with an element of the configured list for its kind is known to hold; a name is passed over only when the whole list is "
           "exhausted and each element failed to match. Classes are left out exactly where the constructor search says so, with a warning.")
    R.assume("glob::Pattern and fnmatch give * ? [] their documented meaning, which agree on identifiers")
    guard(R, "collection:matches", PAT, matcher, R, PAT)
    guard(R, "collection:glob", GLOB, matcher, R, GLOB)
    for p in (S, V):
        for f, field in (("is_test_function", "python_functions"), ("is_test_class", "python_classes")):
            guard(R, "collection:" + (p + f).split("::")[-2] + ":" + f, p + f, nametest, R, p + f, field)
    guard(R, "collection:methods", S + "collect_test_methods", places, R, S + "collect_test_methods")
    guard(R, "collection:class", S + "collect_class_tests", classes, R)
    guard(R, "collection:module", S + "discover_tests", places, R, S + "discover_tests")
    guard(R, "collection:visitor", V + "visit_function", places, R, V + "visit_function")
    guard(R, "collection:init", S + "should_skip_class", skipclass, R)
    guard(R, "collection:init-of-bases", S + "base_class_has_init_impl", bases, R)
    guard(R, "worker", FN, worker, R)


def guard(R, key, where, f, *a):
    n = len(R.bads), len(R.unks)
    try:
        d = f(*a)
    except Bad as b:
        R.bad(key + ":" + b.key, where, str(b))
        return
    except Unk as u:
        R.unk(key, str(u))
        return
    if n == (len(R.bads), len(R.unks)):
        R.ok(key, d or "")


# ---- the matchers ----
def unpl(t):
    while t.t == "op" and t.a[0] in ("as_str", "as_ref", "deref", "call:core::ops::Deref::deref", "to_string", "clone") and len(t.a) == 2:
        t = t.a[1]
    return t


def called(t, *names):
    return t.t == "op" and t.a[0].startswith("call:") and t.a[0].split("::")[-1].split(":")[-1] in names


def is_new(t):
    return called(t, "new") and "Pattern" in t.a[0]


def matcher(R, fn):
    r = ctx.run(R, fn, "matcher:" + fn)
    if r is None:
        return
    pat, name = mk("param", "arg0"), mk("param", "arg1")
    n = 0
    for s, v in r.rets:
        for d in s.paths():
            ok = None
            for k, b in d.items():
                if k.t == "discr" and is_new(k.a[0]):
                    ok = b
                if k.t == "op" and k.a[0] in ("is_ok", "is_err") and is_new(k.a[1]):
                    ok = "Ok" if (b is True) == (k.a[0] == "is_ok") else "Err"
            if ok == "Err":
                continue
            m = [x for x in walk(v) if called(x, "matches", "matches_with") and "Pattern" in x.a[0]]
            if v.t == "op" and m and v is m[0]:
                src = v.a[1]
                p = [y for y in walk(src) if is_new(y)]
                if not p:
                    raise Unk("a glob made by " + show(src)[:80])
                if p[0].a[1] is not pat:
                    if p[0].a[1] is name:
                        raise Bad("swapped", "the name is used as the pattern")
                    raise Bad("pattern", "the pattern matched is " + show(p[0].a[1])[:80]) if contains(p[0].a[1], lambda y: y is pat) else Unk("the pattern " + show(p[0].a[1])[:80])
                if v.a[2] is pat:
                    raise Bad("swapped", "the pattern is used as the name")
                if v.a[2] is not name:
                    raise Bad("name", "the name matched is " + show(v.a[2])[:80]) if contains(v.a[2], lambda y: y is name) else Unk("the name " + show(v.a[2])[:80])
                if called(v, "matches_with"):
                    raise Unk("match options " + show(v.a[3])[:80])
                n += 1
                continue
            known = [(k, b) for k, b in d.items() if called(k, "matches") and "Pattern" in k.a[0]]
            if isc(v) and known and cval(v) is known[-1][1]:
                n += 1
                continue
            eq = [k for k, b in d.items() if b is True and k.t == "op" and k.a[0] == "eq" and {k.a[1], k.a[2]} == {pat, name}]
            if isc(v) and cval(v) is True and eq:
                # an identifier holds no wildcard: a pattern equal to it matches it
                n += 1
                continue
            star = [k for k, b in d.items() if b is True and k.t == "op" and k.a[0] == "eq" and any(y is pat for y in k.a[1:]) and any(isc(y) and cval(y) == "*" for y in k.a[1:])]
            if isc(v) and cval(v) is True and star:
                n += 1
                continue
            nowild = {c for k, b in d.items() if b is False and k.t == "op" and k.a[0] in ("has_sep", "contains") and k.a[1] is pat for y in k.a[2:] for c in chars(y)}
            if {"*", "?", "["} <= nowild and v.t == "op" and v.a[0] == "eq" and {v.a[1], v.a[2]} == {pat, name}:
                n += 1
                continue
            if not contains(v, lambda y: y.t == "op" and y.a[0].startswith("call:") and not any(w in y.a[0] for w in ("str", "Pattern"))):
                raise Bad("literal", "a pattern is compared by parts, so wildcards elsewhere in it are taken literally: %s (%s)" % (show(v)[:90], brief(d)))
            raise Unk("the match " + show(v)[:100])
    if n == 0:
        raise Bad("floor", "no path matches the name with the pattern")
    return "the whole name against the whole pattern (%d paths)" % n


def chars(y):
    if isc(y) and isinstance(cval(y), str):
        return {cval(y)}
    if isc(y) and isinstance(cval(y), tuple):
        return set(cval(y))
    if y.t in ("arr", "tup"):
        return {c for z in y.a for c in chars(z)}
    return set()


# ---- the name tests of collection ----
def patmatch(k):
    """(pattern, name) of a pattern match."""
    if called(k, "matches", "glob_match") and len(k.a) == 3 and "Pattern" not in k.a[0]:
        return k.a[1], k.a[2]


def nametest(R, fn, field):
    r = ctx.run(R, fn, "nametest:" + fn, opaque=ctx.named("matches", "glob_match"))
    if r is None:
        return
    name = mk("param", "arg1")
    for s, v in r.rets:
        if not isc(v):
            m = patmatch(v)
            if m:
                raise Bad("single", "the name is matched with %s only" % show(m[0])[:80])
            if v.t == "op" and v.a[0] in ("any", "all"):
                raise Unk("a name test " + show(v)[:80])
            if v.t in ("fold", "lv"):
                flagged(r, v, field, name)
                continue
            if not contains(v, lambda y: y.t == "op" and y.a[0].startswith("call:") and "str" not in y.a[0]):
                raise Bad("other", "the name is tested by " + show(v)[:80])
            raise Unk("a name test " + show(v)[:80])
        for d in s.paths():
            if cval(v):
                if not matched(r, d, field, name):
                    raise Bad("unmatched", "a name counts as a test although no match with .%s is known (%s)" % (field, brief(d)))
            else:
                exhausted(r, d, field, name)
    return "any one pattern of ." + field


def of_list(t, field):
    """True for an element of the configured list of the kind; the other field's name when it is the other list."""
    if t.t != "elem":
        return None
    s = pyc.strip(t.a[0])
    if s.t == "op" and s.a[0].startswith("."):
        n = s.a[0][1:]
        if n == field:
            return True
        if n in KINDS:
            return n
    return None


def matched(r, d, field, name):
    for k, b in d.items():
        m = patmatch(k)
        if m and b is True:
            w = of_list(m[0], field)
            if w not in (True, None):
                raise Bad("kind", "the name is matched with the patterns of ." + w)
            if w is None:
                if part(m[0], field):
                    raise Bad("part", "only a part of the patterns is used: " + show(m[0])[:80])
                raise Unk("a match with " + show(m[0])[:80])
            if m[1] is not name:
                if contains(m[1], lambda y: y is name):
                    raise Bad("name", "the name matched is " + show(m[1])[:80])
                raise Unk("the name matched is " + show(m[1])[:80])
            return True
    return False


def part(t, field):
    return contains(t, lambda y: y.t == "op" and y.a[0] == "." + field)


def exhausted(r, d, field, name):
    for k, b in d.items():
        if k.t == "next" and b is False:
            rec = r.e.loops[k.a[2]]
            src, stages = ctx.sources(rec)
            if src is None:
                continue
            f = pyc.strip(src)
            if not (f.t == "op" and f.a[0] == "." + field):
                if f.t == "op" and f.a[0][1:] in KINDS:
                    raise Bad("kind", "the name is matched with the patterns of " + f.a[0])
                if contains(src, lambda y: y.t == "op" and y.a[0] == "." + field):
                    raise Bad("part", "only a part of the patterns is used: " + show(src)[:80])
                continue
            if any(x.t not in ("map", "cloned", "copied", "rev", "enumerate", "inspect", "back") for x in stages):
                raise Bad("part", "only a part of the patterns is used: " + ",".join(x.t for x in stages))
            for c in rec.conts:
                for e in c.paths():
                    if not any((patmatch(q) and w is False and patmatch(q)[1] is name and of_list(patmatch(q)[0], field) is True) for q, w in e.items()):
                        raise Bad("passed", "a pattern is passed over without being matched (%s)" % brief(e))
            return
    empty = [k for k, b in d.items() if k.t == "op" and k.a[0] == "is_empty" and b is True and part(k, field)]
    if empty:
        return
    raise Bad("early", "a name is rejected before every pattern of .%s failed to match (%s)" % (field, brief(d)))


def flagged(r, v, field, name):
    raise Unk("a flag " + show(v)[:80])


# ---- the places of collection that make tests ----
AGG = ("TestInfo", "TestMethodInfo", "CachedMethodInfo")
OPQ = ("is_test_function is_test_class parse_decorators_to_specs should_skip_class resolve_base_class is_stdlib_module_to_skip get_base_class_methods combine_and_expand_specs "
       "collect_class_tests collect_test_classes collect_imports parse_decorators_for_cases from_module").split()


def nameroot(t):
    for x in walk(t):
        if x.t == "op" and x.a[0] == ".name":
            return x
    return None


def testname(k, f="is_test_function"):
    return nameroot(k.a[2]) if called(k, f) and len(k.a) > 2 else None


def pushes(u):
    for o in (u.a[1:] if u is not None and u.t == "mut" else ()):
        if o.a[0] == "fld":
            o = o.a[2]
        if o.a[0] in ("push", "insert", "vinsert") and o.a[-1].t == "agg" and o.a[-1].a[0].split("::")[-1] in AGG:
            yield o.a[-1]


def found(conts, r):
    """(record, conditions) for each record added on a path or in an iteration."""
    for L, rec in r.e.loops.items():
        for i, c in enumerate(rec.conts):
            for k, u in c.upd.items():
                for a in pushes(u):
                    yield a, c.paths(), (L, i)
    for s, v in r.rets:
        for u in s.env.values():
            if isinstance(u, N):
                for a in pushes(u):
                    yield a, s.paths(), None


def places(R, fn):
    r = ctx.run(R, fn, "places:" + fn, opaque=tuple(o for o in ctx.named(*OPQ) if o != fn))
    if r is None:
        return
    return judge(R, r, fn)


def judge(R, r, fn):
    n = 0
    named = {}
    for a, ps, at in found(r.e.loops, r):
        n += 1
        nm = nameroot(dict(a.a[2])["name"])
        if at:
            named.setdefault(at[0], set()).add(at[1])
        if nm is None:
            raise Unk("a test named " + show(dict(a.a[2])["name"])[:80])
        src = nm.a[1]
        if src.t == "elem" and contains(src, lambda y: called(y, "get_base_class_methods", "get_base_class_methods_impl") or y.t == "op" and y.a[0] in (".test_methods", ".methods")):
            continue    # recorded under the same rule
        for d in ps:
            ks = [k for k, b in d.items() if b is True and testname(k) is nm]
            if not ks:
                other = [k for k, b in d.items() if b is True and testname(k, "is_test_class") is nm]
                if other:
                    raise Bad("kind", "a function is taken by the patterns of classes (%s)" % fn.split("::")[-1])
                if any(called(k, "matches", "glob_match") for k in d):
                    raise Unk("a name matched in place")
                raise Bad("unmatched", "a function is collected although its name is not known to match (%s: %s)" % (fn.split("::")[-1], brief(d)))
    R.count("places that make tests", n)
    if n == 0:
        raise Bad("floor", "%s makes no test" % fn)
    for L, its in named.items():
        rec = r.e.loops[L]
        src, stages = ctx.sources(rec)
        if src is None or not contains(src, lambda y: y.t == "op" and y.a[0] == ".body"):
            continue
        passed(r, rec, its, L)
    return "every test under a match of its own name (%d places)" % n


def passed(r, rec, its, L):
    src, stages = ctx.sources(rec)
    if any(x.t in ("take", "skip", "step_by", "take_while", "skip_while") for x in stages):
        raise Bad("skipped", "statements are left out by " + ",".join(x.t for x in stages))
    b = src
    while b.t in ("seq", "coll"):
        b = b.a[0]
    if b.t in ("slice",) or b.t == "op" and b.a[0] in ("slice", "index"):
        raise Bad("skipped", "statements are left out: " + show(b)[:80])
    for i, c in enumerate(rec.conts):
        if i in its:
            continue
        for d in c.paths(256):
            why = None
            for k, v in d.items():
                if k.t == "discr" and k.a[0].t == "elem" and k.a[0].a[1] == L:
                    if v != "FunctionDef" and not (isinstance(v, tuple) and v[0] == "not" and "FunctionDef" not in v):
                        why = k
                elif v is False and testname(k) is not None:
                    why = k
            if why is None and not any(k.t == "discr" and k.a[0].t == "elem" and k.a[0].a[1] == L for k in d):
                if not any(k.t != "next" for k in d):
                    raise Unk("an iteration without a test")
            if why is None:
                raise Bad("passed", "a function whose name matches is passed over (%s)" % brief(d))
    for ex in rec.exits:
        if any(k.t == "next" and k.a[2] == L and v is True for k, v in ex[1].items()):
            # left early: only to report an error
            pass


def warned(s):
    for u in s.env.values():
        if isinstance(u, N) and contains(u, lambda y: y.t == "o" and y.a[0] == "push" and y.a[-1].t == "agg" and y.a[-1].a[0].split("::")[-1] == "CollectionWarning"):
            return True
    return False


def classes(R):
    fn = S + "collect_class_tests"
    r = ctx.run(R, fn, "places:" + fn, opaque=tuple(o for o in ctx.named(*OPQ) if o != fn))
    if r is None:
        return
    judge(R, r, fn)
    for s, v in r.rets:
        if v.t != "agg" or v.a[1] != "Ok":
            continue
        inner = v.a[2][0][1]
        got = inner.t == "agg" and inner.a[1] == "Some"
        if inner.t != "agg":
            raise Unk("a result " + show(v)[:80])
        for d in s.paths():
            isclass = skip = None
            for k, b in d.items():
                if called(k, "is_test_class"):
                    if not contains(k.a[2], lambda y: y.t == "param" and y.a[0] == "arg1"):
                        raise Bad("class:name", "the class test is made of " + show(k.a[2])[:80])
                    isclass = b
                if isinstance(b, bool) and k.t == "op" and k.a[0] == "pl:Ok" and called(k.a[1], "should_skip_class"):
                    skip = b
            if got:
                if isclass is not True:
                    raise Bad("class:unmatched", "the methods of a class are collected although its name is not known to match (%s)" % brief(d))
                if skip is not False:
                    raise Bad("class:constructor", "a class is collected without it being known that it has no constructor (%s)" % brief(d))
            else:
                if isclass is False:
                    continue
                if skip is not True:
                    raise Bad("class:dropped", "a class whose name matches is left out (%s)" % brief(d))
                if not warned(s):
                    raise Bad("class:silent", "a class with a constructor is left out without a warning")
    return "classes by their own name, none with a constructor, and a warning for these"


def skipclass(R):
    fn = S + "should_skip_class"
    r = ctx.run(R, fn, "init", opaque=ctx.named("class_has_init", "base_class_has_init", "resolve_base_class", "is_stdlib_module_to_skip"))
    if r is None:
        return
    return search(r, "class_has_init", "base_class_has_init")


def bases(R):
    fn = S + "base_class_has_init_impl"
    r = ctx.run(R, fn, "init", opaque=ctx.named("base_class_has_init_impl", "is_stdlib_module_to_skip", "ensure_module_loaded"))
    if r is None:
        return
    return search(r, None, "base_class_has_init_impl")


def search(r, own, rec_):
    """Answers no only when the class has no constructor and every base it knows was asked and has none."""
    some = 0
    for s, v in r.rets:
        if v.t != "agg" and contains(v, lambda y: called(y, rec_)):
            raise Bad("one", "the answer is that of one base: " + show(v)[:80])
        if v.t != "agg" or v.a[1] != "Ok":
            continue
        b = v.a[2][0][1]
        if not isc(b):
            # handed on from the search of a base
            if contains(b, lambda y: called(y, rec_)):
                raise Bad("one", "the answer is that of one base: " + show(b)[:80])
            raise Unk("an answer " + show(b)[:80])
        if cval(b):
            continue
        for d in s.paths():
            if any(called(k, "is_stdlib_module_to_skip") and w is True for k, w in d.items()):
                continue
            if any(k.t == "op" and k.a[0] == "contains" and k.a[1].t == "param" and w is True for k, w in d.items()):
                continue
            if any(k.t == "op" and k.a[0] == "contains" and w is False and contains(k.a[1], lambda y: y.t == "op" and y.a[0] == ".class_cache") for k, w in d.items()):
                continue
            if own:
                ok = any(called(k, own) and w is False for k, w in d.items())
            else:
                ok = any(k.t == "op" and k.a[0] == ".has_init" and w is False for k, w in d.items())
            if not ok:
                raise Bad("own", "a class is taken to have no constructor without looking (%s)" % brief(d))
            some += 1
            Ls = [k.a[2] for k, w in d.items() if k.t == "next" and w is False]
            noargs = any(k.t == "discr" and w == "None" for k, w in d.items())
            if not Ls and not noargs:
                raise Bad("bases", "a class is taken to have no constructor without asking its bases (%s)" % brief(d))
            for L in Ls:
                rec = r.e.loops[L]
                src, stages = ctx.sources(rec)
                if any(x.t in ("take", "skip", "step_by") for x in stages):
                    raise Bad("bases", "bases are left out by " + ",".join(x.t for x in stages))
                for c in rec.conts:
                    for q in c.paths():
                        if any(called(k, "is_stdlib_module_to_skip") and w is True for k, w in q.items()):
                            continue
                        if any(k.t == "discr" and w == "None" for k, w in q.items()):
                            continue
                        if not any(contains(k, lambda y: called(y, rec_)) and w is False for k, w in q.items()):
                            raise Bad("base", "a base is passed over (%s)" % brief(q))
    if some == 0:
        raise Unk("no path answers no")
    return "no only when nothing in reach has one (%d paths)" % some


# ---- the worker ----
def params(R):
    d = pyx.modules()["rtest.worker.runner"].names["_discover_tests_in_module"][1]
    a = [x.arg for x in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
    return [x for x in a]


def fm(k):
    """(name, pattern) of a match in the worker."""
    if k.t == "op" and k.a[0] in ("call:fnmatch.fnmatch", "call:fnmatch.fnmatchcase") and len(k.a) == 3:
        return k.a[1], k.a[2]


def worker(R):
    r = pyc.analyse(R, FN, inline=("_is_test_function", "_is_test_class"), must=False)
    if r is None:
        return
    ps = params(R)
    if not set(KINDS) <= set(ps):
        raise Unk("the parameters of discovery are " + ", ".join(ps))
    e = r.e
    n = 0
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        considered(e, x, e.freeze(x, status[1]))
        items = Sources(e).of(e.freeze(x, status[1]))
        for t, nest in items:
            if t.t != "agg" or "nodeid" not in dict(t.a[2]):
                raise Unk("a test " + show(t)[:80])
            n += 1
            made(e, x, dict(t.a[2]), nest)
    if n < 2:
        raise Bad("floor", "discovery makes %d kinds of tests" % n)
    return "every test under matches of its own names; members are passed over only for a reason (%d places)" % n


def filled(e, t, nest=()):
    """What a list or dict that is filled in loops holds: [(value, loop iterations that add it)], None if not followed."""
    while t.t in ("seq", "coll", "map_items") or t.t == "op" and t.a[0] in ("items", "m:items", "call:list", "call:tuple") and len(t.a) == 2:
        t = t.a[0] if t.t != "op" else t.a[1]
    if t.t != "mut" or t.a[0].t not in ("lv",) and not (t.a[0].t == "op" and t.a[0].a[0].endswith("_new")):
        return None
    out = []
    for o in t.a[1:]:
        if o.a[0] in ("push", "add"):
            out.append((o.a[-1], nest))
        elif o.a[0] in ("set", "insert") and len(o.a) >= 3:
            out.append((mk("tup", o.a[1], o.a[2]), nest))
        elif o.a[0] == "loop":
            for i, c in enumerate(e.loops[o.a[1]].conts):
                u = c.upd.get(o.a[2])
                if u is None or u.t == "lv":
                    continue
                r = filled(e, u, nest + ((o.a[1], i),))
                if r is None:
                    return None
                out += r
        elif o.a[0] not in ("sort", "reverse"):
            return None
    return out


def put(t, a, b):
    if t is a:
        return b
    if not isinstance(t, N):
        return tuple(put(x, a, b) for x in t) if isinstance(t, tuple) else t
    if not contains(t, lambda y: y is a):
        return t
    return norm(rebuild(t.t, tuple(put(x, a, b) for x in t.a)))


def traced(e, parts, d, depth=0):
    """[(id parts, conditions)] with every element of a list made here replaced by what was put into the list."""
    els = {y for p in parts for y in walk(p) if isinstance(y, N) and y.t == "elem"}
    for el in els if depth < 3 else ():
        r = filled(e, el.a[0])
        if not r:
            continue
        out = []
        for v, nest in r:
            conds, gs = {}, []
            for L, i in nest:
                c = e.loops[L].conts[i]
                conds.update(c.conds)
                gs += c.groups
            for q in dnf(conds, gs, 64):
                d2 = {put(k, el, v): b for k, b in d.items()}
                out += traced(e, [put(p, el, v) for p in parts], {**d2, **q}, depth + 1)
        return out
    return [(parts, d)]


def made(e, x, f, nest):
    cl = f.get("test_class")
    iscls = not (cl is None or isc(cl) and cval(cl) is None)
    conds, gs = dict(x.conds), list(x.groups)
    for L, i in nest:
        c = e.loops[L].conts[i]
        conds.update(c.conds)
        gs += c.groups
    parts = f["nodeid"].a if f["nodeid"].t == "cat" else (f["nodeid"],)
    for parts, d in [y for d in dnf(conds, gs, 256) for y in traced(e, parts, d)]:
        got = {k: set() for k in KINDS}
        for k, b in d.items():
            m = fm(k)
            if m and b is True:
                w = listof(e, m[1])
                if w is None:
                    raise Unk("a match with " + show(m[1])[:80])
                if w[0] == "part":
                    continue
                got[w[1]].add(m[0])
            elif b is True and k.t == "op" and k.a[0] == "truth" and k.a[1].t == "fold":
                for kind, nm in flag(e, k.a[1]):
                    got[kind].add(nm)
            elif b is True and k.t == "op" and k.a[0] == "contains" and pyc.strip(k.a[1]).t == "param" and pyc.strip(k.a[1]).a[0] in KINDS:
                got[pyc.strip(k.a[1]).a[0]].add(k.a[2])
            elif b is True and k.t == "op" and k.a[0] == "eq" and len(k.a) == 3:
                for p, nm in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    w = listof(e, p)
                    if w and w[0] == "all":
                        got[w[1]].add(nm)
        names = [p for p in parts if not isc(p)]
        need = ["python_functions"] if not iscls else ["python_classes", "python_functions"]
        for kind in need:
            if not any(p in got[kind] for p in names):
                other = [q for q in KINDS if q != kind and got[q]]
                if any(got[kind]):
                    raise Bad("name:" + kind, "a test is made although the name matched with %s is not in its id: %s" % (kind, show(sorted(got[kind])[0])[:80]))
                if unknown(d):
                    raise Unk("a test made under " + brief(d))
                raise Bad("unmatched:" + kind, "a test is made although the name of its %s is not known to match (%s)" % (KINDS[kind], brief(d)))
        if iscls and got["python_classes"] and got["python_functions"]:
            a = [p for p in names if p in got["python_classes"]]
            b = [p for p in names if p in got["python_functions"]]
            if len(set(a + b)) < 2:
                raise Bad("name:same", "the class and the method are matched by the same name")


def unknown(d):
    for k in d:
        if k.t == "op" and (k.a[0].startswith("py:") or k.a[0] in ("call:re.match", "call:re.fullmatch", "any", "all", "call:any", "call:all", "ucall", "call:fnmatch.filter")):
            if k.a[0] not in ("py:_is_skipped",):
                return True
        if k.t == "op" and k.a[0] == "truth" and k.a[1].t in ("fold", "coll", "mut"):
            return True
    return False


def listof(e, p):
    """("all", kind) for an element of a whole pattern list, ("part", kind) for an element of a part of it."""
    if p.t == "elem":
        s = pyc.strip(p.a[0])
        if s.t == "op" and s.a[0] in ("call:set", "call:frozenset", "call:dict.fromkeys") and len(s.a) == 2:
            s = pyc.strip(s.a[1])
        if s.t == "param":
            return ("all", s.a[0]) if s.a[0] in KINDS else None
    for x in walk(p):
        if x.t == "param" and x.a[0] in KINDS:
            return ("part", x.a[0])
    return None


def flag(e, t):
    """(kind, name) of the matches a flag set in a loop over the patterns stands for."""
    L, pk = t.a
    rec = e.loops[L]
    lv = rec.lv.get(pk)
    if rec.init.get(pk) is not FALSE and not (rec.init.get(pk) is not None and isc(rec.init[pk]) and cval(rec.init[pk]) is False):
        raise Bad("flag", "a match flag does not start as false")
    out = set()
    for c in rec.conts:
        u = c.upd.get(pk, lv)
        for d in dnf(c.conds, c.groups, 16):
            hit = [(listof(e, fm(k)[1]), fm(k)[0]) for k, b in d.items() if fm(k) and b is True]
            if u is lv:
                if hit:
                    raise Bad("flag", "a match is not recorded")
                continue
            if isc(u) and cval(u) is True:
                if not hit:
                    raise Bad("flag", "a name is taken without a match")
                out |= {(w[1], nm) for w, nm in hit if w and w[0] == "all"}
                continue
            if isc(u) and cval(u) is False or fm(u):
                raise Bad("flag", "only the last pattern decides")
            raise Unk("a flag " + show(u)[:80])
    return out


def used_up(e, k, b, kind, nm=None):
    """Whether a condition says that no pattern of a kind matches."""
    if k.t == "exit" and b == 0:
        L = k.a[0]
    elif k.t == "op" and k.a[0] == "truth" and k.a[1].t == "fold" and b is False:
        fs = flag(e, k.a[1])
        L = k.a[1].a[0]
        s = pyc.strip(pyc.nextkey(e, L)[0])
        return s.t == "param" and s.a[0] == kind
    else:
        return False
    rec = e.loops[L]
    src, stages = pyc.nextkey(e, L)
    if src is None:
        return False
    s = pyc.strip(src)
    if s.t == "op" and s.a[0] in ("call:set", "call:frozenset", "call:dict.fromkeys") and len(s.a) == 2:
        s = pyc.strip(s.a[1])
    if not (s.t == "param" and s.a[0] == kind):
        return False
    if any(x.t not in ("enumerate", "map", "rev") for x in stages):
        return False
    for c in rec.conts:
        for d in dnf(c.conds, c.groups, 32):
            if not any(fm(q) and w is False and listof(e, fm(q)[1]) == ("all", kind) for q, w in d.items()):
                return False
    return True


def kindtest(k, which):
    """Whether a condition asks if the member is a function (or class)."""
    fs = {"function": ("call:inspect.isfunction", "call:inspect.isroutine", "callable", "call:callable", "call:inspect.ismethod"), "class": ("call:inspect.isclass",)}[which]
    if k.t == "op" and k.a[0] in fs:
        return True
    if k.t == "op" and k.a[0] in ("isinstance", "call:isinstance") and len(k.a) > 2:
        s = show(k.a[2])
        return ("Function" in s) if which == "function" else (s.endswith("type") or "g[type]" in s)
    return False


def considered(e, x, v):
    """Members are passed over only for a reason."""
    todo = []
    collect(e, v, todo)
    if not todo:
        if pyc.strip(v).t == "tup" or v.t == "mut":
            raise Unk("the tests of a module " + show(v)[:80])
    seen = set()
    for k, b in x.conds.items():
        if k.t == "exit" and b != 0 and k.a[0] in [L for L, _ in todo]:
            raise Bad("early", "members after some point are not considered")
    while todo:
        L, pk = todo.pop()
        if (L, pk) in seen:
            continue
        seen.add((L, pk))
        rec = e.loops[L]
        src, stages = pyc.nextkey(e, L)
        if src is None:
            raise Unk("a loop at " + str(rec.where))
        s = pyc.strip(src)
        if s.t == "seq":
            s = s.a[0]
        if s.t == "op" and s.a[0] == "py:expand_parametrize":
            continue
        if filled(e, s):
            # a list of members made here: what is not put into it is passed over
            while s.t != "mut":
                s = s.a[-1]
            collect(e, s, todo)
        if contains(s, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice", "call:itertools.islice")) or any(y.t in ("take", "skip", "islice") for y in stages):
            raise Bad("part", "only a part of the members is considered: " + show(s)[:80])
        level = kindof(s, e)
        for kind, conds, ev, groups in rec.exits:
            if kind[0] == "exit" and any(k.t == "next" and k.a[2] == L and b is True for k, b in conds.items()):
                raise Bad("early", "members after some point are not considered (%s)" % brief(conds))
        for i, c in enumerate(rec.conts):
            u = c.upd.get(pk)
            if u is not None and u.t == "mut" and len(u.a) > 1:
                n = len(todo)
                collect(e, u, todo)
                for k, b in c.conds.items():
                    if k.t == "exit" and b != 0 and k.a[0] in [l for l, _ in todo[n:]]:
                        raise Bad("early", "members after some point are not considered")
                continue
            for d in dnf(c.conds, c.groups, 64):
                reason(e, rec, L, level, d, c)


def kindof(s, e=None, depth=0):
    if s.t == "op" and s.a[0] in ("call:inspect.getmro", ".__mro__", "m:mro", "call:type.mro"):
        return "mro"
    if contains(s, lambda y: y.t == "elem"):
        return "method"
    # names gathered from a class' bases
    for y in (walk(s) if e is not None and depth < 3 else ()):
        if y.t == "o" and y.a[0] == "loop" or y.t == "fold":
            i = pyc.nextkey(e, y.a[1] if y.t == "o" else y.a[0])[0]
            if i is not None and kindof(pyc.strip(i), e, depth + 1) != "member":
                return "method"
    return "member"


def collect(e, v, todo):
    if v.t == "fold":
        todo.append((v.a[0], v.a[1]))
        return
    if v.t in ("coll", "seq"):
        return collect(e, v.a[0], todo)
    if v.t == "op" and v.a[0] in ("add", "call:list", "call:sorted", "sorted"):
        for y in v.a[1:]:
            collect(e, y, todo)
        return
    if v.t != "mut":
        return
    if v.a[0].t not in ("lv",):
        collect(e, v.a[0], todo)
    for o in v.a[1:]:
        if o.a[0] == "loop":
            todo.append((o.a[1], o.a[2]))
        elif o.a[0] == "extend":
            collect(e, o.a[1], todo)


def reason(e, rec, L, level, d, c):
    nots = set()
    for k, b in d.items():
        for kind in KINDS:
            if used_up(e, k, b, kind):
                nots.add(KINDS[kind])
        for w in ("function", "class"):
            if kindtest(k, w):
                if b is False:
                    nots.add(w)
                elif k.a[0] not in ("callable", "call:callable"):
                    nots.add("class" if w == "function" else "function")
        if k.t == "op" and k.a[0] == "contains" and b is True and level == "method" and not contains(k.a[1], lambda y: y.t == "param" and y.a[0] in KINDS):
            fresh(e, rec, k.a[1])
            nots.add("function")
    if level == "mro":
        if any(b is True and k.t == "op" and k.a[0] in ("is", "eq") and contains(k, lambda y: y.t == "g" and y.a[0] == "object") for k, b in d.items()):
            return
        raise Unk("a base passed over (%s)" % brief(d))
    need = {"function"} if level == "method" else {"function", "class"}
    if need <= nots:
        return
    for k, b in d.items():
        if k.t in ("next",):
            continue
        if k.t == "op" and (k.a[0].startswith("py:") or k.a[0] in ("isinstance", "call:isinstance", "ucall", "call:re.match", "call:re.fullmatch", "is", "eq", "any", "all", "call:any", "call:all", "call:fnmatch.filter")) \
                and not modcond(k):
            raise Unk("a member passed over (%s)" % brief(d))
        if k.t == "op" and k.a[0] == "truth" and not modcond(k) and not contains(k, lambda y: y.t == "op" and y.a[0] in ("m:startswith", "m:endswith")):
            raise Unk("a member passed over (%s)" % brief(d))
        if k.t == "exit" and b == 0:
            # a list that is not exhausted by failed matches
            rec2 = e.loops[k.a[0]]
    raise Bad("passed:" + level, "a %s is passed over although its name matches (%s)" % ("method" if level == "method" else "member", brief(d)))


def modcond(k):
    return contains(k, lambda y: y.t == "op" and (y.a[0] in (".__module__", ".__qualname__", ".__name__", ".__doc__") or y.a[0] == "getattr" and len(y.a) > 2 and isc(y.a[2]) and cval(y.a[2]) in ("__module__", "__qualname__", "__name__", "__wrapped__")))


def fresh(e, rec, t):
    """The names seen belong to one class: the set is made anew for each."""
    for x in walk(t):
        if x.t == "lv":
            L, pk = x.a[0], x.a[1]
            for M, r2 in e.loops.items():
                src, _ = pyc.nextkey(e, M)
                if src is not None and kindof(pyc.strip(src) if pyc.strip(src).t != "seq" else pyc.strip(src).a[0]) == "member" and contains(src, lambda y: y.t == "param" and y.a[0] == "module"):
                    for c in r2.conts:
                        u = c.upd.get(pk)
                        if u is not None and u.t == "mut" and u.a[0].t == "lv" and any(o.a[0] != "clear" for o in u.a[1:]):
                            raise Bad("seen", "the names seen in one class hide the methods of the next")
