"""C17: a skipped test is reported as skipped, with its reason, and none of its code runs."""
from .. import pyc, pycases, pytest1 as P, rows
from ..mir import dnf, TooComplex
from ..pyc import Unk, brief
from ..terms import *
from . import c30

SK = pyc.RUNNER + "_is_skipped"


def check(R):
    R.rule("Paths of running one test, of recognising a marker and of making test cases are enumerated: no call of test code where the skip flag is set, the skipped outcome only there, the flag set exactly when a marker is found on the test or its class, the reason that of the marker.")
    n = len(R.bads), len(R.unks)
    for key, f, d in (("run", run, "no test code runs on a skipped path"), ("marker", marker, "a marker is found exactly if there is one"), ("cases", cases, "the flag of a case is that of the test or of its class"), ("decorator", decorator, "the decorator sets the attributes that are read")):
        a = len(R.bads), len(R.unks)
        f(R)
        if a == (len(R.bads), len(R.unks)):
            R.ok(key, d)


# ---- running ----
def run(R):
    r = pyc.analyse(R, P.FN, must=False)
    if r is None:
        return
    skipped = 0
    for p in P.paths(r):
        if p.rec is None and p.status != "ret":
            pass
        for conds in p.alts:
            s = P.skipped(conds)
            users = [u for u in p.steps if u[0] == "user"]
            out = p.rec.get("outcome") if p.rec else None
            if s is not False and users:
                R.bad("run:executed:" + users[0][1], P.FN, "%s runs although the test is skipped (%s)" % (users[0][1], brief(conds)))
            if s is True:
                skipped += 1
                if p.status != "ret" or out is None or not isc(out) or cval(out) != "skipped":
                    R.bad("run:outcome", P.FN, "a skipped test is reported as %s" % (show(out) if out is not None else p.status))
                    continue
                reason = p.rec.get("error")
                has = None
                for k, v in conds.items():
                    if k.t == "op" and k.a[0] == "truth" and P.tc_field(k.a[1], "skip_reason"):
                        has = v
                    if k.t == "op" and k.a[0] in ("is_empty", "isnone") and P.tc_field(k.a[1], "skip_reason"):
                        has = not v
                if has is not False and (reason is None or not contains(reason, lambda y: P.tc_field(y, "skip_reason"))):
                    R.bad("run:reason", P.FN, "the reason of a skip is not reported (%s)" % brief(conds))
                nid = p.rec.get("nodeid")
                if nid is None or not P.tc_field(nid, "nodeid"):
                    R.bad("run:nodeid", P.FN, "a skipped test is reported as " + show(nid)[:60])
            elif out is not None and isc(out) and cval(out) == "skipped" and s is False:
                R.bad("run:unmarked", P.FN, "a test without a marker is reported as skipped (%s)" % brief(conds))
    R.floor("paths of a skipped test", skipped, 1, P.FN)


# ---- markers ----
def attr(t, name):
    """t looks up an attribute of this name on the object itself."""
    return t.t == "op" and (t.a[0] == "." + name and t.a[1].t == "param" or t.a[0] == "getattr" and t.a[1].t == "param" and isc(t.a[2]) and cval(t.a[2]) == name)


def mark_name(k):
    """The mark whose name a condition compares with 'skip'."""
    if k.t == "op" and k.a[0] == "eq":
        for p, q in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            if isc(q) and cval(q) == "skip" and p.t == "op" and (p.a[0] == ".name" or p.a[0] == "getattr" and isc(p.a[2]) and cval(p.a[2]) == "name"):
                return p.a[1]
    return None


def marker(R):
    r = pyc.analyse(R, SK, must=False)
    if r is None:
        return
    e = r.e
    n = {True: 0, False: 0}
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        v = e.freeze(x, status[1])
        if v.t == "agg":
            vals = [t for _, t in v.a[2]]
        elif v.t == "tup":
            vals = list(v.a)
        else:
            R.unk("marker", "the result " + show(v)[:80])
            return
        if len(vals) != 2:
            R.unk("marker", "the result " + show(v)[:80])
            return
        flag, reason = vals
        for conds in dnf(x.conds, x.groups, 64):
            res = verdict(R, e, x, conds)
            if res is None:
                return
            own, mark = res
            if isc(flag):
                f = bool(cval(flag))
            else:
                f = own if flag.t == "op" and flag.a[0] in ("truth", "call:bool") and attr(flag.a[1], "__rtest_skip__") or attr(flag, "__rtest_skip__") else conds.get(flag)
            if f is None and (own is True or mark is not None) and not contains(flag, lambda y: attr(y, "__rtest_skip__") or isc(y) and cval(y) in ("skip", "name", "__rtest_skip__")):
                R.bad("marker:depends", SK, "whether a marked object is skipped depends on %s (%s)" % (show(flag)[:60], brief(conds)))
                continue
            if f is None:
                R.unk("marker", "the flag " + show(flag)[:80])
                return
            n[f] += 1
            if f and own is not True and mark is None:
                R.bad("marker:none", SK, "an object without a skip marker is skipped (%s)" % brief(conds))
            if not f and own is not True and mark is None and any(
                    k.t == "next" and c is True and contains(k.a[0], lambda y: attr(y, "pytestmark")) and len(k.a) > 2 and k.a[2] in e.loops
                    and any(q.t == "exit" and q.a[0] == k.a[2] and b != 0 for q, b in conds.items()) for k, c in conds.items()):
                R.bad("marker:early", SK, "the search ends at a mark that is no skip mark, the marks after it are not looked at (%s)" % brief(conds))
            if not f and (own is True or mark is not None):
                R.bad("marker:missed", SK, "a skip marker is not recognised (%s)" % brief(conds))
            if f and own is True:
                if not contains(reason, lambda y: attr(y, "__rtest_skip_reason__")) and not no(conds, lambda y: attr(y, "__rtest_skip_reason__")):
                    R.bad("marker:reason:rtest", SK, "the reason of rtest's marker is not used (%s)" % brief(conds))
            elif f and mark is not None:
                why(R, conds, reason, mark)
    for b in (True, False):
        R.floor("paths returning %s" % b, n[b], 1, SK)


def no(conds, pred):
    """A path on which something is known to be absent or empty."""
    for k, v in conds.items():
        if k.t == "op" and contains(k, pred) and (k.a[0] in ("truth", "hasattr", "contains") and v is False or k.a[0] in ("isnone", "is_empty") and v is True):
            return True
        if k.t == "op" and k.a[0] == "hasattr" and v is False and pred(op("." + str(cval(k.a[2])), k.a[1])):
            return True
    return False


def verdict(R, e, x, conds):
    """(what is known of rtest's marker, the skip mark found) on a path; None when it cannot be told (recorded)."""
    own = None
    for k, v in conds.items():
        if k.t == "op" and k.a[0] == "truth" and attr(k.a[1], "__rtest_skip__"):
            own = v
        elif k.t == "op" and k.a[0] == "hasattr" and isc(k.a[2]) and cval(k.a[2]) == "__rtest_skip__" and v is False:
            own = False
        elif k.t == "op" and k.a[0] in ("is", "eq") and any(attr(y, "__rtest_skip__") for y in k.a[1:]) and any(isc(y) and cval(y) is True for y in k.a[1:]):
            own = v
        elif attr(k, "__rtest_skip__"):
            own = v
    if own is True:
        return True, None
    mark, seen, absent = None, False, False
    for k, v in conds.items():
        m = mark_name(k)
        if m is not None:
            seen = True
            if v is True:
                mark = m
        if k.t == "op" and k.a[0] == "hasattr" and isc(k.a[2]) and cval(k.a[2]) == "pytestmark" and v is False:
            absent = True
        if k.t == "op" and k.a[0] in ("truth", "is_empty") and attr(k.a[1], "pytestmark") and v is (k.a[0] == "is_empty"):
            absent = True
        if k.t == "next":
            s = k.a[0]
            if contains(s, lambda y: attr(y, "pytestmark")):
                if s.t == "op" or contains(s, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice", "call:itertools.islice")):
                    R.bad("marker:part", SK, "only some of the marks are looked at: " + show(s)[:80])
                seen = True
                rec = e.loops.get(k.a[2])
                if rec is None:
                    continue
                for c in rec.conts:
                    for d in dnf(c.conds, c.groups, 64):
                        names = [b for q, b in d.items() if mark_name(q) is not None]
                        if True in names or not names and not any(q.t == "op" and q.a[0] in ("hasattr",) and b is False for q, b in d.items()):
                            # passed over; a flag may remember it
                            if rec.lv:
                                R.unk("marker:loop", "a mark is remembered in a loop (%s)" % brief(d))
                                return None
                            R.bad("marker:missed", SK, "a mark is passed over (%s)" % brief(d))
    if own is None:
        R.bad("marker:rtest", SK, "rtest's own marker is not looked at (%s)" % brief(conds))
    if mark is None and not seen and not absent:
        R.bad("marker:pytest", SK, "pytest's marks are not looked at (%s)" % brief(conds))
    return own, mark


def why(R, conds, reason, mark):
    def kw(y):
        return y.t == "op" and len(y.a) > 1 and any(isinstance(z, N) and isc(z) and cval(z) == "reason" for z in y.a[1:])

    def pos(y):
        return y.t == "op" and (y.a[0] == ".args" or y.a[0] == "getattr" and isc(y.a[2]) and cval(y.a[2]) == "args") and y.a[1] is mark
    def lacks(attr):
        return any(k.t == "op" and k.a[0] == "hasattr" and v is False and k.a[1] is mark and isc(k.a[2]) and cval(k.a[2]) == attr for k, v in conds.items())
    nokw, nopos = no(conds, kw) or lacks("kwargs"), no(conds, pos) or lacks("args")
    for k, v in conds.items():
        if k.t == "op" and k.a[0] in ("lt", "eq") and contains(k, pos) and not fits(k, v, pos, 1):
            nopos = True
    if contains(reason, kw) or contains(reason, pos):
        # given twice it is an error, so either may be asked first
        if not contains(reason, pos) and not nopos and not any(contains(k, kw) for k in conds):
            R.bad("marker:reason:positional", SK, "the reason given by position is not used (%s)" % brief(conds))
        return
    if not nokw:
        R.bad("marker:reason:keyword", SK, "the reason given by keyword is not used (%s)" % brief(conds))
    if not nopos:
        R.bad("marker:reason:positional", SK, "the reason given by position is not used (%s)" % brief(conds))


def fits(k, v, pos, n):
    """Whether a comparison of the number of arguments with a constant can have the value v when there are n of them."""
    vals = []
    for y in k.a[1:]:
        if isc(y) and isinstance(cval(y), int):
            vals.append(cval(y))
        elif y.t == "op" and y.a[0] == "len" and contains(y, pos):
            vals.append(n)
        else:
            return True
    return (vals[0] < vals[1] if k.a[0] == "lt" else vals[0] == vals[1]) == v


# ---- test cases ----
def asked(t, i):
    """t is the flag (i=0) or the reason (i=1) of some object: that object."""
    if t.t == "op" and t.a[0] in ("truth", "call:bool", "call:str") and len(t.a) == 2:
        return asked(t.a[1], i)
    names = (".0", ".skipped", ".skip", ".is_skipped", ".flag") if i == 0 else (".1", ".reason", ".skip_reason")
    if t.t == "op" and t.a[0] in names and t.a[1].t == "op" and t.a[1].a[0] == "py:_is_skipped":
        return t.a[1].a[1]
    if t.t == "op" and t.a[0] == "index" and t.a[1].t == "op" and t.a[1].a[0] == "py:_is_skipped" and isc(t.a[2]) and cval(t.a[2]) == i:
        return t.a[1].a[1]
    return None


def value(t, env, free=None):
    """The value of a flag when env says what is marked; free collects what else it depends on."""
    if isc(t):
        return bool(cval(t))
    o = asked(t, 0)
    if o is not None:
        return env.get(o)
    if t in env:
        return env[t]
    if t.t == "op" and t.a[0] == "not":
        v = value(t.a[1], env, free)
        return None if v is None else not v
    if t.t == "op" and t.a[0] in ("or", "and", "bitor", "bitand"):
        vs = [value(y, env, free) for y in t.a[1:]]
        if None in vs:
            return None
        return any(vs) if t.a[0] in ("or", "bitor") else all(vs)
    if t.t == "op" and t.a[0] in ("any", "call:any", "all", "call:all") and t.a[1].t == "tup":
        vs = [value(y, env, free) for y in t.a[1].a]
        return None if None in vs else (any(vs) if "any" in t.a[0] else all(vs))
    if free is not None and independent(t):
        free.append(t)
    return None


def independent(t):
    """A condition that has nothing to do with skip markers, and can be anything whatever the markers are."""
    return not contains(t, lambda y: isc(y) and isinstance(cval(y), str) and ("skip" in cval(y) or cval(y) in ("pytestmark", "name", "__dict__")) or y.t == "op" and ("skip" in str(y.a[0]) or "mark" in str(y.a[0])) or y.t in ("g", "pyfn") and "skip" in str(y.a[0]))


def values(flag, env, known):
    """The values a flag can take, each with what it depends on; None when it cannot be told."""
    free = []
    v = value(flag, env, free)
    if v is not None:
        return {v: None}
    free = list(dict.fromkeys(free))
    if not free or len(free) > 4:
        return None
    out = {}
    for bits in range(1 << len(free)):
        env2 = dict(env)
        env2.update({t: bool(bits >> i & 1) for i, t in enumerate(free)})
        if any(known.get(t, env2[t]) != env2[t] for t in free):
            continue
        v = value(flag, env2)
        if v is None:
            return None
        out.setdefault(v, free[0])
    return out


def cases(R):
    cs = pycases.cases(R)
    if cs is None:
        return
    meth = 0
    for c in cs:
        fn, cl = c.f["func"], c.cls
        objs = [fn] + ([cl] if cl is not None else [])
        meth += cl is not None
        for conds in c.alts:
            known = {}
            for k, v in conds.items():
                o = asked(k.a[1], 0) if k.t == "op" and k.a[0] == "truth" else asked(k, 0)
                if o is not None:
                    known[o] = v
            others = [o for o in known if o not in objs]
            flag, reason = c.f.get("skip"), c.f.get("skip_reason")
            for o in [asked(y, 0) for y in walk(flag)] + [asked(y, 1) for y in walk(reason)]:
                if o is not None and o not in objs:
                    R.bad("cases:object", pycases.FN, "the marker of %s decides for %s" % (show(o)[:60], show(fn)[:60]))
            for bits in range(1 << len(objs)):
                env = {o: bool(bits >> i & 1) for i, o in enumerate(objs)}
                if any(env.get(o, v) != v for o, v in known.items()):
                    continue
                want = any(env.values())
                vals = values(flag, env, conds)
                if vals is None and contains(flag, lambda y: y.t == "op" and y.a[0] == ".__dict__" or isc(y) and cval(y) == "__dict__") and want and cl is not None:
                    R.bad("cases:inherited", pycases.FN, "the marker is only looked for in the class itself, not in the classes it inherits from: " + show(flag)[:80])
                    continue
                got = None if vals is None else (want if want in vals else not want)
                if vals is not None and len(vals) > 1:
                    got = not want
                tag = "method" if cl is not None else "function"
                who = " and ".join(n for n, o in zip(("the test", "its class"), objs) if env[o]) or "nothing"
                if got is None:
                    R.unk("cases:flag", "the flag of a test is " + show(flag)[:80])
                    continue
                if got != want:
                    R.bad("cases:%s:%s" % (tag, "lost" if want else "extra"), pycases.FN, "a test is %s when %s is marked%s" % ("skipped" if got else "run", who, "" if vals[got] is None else ", depending on " + show(vals[got])[:60]))
                    continue
                if not want:
                    continue
                o = asked(reason, 1)
                first = objs[0] if env[objs[0]] else objs[1]
                if o is None:
                    rs = [asked(y, 1) for y in walk(reason)]
                    if any(z is not None for z in rs):
                        R.unk("cases:reason", "the reason of a test is " + show(reason)[:80])
                    else:
                        R.bad("cases:%s:reason" % tag, pycases.FN, "the reason of the marker is lost when %s is marked" % who)
                elif o is not first:
                    # a reason that is empty may be replaced by the other one
                    if env.get(o) and any(k.t == "op" and k.a[0] == "truth" and asked(k.a[1], 1) is first and v is False for k, v in conds.items()):
                        continue
                    R.bad("cases:%s:reason" % tag, pycases.FN, "the reason of %s is reported when %s is marked" % (show(o)[:60], who))
    R.floor("test methods made by discovery", meth, 1, pycases.FN)


# ---- the decorator ----
def decorator(R):
    q = pyc.MARK + "Mark.skip"
    r, out = c30.applied(R, q)
    if r is None:
        return
    for status, x in out:
        if status[0] == "ret":
            c30.skip(R, r.e, x, q)
