"""C18: a raises block passes exactly when an expected exception with matching text escapes it."""
from .. import pyc, pyx
from ..mir import dnf
from ..pyc import brief
from ..terms import *

M = "rtest.raises:"
EXIT, ENTER, NEW = M + "RaisesContext.__exit__", M + "RaisesContext.__enter__", M + "raises"
ETYPE, EVAL = "exc_type", "exc_val"


def check(R):
    R.rule("Every path of __exit__ is decided under what it knows: nothing raised, not an expected type, text not matching, or all matching; each must end in the outcome the contract gives. Every path on which raises() returns a context has checked the expectation.")
    F = Fields()
    r = pyc.analyse(R, EXIT)
    if r is None:
        return
    leave(R, r, F)
    r = pyc.analyse(R, ENTER)
    if r is not None:
        good = True
        for status, x in r.rets:
            v = r.e.freeze(x, status[1]) if status[0] == "ret" else None
            if v is None or not (v.t == "param" and v.a[0] == "self"):
                good = False
                R.bad("enter", ENTER, "the block is not given the context that will hold the exception")
        if good:
            R.ok("enter", "the context itself")
    r = pyc.analyse(R, NEW)
    if r is not None:
        create(R, r, F)


class Fields:
    def __init__(self):
        self.exp, self.pat = set(), set()


def params(r):
    mod, fn, _, _, _ = r.e.fn_node(mk("pyfn", r.qual))
    return [mk("param", a.arg) for a in fn.args.posonlyargs + fn.args.args]


def field(t):
    return t.a[0][1:] if t.t == "op" and t.a[0].startswith(".") and len(t.a) == 2 and t.a[1].t == "param" and t.a[1].a[0] == "self" else None


def leave(R, r, F):
    ps = params(r)
    if len(ps) < 3:
        R.unk("exit", "__exit__ takes other parameters")
        return
    ty, val = ps[1], ps[2]
    tya = {ty, op("type", val), op("call:type", val)}
    e = r.e
    seen = set()
    for status, x in r.rets:
        v = e.freeze(x, status[1]) if status[0] == "ret" else None
        sets = [ev for ev in x.ev if ev.a[0] == "setattr"]
        for d in dnf(x.conds, x.groups, 64):
            none = expected = match = None
            text_ok = True
            haspat = None
            weird = []
            for k, b in d.items():
                if k.t != "op":
                    continue
                n = k.a[0]
                if n == "isnone" and k.a[1] in (ty, val):
                    none = b
                elif n == "truth" and k.a[1] is ty:
                    none = not b
                elif n == "truth" and k.a[1] is val:
                    if b:
                        none = False
                    else:
                        weird.append("an exception that is false is taken for none")
                elif n == "issubclass" and k.a[1] in tya or n == "isinstance" and k.a[1] is val:
                    c = k.a[2]
                    f = field(c)
                    if f is not None:
                        F.exp.add(f)
                        expected = b
                    elif c.t == "elem" and field(strip(c.a[0])) is not None:
                        F.exp.add(field(strip(c.a[0])))
                        if b:
                            expected = True
                elif n in ("is", "eq") and any(y in tya for y in k.a[1:]) and any(field(y) for y in k.a[1:] if isinstance(y, N)):
                    R.bad("exit:subclass", EXIT, "the type of the exception is compared for equality: a subclass of the expected type is not accepted")
                    expected = b
                elif n in ("isnone", "truth") and field(k.a[1]) is not None and field(k.a[1]) not in F.exp and any(s in field(k.a[1]) for s in ("match", "pattern", "regex")):
                    F.pat.add(field(k.a[1]))
                    haspat = (not b) if n == "isnone" else b
                elif is_search(k) is not None or n in ("truth", "isnone") and is_search(k.a[1]) is not None:
                    t = k if is_search(k) is not None else k.a[1]
                    how, pat, text = is_search(t)
                    match = (not b) if n == "isnone" else b
                    for y in walk(pat):
                        if field(y):
                            F.pat.add(field(y))
                    if how != "search":
                        R.bad("exit:match:" + how, EXIT, "the pattern is matched with %s, not searched for in the text" % how)
                    if not contains(text, lambda y: y is val):
                        R.bad("exit:text", EXIT, "the pattern is searched for in %s" % show(text)[:60])
                    elif contains(text, lambda y: y.t == "op" and (y.a[0] in ("call:repr", "pyslice", "index", ".args", "call:ascii", "call:type", "type") or y.a[0].startswith("m:") and y.a[0] not in ("m:join", "m:format"))):
                        R.bad("exit:text", EXIT, "the pattern is searched for in %s instead of the text of the exception" % show(text)[:60])
            # an expectation looked at one type at a time
            for k, b in d.items():
                if k.t == "next" and b is False and expected is None and field(strip(k.a[0])) is not None:
                    rec = e.loops.get(k.a[2])
                    if rec and all(any(q.t == "op" and q.a[0] in ("issubclass", "isinstance") and w is False for q, w in c.conds.items()) for c in rec.conts) and rec.conts:
                        F.exp.add(field(strip(k.a[0])))
                        expected = False
            why = brief(d)
            if status[0] == "raise":
                exc = status[1]
                ok = pyc.exckind(x, exc, "AssertionError")
                if none is True or expected is True and match is False:
                    if ok is False or exc.a[0] == "user" and ok is not True:
                        R.bad("exit:error", EXIT, "%s is raised instead of an assertion error (%s)" % (exc.a[0], why))
                    seen.add("none" if none else "nomatch")
                elif exc.a[0] == "AssertionError":
                    if none is False and expected is False:
                        R.bad("exit:other", EXIT, "another exception does not propagate but becomes an assertion error (%s)" % why)
                    elif expected is True and match is not False:
                        R.bad("exit:rejected", EXIT, "an expected exception is turned into an assertion error (%s)" % why)
                    else:
                        R.unk("exit", "an assertion error when %s" % why)
                continue
            if v is None:
                continue
            tr = bool(cval(v)) if isc(v) else d.get(v)
            if tr is None and v.t == "op" and (v.a[0] in ("issubclass",) and v.a[1] in tya or v.a[0] == "isinstance" and v.a[1] is val) and field(v.a[2]):
                # lets pass exactly the expected types
                F.exp.add(field(v.a[2]))
                if none is not False:
                    R.bad("exit:none", EXIT, "nothing raised is not reported (%s)" % why)
                elif haspat is not False and match is not True:
                    R.bad("exit:unmatched", EXIT, "an exception passes although its text is not checked (%s)" % why)
                else:
                    seen.update(("pass", "other"))
                continue
            if tr is None and v.t == "op" and (v.a[0] == "isinstance" and v.a[1] is val or v.a[0] == "issubclass" and v.a[1] in tya) and v.a[2].t == "g" and v.a[2].a[0] != "BaseException":
                if expected is True:
                    R.bad("exit:propagates", EXIT, "an expected exception that is no %s propagates (%s)" % (v.a[2].a[0], why))
                else:
                    R.bad("exit:type", EXIT, "an exception that is not of an expected type is swallowed (%s)" % why)
                continue
            if tr is None:
                R.unk("exit", "the result " + show(v)[:80])
                continue
            for w in weird:
                R.bad("exit:falsy", EXIT, w)
            if none is True:
                R.bad("exit:none", EXIT, "nothing was raised and no assertion error is raised (%s)" % why)
            elif tr:
                if expected is not True:
                    R.bad("exit:type", EXIT, "an exception that is not of an expected type is swallowed (%s)" % why)
                elif match is False or match is None and haspat is not False:
                    R.bad("exit:unmatched", EXIT, "an exception passes although its text does not match or is not checked (%s)" % why)
                else:
                    seen.add("pass")
                    if not any(ev.a[1].t == "param" and ev.a[2] == "value" and ev.a[3] is val for ev in sets):
                        R.bad("exit:value", EXIT, "the caught exception is not made available (%s)" % why)
            else:
                if expected is True:
                    R.bad("exit:propagates", EXIT, "an expected exception propagates (%s)" % why)
                elif none is not False and expected is None:
                    R.bad("exit:none", EXIT, "nothing raised is not reported (%s)" % why)
                elif expected is None:
                    R.bad("exit:propagates", EXIT, "an exception propagates without a look at its type (%s)" % why)
                else:
                    seen.add("other")
    if not [k for k in R.bads] and not R.unks:
        for s, d in (("none", "nothing raised"), ("other", "another exception"), ("nomatch", "text not matching"), ("pass", "matching")):
            if s in seen:
                R.ok("exit:" + s, d)
            else:
                R.unk("exit:" + s, "no path for: " + d)


def strip(t):
    t = pyc.strip(t)
    return t.a[0] if t.t == "seq" else t


def is_search(t):
    """(method, pattern, text) of a regular expression match."""
    if t.t != "op":
        return None
    n = t.a[0]
    if n in ("call:re.search", "call:re.match", "call:re.fullmatch", "call:re.findall") and len(t.a) > 2:
        return n[8:], t.a[1], t.a[2]
    if n in ("m:search", "m:match", "m:fullmatch", "m:findall", ".search", ".match", ".fullmatch") and len(t.a) > 2:
        return n.split(":")[-1].lstrip("."), t.a[1], t.a[2]
    if n == "ucall" and t.a[1].t == "op" and t.a[1].a[0] in (".search", ".match", ".fullmatch") and t.a[2]:
        return t.a[1].a[0][1:], t.a[1].a[1], t.a[2][0]
    return None


# ---- raises() ----
def create(R, r, F):
    e = r.e
    exp, pat = mk("param", "expected_exception"), mk("param", "match")
    n = 0
    good = True

    def bad(key, msg):
        nonlocal good
        good = False
        R.bad("create:" + key, NEW, msg)
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        n += 1
        v = e.freeze(x, status[1])
        if v.t != "agg":
            R.unk("create", "raises returns " + show(v)[:80])
            good = False
            continue
        fs = dict(v.a[2])
        for f in F.exp:
            if f in fs and fs[f] is not exp:
                if contains(fs[f], lambda y: y is exp):
                    R.unk("create:expected", "the expected types are kept as " + show(fs[f])[:60])
                    good = False
                else:
                    bad("expected", "the context expects %s" % show(fs[f])[:60])
        for f in F.pat:
            if f in fs and not contains(fs[f], lambda y: y is pat) and not any(k.t == "op" and k.a[0] in ("isnone", "truth") and k.a[1] is pat and b == (k.a[0] == "isnone") for k, b in x.conds.items()):
                bad("match", "the pattern of the context is %s (%s)" % (show(fs[f])[:60], brief(x.conds)))
        for d in dnf(x.conds, x.groups, 64):
            tup = None
            for k, b in d.items():
                if k.t == "op" and k.a[0] == "isinstance" and k.a[1] is exp and k.a[2].t == "g" and k.a[2].a[0] == "tuple":
                    tup = b
            single = valid(d, exp)
            if single:
                pass
            elif tup is False or tup is None and not any(k.t == "next" for k in d):
                bad("type", "an expectation that is no exception type is accepted (%s)" % brief(d))
            else:
                # every member is checked, and there is one
                loops = [k for k in d if k.t == "next" and strip(k.a[0]) is exp]
                ok = False
                for k in loops:
                    rec = e.loops.get(k.a[2])
                    if d.get(mk("exit", k.a[2]), 0) != 0:
                        continue
                    ok = ok or all(valid(c2, mk("elem", k.a[0], k.a[2])) for c in rec.conts for c2 in dnf(c.conds, c.groups, 16))
                if not ok:
                    # the members that are no exception types were collected first
                    if any(contains(k, lambda y: y.t == "o" and y.a[0] == "loop" and y.a[1] in {z.a[2] for z in loops} or y.t == "fold") for k in d):
                        R.unk("create:members", "the members are checked in another way (%s)" % brief(d))
                        good = False
                    elif loops or tup:
                        bad("members", "members of a tuple that are no exception types are accepted (%s)" % brief(d))
                    else:
                        R.unk("create", "the expectation is checked in another way (%s)" % brief(d))
                        good = False
                if not any(k.t == "op" and (k.a[0] == "truth" and k.a[1] is exp and b or k.a[0] == "is_empty" and k.a[1] is exp and not b or k.a[0] in ("eq", "lt") and contains(k, lambda y: y.t == "op" and y.a[0] == "len" and y.a[1] is exp)) for k, b in d.items()):
                    bad("empty", "an empty tuple of expected types is accepted (%s)" % brief(d))
            nop = any(k.t == "op" and k.a[0] in ("isnone", "truth") and k.a[1] is pat and b == (k.a[0] == "isnone") for k, b in d.items())
            comp = any(k.t == "op" and k.a[0] == "raises" and b is False and contains(k, lambda y: y.t == "op" and y.a[0] == "call:re.compile") for k, b in d.items()) \
                or any(contains(t, lambda y: y.t == "op" and y.a[0] == "call:re.compile") for t in fs.values() if isinstance(t, N)) \
                or any(ev.a[0] == "lib" and ev.a[1] == "re.compile" for ev in x.ev) \
                or any(k.t == "op" and k.a[0] == "isinstance" and k.a[1] is pat and b and k.a[2].t == "g" and k.a[2].a[0] in ("re.Pattern",) for k, b in d.items())
            if not nop and not comp:
                bad("pattern", "an invalid pattern is found only when the block ends (%s)" % brief(d))
    R.floor("paths on which raises returns", n, 1, NEW)
    if good:
        R.ok("create", "%d paths on which raises returns" % n)


def valid(d, t):
    """t is known to be an exception type."""
    isty = sub = None
    for k, b in d.items():
        if k.t == "op" and k.a[0] == "isinstance" and k.a[1] is t and k.a[2].t == "g" and k.a[2].a[0] == "type":
            isty = b
        if k.t == "op" and k.a[0] in ("call:inspect.isclass",) and k.a[1] is t or k.t == "op" and k.a[0] == "truth" and k.a[1].t == "op" and k.a[1].a[0] == "call:inspect.isclass" and k.a[1].a[1] is t:
            isty = b
        if k.t == "op" and k.a[0] == "issubclass" and k.a[1] is t and k.a[2].t == "g" and k.a[2].a[0] == "BaseException":
            sub = b
    return sub is True and isty is not False
