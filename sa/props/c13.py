"""C13: the outcome of a test follows from what its code raised."""
from .. import pyc, pytest1 as P
from ..terms import *


def check(R):
    R.rule("Every path of _run_single_test is enumerated with the calls of test code on it and the exceptions these raise; the reported outcome, traceback, type and id are compared with the exception that escaped on the path. Exceptions have symbolic classes that only `except` clauses and isinstance tests narrow.")
    R.assume("KeyboardInterrupt ends the run. Assertion errors are instances of AssertionError.")
    r = pyc.analyse(R, P.FN, must=False)
    if r is None:
        return
    n = 0
    for p in P.paths(r):
        if P.skipped(p.conds) is True or p.status != "ret":
            continue
        if p.rec is None:
            R.unk("outcome", "a return value that is not a result record: %s" % show(p.value)[:100])
            continue
        n += 1
        raised = [s[2].a[1] for s in p.steps if s[0] == "raised"]
        ran = [s[1] for s in p.steps if s[0] == "user"]
        for conds in p.alts:
            outcome(R, p, conds, raised, ran)
        nid = p.rec.get("nodeid")
        if nid is None or not P.tc_field(nid, "nodeid"):
            R.bad("nodeid", P.FN, "the record of a test is written under %s instead of the id of the test" % show(nid)[:80])
    R.count("record paths", n)
    if n == 0:
        R.bad("floor:paths", P.FN, "no path of _run_single_test reports the result of a test that ran")
    if not R.bads:
        for k, d in (("passed", "only on paths on which nothing was raised"), ("failed", "exactly for assertion errors"), ("details", "traceback, type and id belong to the exception that escaped")):
            R.ok(k, d + " (%d paths)" % n)


def values(t, conds):
    """The constant an outcome field is."""
    return cval(t) if isc(t) else None


def outcome(R, p, conds, raised, ran):
    o = values(p.rec["outcome"], conds)
    if o is None:
        R.unk("outcome", "the outcome is " + show(p.rec["outcome"])[:100])
        return
    where = P.FN
    if not raised:
        if o != "passed":
            if "body" in ran or o != "skipped":
                R.bad("clean:" + o, where, "a test of which nothing raised is reported as %s (%s)" % (o, pyc.brief(conds)))
        elif "body" not in ran:
            R.bad("notrun", where, "a test is reported as passed although its body was not called (%s)" % pyc.brief(conds))
        for f in ("error", "error_type"):
            v = p.rec.get(f)
            if v is not None and not isc(v) and o == "passed":
                R.bad("clean:details", where, "a passed test carries error details")
        return
    names = [P.origin_role(e) for e in raised]
    if o not in ("failed", "error"):
        R.bad("hidden:" + "+".join(names), str(raised[-1].a[2]), "a test is reported as %s although %s raised an exception (%s)" % (o, " and ".join(names), pyc.brief(conds)))
        return
    for e in reversed(raised):
        k = pyc.known(conds, e, "AssertionError")
        if k is (o == "failed"):
            break
    else:
        e = raised[-1]
        k = pyc.known(conds, e, "AssertionError")
        R.bad("class:" + o + ":" + names[-1], str(e.a[2]), "a test is reported as %s when %s raised %s (%s)" % (o, names[-1], "an AssertionError" if k else "an exception that is no AssertionError" if k is False else "an exception of any class", pyc.brief(conds)))
        return
    for f, what in (("error", "traceback"), ("error_type", "type")):
        v = p.rec.get(f)
        if v is None or isc(v) and cval(v) is None:
            R.bad("details:" + f, where, "a %s test carries no %s of the exception" % (o, what))
            continue
        if f == "error":
            tb = entry(v, "traceback")
            if tb is None:
                if v.t == "mut":
                    R.bad("details:traceback", where, "the error of a %s test has no traceback" % o)
                continue
            v = tb
        has = [x for x in raised if contains(v, lambda y: y is x)]
        if not has:
            if isc(v) or contains(v, lambda y: y.t == "exc") or contains(v, lambda y: y.t == "op" and y.a[0] == "call:traceback.format_exc"):
                R.bad("details:" + f, where, "the %s of a %s test is not taken from the exception that escaped: %s" % (what, o, show(v)[:100]))
            else:
                R.unk("details:" + f, "the %s is %s" % (what, show(v)[:100]))
        elif raised[-1] not in has and e not in has:
            R.bad("details:" + f, where, "the %s of a %s test is taken from another exception" % (what, o))
        elif f == "error_type" and not contains(v, lambda y: y.t == "op" and y.a[0] in (".__name__", ".__qualname__")):
            R.bad("details:type", where, "the error type is %s" % show(v)[:80])
        else:
            other = [y.a[0] for y in walk(v) if y.t == "op" and y.a[0] in ELSE and contains(y, lambda z: z in raised)]
            if other:
                R.bad("details:%s:%s" % (f, other[0]), where, "the %s of a %s test is that of the %s of the exception that escaped, not its own" % (what, o, other[0].strip("._")))


# what leads from an exception to another one, or from a type to another type
ELSE = (".__cause__", ".__context__", ".exceptions", ".__mro__", ".__bases__", ".__base__", ".args")


def entry(m, key):
    v = None
    for x in walk(m):
        if x.t == "o" and x.a[0] == "insert" and isc(x.a[1]) and cval(x.a[1]) == key:
            v = x.a[2]
    return v
