"""The paths of _run_single_test: what test code ran on them, what it raised and what was reported."""
from . import pyc
from .mir import dnf
from .terms import *

FN = pyc.RUNNER + "_run_single_test"
HOOKS = {"setup": ("setup_method", "setUp"), "teardown": ("teardown_method", "tearDown")}


def tc_field(t, name):
    return t.t == "op" and t.a[0] == "." + name and t.a[1].t == "param"


def attr_names(t):
    """Names looked up on an object in a term."""
    out = []
    for x in walk(t):
        if x.t == "op" and x.a[0] == "getattr" and isc(x.a[2]):
            out.append(cval(x.a[2]))
        elif x.t == "op" and x.a[0].startswith(".") and len(x.a) == 2:
            out.append(x.a[0][1:])
        elif x.t == "op" and x.a[0] == "hasattr" and isc(x.a[2]):
            out.append(cval(x.a[2]))
    return out


def role(callee):
    """construct, setup, teardown, body or other."""
    if tc_field(callee, "test_class"):
        return "construct"
    if tc_field(callee, "func"):
        return "body"
    ns = attr_names(callee)
    for h, names in HOOKS.items():
        if any(n in names for n in ns):
            return h
    if lookup_name(callee) is not None or contains(callee, lambda x: tc_field(x, "func")):
        return "body"
    return "other"


def lookup_name(t):
    """The name a method is looked up by, where it comes from the test case."""
    if t.t == "op" and t.a[0] == "getattr" and len(t.a) > 2 and contains(t.a[2], lambda x: x.t == "op" and x.a[0].startswith(".") and len(x.a) == 2 and x.a[1].t == "param"):
        return t.a[2]
    return None


class Path:
    pass


def paths(r):
    """Paths with the user events, the exceptions raised, and the reported record."""
    out = []
    for status, x in r.rets:
        p = Path()
        p.status, p.x, p.conds = status[0], x, x.conds
        p.steps = []
        for ev, nest in pyc.events(r.e, x.ev):
            if ev.a[0] == "user":
                p.steps.append(("user", role(ev.a[1]), ev, nest))
            elif ev.a[0] == "raised":
                # an exception of the call before it, or of looking up an attribute of the instance
                p.steps.append(("raised", None, ev, nest))
            elif ev.a[0] == "loop" or nest:
                p.steps.append(("other", None, ev, nest))
        p.rec = None
        v = r.e.freeze(x, status[1]) if status[0] == "ret" else None
        if v is not None and v.t == "agg" and "outcome" in dict(v.a[2]):
            p.rec = dict(v.a[2])
        p.value = v
        p.alts = dnf(x.conds, x.groups, 64)
        out.append(p)
    return out


def origin_role(exc):
    """Which step an exception comes from."""
    o = exc.a[1]
    if o.t == "op" and o.a[0] == "ucall":
        return role(o.a[1])
    if o.t == "op":
        ns = attr_names(o)
        for h, names in HOOKS.items():
            if any(n in names for n in ns):
                return h + "-lookup"
        if lookup_name(o) is not None or contains(o, lambda x: tc_field(x, "func")):
            return "body-lookup"
    return "other"


def skipped(conds):
    """What a path knows of the case's skip flag."""
    for k, v in conds.items():
        if k.t == "op" and k.a[0] == "truth" and tc_field(k.a[1], "skip"):
            return v
        if tc_field(k, "skip"):
            return v
    return None
