"""The TestCase records that discovery makes."""
from . import pyc
from .pyc import Sources, Unk
from .mir import dnf
from .terms import *

FN = pyc.RUNNER + "_discover_tests_in_module"


class Case:
    pass


def cases(R):
    """All places that make a TestCase, with what is known there; None when out of reach."""
    r = pyc.analyse(R, FN, must=False)
    if r is None:
        return None
    out = []
    n = 0
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        n += 1
        src = Sources(r.e)
        try:
            items = src.of(r.e.freeze(x, status[1]))
        except Unk as u:
            R.unk("discovery", str(u))
            return None
        for term, nest in items:
            if term.t != "agg" or "func" not in dict(term.a[2]):
                R.unk("discovery", "a test " + show(term)[:100])
                return None
            c = Case()
            c.e, c.x, c.f, c.nest, c.level = r.e, x, dict(term.a[2]), nest, src.level
            c.conds = dict(x.conds)
            gs = list(x.groups)
            c.loops = {}
            for L, i in nest:
                k = r.e.loops[L].conts[i]
                c.conds.update(k.conds)
                gs += k.groups
                c.loops[L] = i
            c.groups = tuple(gs)
            c.alts = dnf(c.conds, c.groups, 128)
            cl = c.f.get("test_class")
            c.cls = None if cl is None or isc(cl) and cval(cl) is None else cl
            c.expand = None
            for L, i in reversed(nest):
                s, stages = pyc.nextkey(r.e, L)
                if s is not None and s.t == "seq" and s.a[0].t == "op" and s.a[0].a[0] == "py:expand_parametrize":
                    c.expand = (s.a[0], L)
                    break
            out.append(c)
    R.floor("tests made by discovery", len(out), 2, FN)
    return out
