"""C16: the ids of the cases of one test are pairwise distinct, and there is one per case."""
from .. import ctx, pyc, pycases, rows
from ..mir import dnf
from ..pyc import Unk, brief
from ..rows import Bad
from ..pyx import VECNEW
from ..terms import *

DEDUP = pyc.MARK + "_deduplicate_ids"
EXP = pyc.MARK + "expand_parametrize"
SUF = pyc.MARK + "get_case_nodeid_suffix"
RD = "python_discovery::cases::deduplicate_ids"
RE = "python_discovery::cases::expand_cases"


def guard(R, key, where, f, *a):
    n = len(R.bads), len(R.unks)
    try:
        f(*a)
    except Bad as b:
        R.bad(key + ":" + b.key, where, str(b))
    except Unk as u:
        R.unk(key, str(u))
    return n == (len(R.bads), len(R.unks))


def check(R):
    R.rule("Every id is added to the result on a path that knows it is not among those seen, and is then recorded as seen (both languages); the ids of a test are the result of that function on all joined ids, used unchanged, one each; the suffix of an id contains it whole.")
    r = pyc.analyse(R, DEDUP, must=False)
    if r is not None:
        good = True
        for status, x in r.rets:
            if status[0] == "ret":
                good &= guard(R, "worker:dedup", DEDUP, dedup, r.e, x, r.e.freeze(x, status[1]), lambda b: b.t == "param")
        if good:
            R.ok("worker:dedup", "distinct, one per id given")
    r = pyc.analyse(R, EXP, must=False)
    if r is not None:
        n, good = 0, True
        for status, x in r.rets:
            if status[0] == "ret":
                v = r.e.freeze(x, status[1])
                if pyc.strip(v).t == "mut" and any(o.a[0] == "loop" for o in pyc.strip(v).a[1:]):
                    n += 1
                    good &= guard(R, "worker:ids", EXP, used, r.e, v)
        R.floor("expansions of the worker", n, 1, EXP)
        if good:
            R.ok("worker:ids", "the ids of the cases are the distinct ones")
    r = pyc.analyse(R, SUF, must=False)
    if r is not None:
        if guard(R, "worker:suffix", SUF, suffix, R, r):
            R.ok("worker:suffix", "the suffix holds the whole id")
    cs = pycases.cases(R)
    if cs is not None:
        good = True
        for c in cs:
            good &= guard(R, "worker:nodeid", pycases.FN, nodeid, c)
        if good:
            R.ok("worker:nodeid", "the node id ends with the suffix of its case")
    # collection
    r = ctx.run(R, RD, "collection:dedup")
    if r is not None:
        good = True
        for s, v in r.rets:
            good &= guard(R, "collection:dedup", ctx.where(RD), dedup, r.e, s, v, lambda b: b.t == "param")
        if good:
            R.ok("collection:dedup", "distinct, one per id given")
    r = ctx.run(R, RE, "collection:ids", opaque=ctx.named("deduplicate_ids", "expand_single_spec"))
    if r is not None:
        n, good = 0, True
        for s, v in r.rets:
            if v is not VECNEW and not rows.pyc.strip(v) is VECNEW:
                n += 1
                good &= guard(R, "collection:ids", ctx.where(RE), used, r.e, v)
        R.floor("expansions in collection", n, 1, RE)
        if good:
            R.ok("collection:ids", "the ids of the cases are the distinct ones")


def dedup(e, x, v, is_input):
    loops = []
    rows.distinct(e, v)
    b = rows.base(e, v, loops)
    if not rows.exhausts(x, loops):
        raise Bad("early", "the ids after some point are lost")
    if not is_input(b):
        if b.t == "op" and b.a[0] in ("call:set", "call:dict.fromkeys", "call:frozenset", "pyslice", "islice") or b.t in ("setitems", "slice"):
            raise Bad("lost", "ids are lost: " + show(b)[:80])
        raise Unk("ids made from " + show(b)[:80])


def is_dedup(t):
    return t.t == "op" and t.a[0] in ("py:_deduplicate_ids", "call:" + RD)


def used(e, v):
    r = rows.rowlist(e, v)
    if r is None:
        raise Unk("the cases " + show(v)[:80])
    for c, w in r.rows:
        i = rows.project(w, "case_id")
        if i is None:
            i = rows.project(w, "0")
        if i is None:
            raise Unk("a case " + show(w)[:80])
        src = None
        if i.t == "elem" and i.a[1] == r.L:
            src = rows.unseq(i.a[0])
        elif i.t == "op" and i.a[0] == "index" and i.a[2].t == "idx" and i.a[2].a[1] == r.L:
            src = rows.unseq(i.a[1])
        if src is None or not is_dedup(src):
            if contains(i, is_dedup):
                raise Bad("changed", "a distinct id is changed afterwards: " + show(i)[:80])
            if src is not None or i.t == "op" and i.a[0] in ("m:join", "join") or i.t in ("cat", "join") or contains(i, lambda y: y.t == "op" and y.a[0] == ".case_id"):
                raise Bad("joined", "the ids of a test are not made distinct after they are joined: " + show(i)[:80])
            raise Unk("the id of a case: " + show(i)[:80])
        # one distinct id per case
        b = rows.base(e, src.a[1])
        if contains(b, is_dedup):
            pass


def suffix(R, r):
    some = 0
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        v = r.e.freeze(x, status[1])
        for d in dnf(x.conds, x.groups, 16):
            empty = None
            for k, b in d.items():
                if k.t == "op" and k.a[0] == "truth" and k.a[1].t == "param":
                    empty = not b
                elif k.t == "op" and k.a[0] in ("is_empty", "isnone") and k.a[1].t == "param":
                    empty = b if b else empty
                    if k.a[0] == "is_empty":
                        empty = b
                elif k.t == "op" and k.a[0] == "eq" and k.a[1].t == "param" and isc(k.a[2]) and cval(k.a[2]) == "":
                    empty = b
            if empty is True:
                if not isc(v):
                    pass
                continue
            some += 1
            parts = v.a if v.t == "cat" else (v,)
            ids = [p for p in parts if p.t == "param"]
            if not ids:
                if contains(v, lambda y: y.t == "param"):
                    if contains(v, lambda y: y.t == "op" and (y.a[0] in ("pyslice", "slice") or y.a[0] in ("m:lower", "m:upper", "m:strip", "m:replace", "m:lstrip", "m:rstrip", "m:casefold", "m:split"))):
                        raise Bad("changed", "the id is changed on its way into the node id: " + show(v)[:80])
                    raise Unk("the suffix " + show(v)[:80])
                raise Bad("lost", "the node id of a case does not hold its id (%s)" % brief(d))
    R.floor("paths with an id", some, 1, SUF)


def nodeid(c):
    if c.expand is None:
        raise Unk("a test without cases")
    call, L = c.expand
    n = c.f.get("nodeid")
    parts = n.a if n is not None and n.t == "cat" else (n,)

    def cid(y):
        return y.t == "op" and y.a[0] in (".0", ".case_id") and y.a[1].t == "elem" and y.a[1].a[1] == L
    for p in parts:
        if p is None:
            continue
        if cid(p) or p.t == "op" and p.a[0] == "py:get_case_nodeid_suffix" and cid(p.a[1]):
            return
    if n is not None and contains(n, cid):
        if contains(n, lambda y: y.t == "op" and y.a[0] in ("pyslice", "slice", "m:lower", "m:upper", "m:strip", "m:replace") and contains(y, cid)):
            raise Bad("changed", "the id of a case is changed in its node id: " + show(n)[:80])
        raise Unk("the node id " + show(n)[:80])
    raise Bad("lost", "the node id of a case does not hold its id: " + show(n)[:80])
