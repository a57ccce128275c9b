"""C01: the batches returned by every distribution strategy hold exactly the collected tests."""
from .. import ctx, batches
from ..content import Content, Loss, Unknown, showconds
from ..numbers import bounded
from ..terms import *

TRAIT = "scheduler::Scheduler"


def strategies(R):
    """{mode variant: implementing function}, read from create_scheduler."""
    r = ctx.run(R, "scheduler::create_scheduler")
    if r is None:
        return None
    im = ctx.impls(TRAIT, "distribute_tests")
    out = {}
    for s, v in r.rets:
        for conds in s.paths():
            mode = next((x for k, x in conds.items() if k.t == "discr" and k.a[0].t == "param"), None)
            out[mode] = im.get(v.a[0]) if v.t == "agg" else None
    return out


def infeasible(conds, n):
    """The path needs zero workers."""
    for k, v in conds.items():
        if v is True and k.t == "op" and k.a[0] == "eq" and k.a[1] is n and isc(k.a[2]) and cval(k.a[2]) == 0:
            return True
        if v is True and k.t == "op" and k.a[0] == "lt" and k.a[1] is n and isc(k.a[2]) and cval(k.a[2]) == 1:
            return True
    return False


def is_empty_path(conds, tests):
    for k, v in conds.items():
        if v is True and k.t == "op":
            if k.a[0] == "is_empty" and k.a[1] is tests:
                return True
            if k.a[0] == "eq" and k.a[1].t == "op" and k.a[1].a[0] == "len" and k.a[1].a[1] is tests and isc(k.a[2]) and cval(k.a[2]) == 0:
                return True
        if v is False and k.t == "next" and k.a[0].t == "seq" and k.a[0].a[0] is tests and False:
            return True
    return False


def check(R):
    R.rule("For each mode of create_scheduler, on every path of its distribute_tests with at least one worker, the linear content of the returned "
           "batches equals the content of the test list (each loop puts each element into exactly one batch; no lossy stage, overwrite, early exit); "
           "batches that can be empty are filtered, and the number of batches is bounded by the worker count.")
    R.assume("std collections and iterators behave as documented (models.py)")
    st = strategies(R)
    if st is None:
        return
    R.floor("distribution modes", len(st), 5, ctx.where("scheduler::create_scheduler"))
    tests, n = mk("param", "arg1"), mk("param", "arg2")
    for mode in sorted(st, key=str):
        fn = st[mode]
        if fn is None:
            R.unk("%s:impl" % mode, "the strategy object is not a plain struct")
            continue
        r = ctx.run(R, fn, key=mode)
        if r is None:
            continue
        w = ctx.where(fn)
        if not r.rets:
            R.bad("%s:never-returns" % mode, w, "no path returns")
        for s, v in r.rets:
            paths = [c for c in s.paths() if not infeasible(c, n)]
            if not paths:
                continue
            live = [c for c in paths if not is_empty_path(c, tests)]
            cc = Content(r.e)
            # conservation
            try:
                c = cc.total(v)
                pos = {a: k for a, k in c.items() if k}
                if pos == {tests: 1}:
                    R.ok("%s:content" % mode, "every element of the test list is in exactly one batch of %s" % show(v)[:120])
                elif not live and all(batches.nonempty(r.e, tests, p) != batches.YES for p in paths) and not pos:
                    R.ok("%s:content-empty" % mode, "no tests, no batches")
                elif not pos:
                    R.bad("%s:dropped" % mode, w, "returns no tests although tests may be present: " + showconds(live[0] if live else paths[0]))
                elif tests in pos and pos[tests] > 1:
                    R.bad("%s:repeated" % mode, w, "every test is handed out %d times" % pos[tests])
                elif tests in pos:
                    R.bad("%s:extra" % mode, w, "the batches hold more than the tests: " + ", ".join(show(a)[:80] for a in pos if a is not tests))
                elif any(a.t == "part" for a in pos):
                    R.bad("%s:content" % mode, w, "only a part of the tests is handed out: " + ", ".join("%s of %s" % (" ".join(x.t for x in a.a[0]), show(a.a[1])[:60]) for a in pos if a.t == "part"))
                elif any(contains(a, lambda x: x is tests) for a in pos):
                    R.unk("%s:content" % mode, "content " + ", ".join(show(a)[:80] for a in pos))
                else:
                    R.bad("%s:content" % mode, w, "the batches are not made of the tests: " + ", ".join(show(a)[:80] for a in pos))
            except Loss as x:
                R.bad("%s:content" % mode, w, str(x))
            except Unknown as x:
                R.unk("%s:content" % mode, str(x))
            # number of batches
            if not live:
                continue
            bs = batches.bounds(r.e, v)
            one = any(k.t == "op" and k.a[0] == "eq" and k.a[1] is n and x is True and cval(k.a[2]) == 1 for p in live for k, x in p.items() if k.t == "op" and k.a[0] == "eq" and isc(k.a[2]))
            if any(batches.le(b, n) for b in bs):
                R.ok("%s:count" % mode, "at most %s batches" % [show(b)[:60] for b in bs if batches.le(b, n)][0])
            elif bs and all(any(bounded(b, n, p) is True for b in bs) for p in live):
                R.ok("%s:count" % mode, "the path has at most as many batches as workers")
            elif any(batches.overfull(r.e, v, n, p) for p in live):
                R.bad("%s:count" % mode, w, "there can be more batches than workers: after as many batches as workers a loop adds others")
            elif any(contains(b, lambda x: x is n) for b in bs) and not any(b.t == "op" and b.a[0] == "nchunks" and b.a[2].t == "op" and b.a[2].a[0] in ("div", "max") for b in bs):
                R.unk("%s:count" % mode, "bound " + ", ".join(show(b)[:80] for b in bs))
            else:
                R.bad("%s:count" % mode, w, "the number of batches is not bounded by the number of workers: " + ", ".join(show(b)[:80] for b in bs))
            # no empty batch
            pos_ = lambda t: t.t == "op" and t.a[0] == "min" and any(y.t == "op" and y.a[0] == "len" and y.a[1] is tests for y in t.a[1:])
            ne = batches._all(batches.nonempty_all(r.e, v, p, pos_) for p in live)
            if ne == batches.YES:
                R.ok("%s:non-empty" % mode, "only non-empty batches are kept")
            elif ne == batches.NO:
                R.bad("%s:empty-batch" % mode, w, "a batch can be empty: nothing filters the initially empty batches")
            else:
                R.unk("%s:non-empty" % mode, "batch emptiness is decided by constructs the rule does not read")
