"""C08: native sharding gives every test file to exactly one worker."""
from .. import ctx, batches
from ..numbers import bounded
from ..procs import *
from ..terms import *

FN = "native_runner::execute_native"


def check(R):
    R.rule("On every path of execute_native that can have files, the linear content of the command lines of all worker processes it starts (through "
           "threads, loops and shards) equals the list of files: each file once, none dropped by a filter, slice, zip or early exit. The list the "
           "workers are started over holds no empty shard and at most as many shards as the requested workers (at least one).")
    R.assume("std collections and iterators behave as documented (models.py)")
    r = ctx.run(R, FN)
    if r is None:
        return
    w = ctx.where(FN)
    inp = mk("param", "arg1")
    R.floor("worker starts", sum(1 for e in r.e.all_events() if e.a[0] == "exec"), 1, w)
    conserve(R, r, inp, "files", w, what="file")
    shape(R, r, inp, w)


def shape(R, r, inp, w):
    e = r.e
    seen = set()
    res = []
    for s, v in r.outcomes():
        for ev, loops in starters(e, s.ev):
            ls = tuple(L for L, c in loops)
            if not loops:
                R.unk("shards:count", "a worker is started outside of a loop")
                continue
            if len(loops) > 1:
                R.unk("shards:count", "workers are started in nested loops")
                continue
            L, cont = loops[0]
            src, stages = ctx.sources(e.loops[L])
            if src is None:
                R.unk("shards:count", "the loop that starts the workers has no source")
                continue
            key = (L, src, tuple(sorted((show(k), str(b)) for k, b in s.conds.items() if k.t == "op")))
            if key in seen:
                continue
            seen.add(key)
            bs = batches.src_bounds(e, src, stages)
            ns = {x for b in bs for x in workers_terms(b)}
            verdict, text = batches.count_verdict(bs, ns)
            asked = {y for p in s.paths() for x in list(p) + list(bs) for y in walk(x) if is_workers(y)}
            if verdict == batches.YES:
                R.ok("shards:count", "at most %s workers" % text)
            elif asked and all(any(bounded(b, n, p) is True for b in bs for n in asked) for p in s.paths()):
                R.ok("shards:count", "the path has at most as many workers as requested")
            elif verdict == batches.DUNNO and exceeds(bs, asked, s):
                R.bad("shards:count", w, "there can be more workers than were requested: " + text)
            elif verdict == batches.DUNNO:
                R.unk("shards:count", "bound " + text)
            else:
                R.bad("shards:count", w, "the number of workers is not bounded by the number requested: " + text)
            pos = lambda t: t.t == "op" and t.a[0] == "min" and any(y.t == "op" and y.a[0] == "len" and y.a[1] is inp for y in t.a[1:])
            out = []
            for cc in [{**p, **q} for p in s.paths() for q in cont.paths()]:
                el = mk("elem", src, L)
                out.append(batches.nonempty(e, el, cc, 0, pos))
            ne = batches._all(out)
            if ne == batches.YES:
                R.ok("shards:non-empty", "no shard is empty")
            elif ne == batches.NO:
                R.bad("shards:empty", w, "a worker can be started with an empty shard")
            else:
                R.unk("shards:non-empty", "shard emptiness is decided by constructs the rule does not read: " + show(src)[:80])


def exceeds(bs, asked, s):
    """For some numbers of files and workers every bound that can be computed is above the number requested."""
    bs = [b for b in bs if b.t != "op" or b.a[0] != "len"]
    if not bs or not all(contains(b, is_workers) for b in bs):
        return False
    b = bs[0] if len(bs) == 1 else op("min", *bs)
    return any(bounded(b, n, p) is False for p in s.paths() for n in asked)


def is_workers(x):
    return x.t == "op" and x.a[0] == ".num_workers"


def workers_terms(b):
    """The terms that stand for the requested number of workers (at least one)."""
    out = []
    for x in walk(b):
        if is_workers(x):
            out += [x, op("max", x, C(1, "usize"))]
            for y in walk(b):
                if y.t == "op" and y.a[0] == "max" and any(z is x for z in y.a[1:]):
                    out.append(y)
    return out

