"""Shape facts about a list of batches: how many there can be, and whether one can be empty."""
from .terms import *
from . import models as M
from .ctx import sources, length, src_length


def bounds(e, v, d=0):
    """Terms each of which is an upper bound on the number of elements of v (a set; empty: nothing known)."""
    if d > 25:
        return set()
    if v is M.VECNEW or (v.t == "op" and v.a[0] in ("seq_new", "map_new")):
        return {C(0, "usize")}
    if v.t == "arr":
        return {C(len(v.a), "usize")}
    if v.t == "op" and v.a[0] == "repeat":
        return {v.a[2]}
    if v.t == "coll":
        return src_bounds(e, v.a[0], (), d + 1)
    if v.t == "mut":
        b = bounds(e, v.a[0], d + 1)
        for o in v.a[1:]:
            k = o.a[0]
            if k in ("sort", "at", "each", "reverse", "swap", "retain", "pop", "truncate", "dedup", "drain", "remove", "swap_remove", "key", "rotate_left", "rotate_right"):
                if k == "truncate":
                    b = b | {o.a[1]}
                continue
            add = None
            if k in ("push", "push_front"):
                add = {C(1, "usize")}
            elif k == "extend":
                add = bounds(e, o.a[1], d + 1)
            elif k == "loop":
                rec = e.loops[o.a[1]]
                us = rec.ops.get(o.a[2])
                if us is None:
                    return {op("len", v)}
                n = max([pushes(e, u) for u in us] + [0])
                if n == 0:
                    continue
                src, stages = sources(rec)
                if n > 1 or src is None or any(k.t == "flat" for c in rec.conts for k in c.conds):
                    return {op("len", v)}
                add = src_bounds(e, src, stages, d + 1) | guarded(rec, o.a[1], o.a[2], C(0, "usize") in b)
            else:
                return {op("len", v)}
            z = C(0, "usize")
            b = add if z in b and len(b) == 1 else ({op("add", x, y) for x in b for y in add} if b and add else set())
        return b | ({op("len", v)} if not b else set())
    return {op("len", v)}


def guarded(rec, L, pk, fresh):
    """Numbers that no element is added beyond: every addition is made under `position < n`, or `length < n` for a list that was empty."""
    out = None
    for c in rec.conts:
        u = c.upd.get(pk)
        if u is None or u.t == "lv":
            continue
        if u.t != "mut" or not any(x.a[0] in ("push", "push_front", "loop", "extend") for x in u.a[1:]):
            if u.t == "mut":
                continue
            return set()
        lv = u.a[0]
        for p in c.paths():
            got = set()
            for k, b in p.items():
                if fresh and b is False and k.t == "op" and k.a[0] == "lt" and len(k.a) == 3 and k.a[2] is op("len", lv) and k.a[1].t == "op" and k.a[1].a[0] == "rem":
                    got.add(k.a[1].a[2])        # length <= x % n
                if k.t == "op" and (k.a[0] == "lt" and b is True or k.a[0] == "le" and b is False) and len(k.a) == 3:
                    x, n = (k.a[1], k.a[2]) if k.a[0] == "lt" else (k.a[2], k.a[1])
                    if (x.t == "idx" and x.a[-1] == L) or (fresh and x.t == "op" and x.a[0] == "len" and x.a[1] is lv):
                        if not any(y.t in ("lv", "elem", "idx") for y in walk(n)):
                            got.add(n)
            out = got if out is None else out & got
    return out or set()


def pushes(e, ops):
    """How many elements one iteration can add to the container itself (2: more than one)."""
    n = 0
    for x in ops:
        if x.a[0] in ("push", "push_front"):
            n += 1
        elif x.a[0] == "loop":
            us = e.loops[x.a[1]].ops.get(x.a[2])
            if us is None or any(pushes(e, u) for u in us):
                return 2
        elif x.a[0] not in ("at", "each", "sort", "key"):
            return 2
    return n


def src_bounds(e, s, stages, d=0):
    out = set()
    for st in stages:
        if st.t == "take":
            out.add(st.a[0])
        if st.t in ("flat_map", "flatten", "chain", "cycle"):
            return {op("len", mk("coll", s))} if not out else out
        if st.t == "zip" and not any(x.t == "cycle" for x in st.a[0].a[1]):
            out |= src_bounds(e, st.a[0].a[0], st.a[0].a[1], d + 1)
    if s.t == "seq":
        return out | bounds(e, s.a[0], d + 1)
    if s.t == "mseq":
        return out | bounds(e, s.a[1], d + 1)
    if s.t == "range" and isc(s.a[0]) and cval(s.a[0]) == 0:
        h = s.a[1]
        out.add(h)
        if h.t == "op" and h.a[0] == "len":
            out |= bounds(e, h.a[1], d + 1)
        return out
    if s.t == "chunks":
        return out | {op("nchunks", s.a[0], s.a[1])}
    return out | {op("len", mk("coll", s))}


def overfull(e, v, n, p, d=0):
    """The list v (or the one it is filtered from) has as many elements as n allows and then gets another one in a loop, whatever its length."""
    from .numbers import bounded
    if v.t == "coll" and v.a[0].t == "seq":
        return overfull(e, v.a[0].a[0], n, p, d + 1)
    if v.t != "mut" or d > 6:
        return False
    if len(v.a) == 2 and v.a[1].a[0] == "loop":
        src = sources(e.loops[v.a[1].a[1]])[0]
        if src is not None and src.t == "seq" and src.a[0].t in ("mut", "coll") and overfull(e, src.a[0], n, p, d + 1):
            return True
    for i, o in enumerate(v.a[1:], 1):
        if o.a[0] != "loop" or i == 1 and v.a[0].t != "coll":
            continue
        L, pk = o.a[1:3]
        unguarded = any(u is not None and u.t == "mut" and u.a[0].t == "lv" and any(x.a[0] == "push" for x in u.a[1:])
                        and any(not any(limits(k, b, L) for k, b in q.items()) for q in c.paths())
                        for c in e.loops[L].conts for u in [c.upd.get(pk)])
        if not unguarded:
            continue
        before = mk("mut", *v.a[:i]) if i > 1 else v.a[0]
        bs = [b for b in bounds(e, before) if b.t != "op" or b.a[0] != "len"]
        if bs and any(bounded(op("add", b, C(1, "usize")), n, p) is False for b in bs):
            return True
    return False


def limits(k, b, L):
    """A condition on the position or state of a loop that can keep its additions down."""
    def here(x):
        return contains(x, lambda y: y.t in ("lv", "idx") and y.a[-1 if y.t == "idx" else 0] == L)
    if k.t == "op" and k.a[0] in ("lt", "le") and len(k.a) == 3 and not (here(k.a[1]) and here(k.a[2])):
        # beyond some position
        return here(k.a[1]) if b is True else here(k.a[2])
    return here(k)


def le(t, n, extra=()):
    """True when the bound term t is at most n (n a term known to be at least one)."""
    if t is n or t in extra:
        return True
    if isc(t) and isinstance(cval(t), int) and cval(t) <= 1:
        return True
    if t.t == "op" and t.a[0] == "min":
        return any(le(x, n, extra) for x in t.a[1:])
    if t.t == "op" and t.a[0] == "max" and isc(t.a[2]) and cval(t.a[2]) == 1:
        return le(t.a[1], n, extra)
    if t.t == "op" and t.a[0] == "max" and isc(t.a[1]) and cval(t.a[1]) == 1:
        return le(t.a[2], n, extra)
    if t.t == "op" and t.a[0] == "nchunks":
        return ceil_div(t.a[2], op("len", t.a[1]), n)
    return False


def count_verdict(bs, ns):
    """Is one of the bounds bs at most one of the terms ns (the same number under different names)?"""
    for b in bs:
        if any(le(b, n) for n in ns) or isc(b) and isinstance(cval(b), int) and cval(b) <= 1:
            return YES, show(b)[:80]
    if any(contains(b, lambda x: x in ns) for b in bs) and not any(b.t == "op" and b.a[0] == "nchunks" and b.a[2].t == "op" and b.a[2].a[0] in ("div", "max") for b in bs):
        return DUNNO, ", ".join(show(b)[:80] for b in bs)
    return NO, ", ".join(show(b)[:80] for b in bs)


def ceil_div(k, total, n):
    """k is total divided by n, rounded up."""
    if k.t == "op" and k.a[0] == "max" and any(isc(x) and cval(x) == 1 for x in k.a[1:]):
        return any(ceil_div(x, total, n) for x in k.a[1:] if not isc(x))
    if k.t == "op" and k.a[0].split("::")[-1] in ("div_ceil",) and len(k.a) == 3:
        return k.a[1] is total and k.a[2] is n
    if k.t == "op" and k.a[0] == "div" and k.a[2] is n:
        s = show(k.a[1])
        t = show(total)
        m = show(n)
        return s in ("sub(add(%s, %s), 1)" % (t, m), "sub(add(%s, %s), 1)" % (m, t), "add(%s, sub(%s, 1))" % (t, m), "add(sub(%s, 1), %s)" % (m, t), "add(sub(%s, 1), %s)" % (t, m))
    return False


YES, NO, DUNNO = "yes", "no", "unknown"


def nonempty_all(e, v, conds, pos, d=0):
    """Are all elements of v non-empty? pos(term): the term is known to be at least one and at most the number of
    items distributed."""
    if d > 20:
        return DUNNO
    if v is M.VECNEW:
        return YES
    if v.t == "arr":
        return _all(nonempty(e, x, conds, d + 1) for x in v.a)
    if v.t == "op" and v.a[0] == "repeat":
        return NO
    if v.t == "coll":
        return src_nonempty(e, v.a[0], conds, pos, d + 1)
    if v.t == "mut":
        last_retain = None
        for i, o in enumerate(v.a[1:]):
            if o.a[0] == "retain" and all(b or any(k.t == "op" and k.a[0] == "is_empty" and x is True for k, x in cs) for b, cs in e.retains.get(o.a[1], ())):
                if any((not b) for b, cs in e.retains[o.a[1]]):
                    last_retain = i
        ops = v.a[1:]
        res = []
        if last_retain is not None:
            ops = ops[last_retain + 1:]
        else:
            if rr(e, v, pos):
                return YES
            res.append(nonempty_all(e, v.a[0], conds, pos, d + 1))
        for o in ops:
            k = o.a[0]
            if k in ("sort", "reverse", "swap", "rotate_left", "rotate_right", "dedup", "truncate", "pop"):
                continue
            if k in ("at", "each") and not _shrinks(o.a[-1]):
                continue
            if k == "push":
                res.append(nonempty(e, o.a[1], conds, d + 1))
            elif k == "loop":
                rec = e.loops[o.a[1]]
                us = rec.ops.get(o.a[2])
                if us is None:
                    res.append(DUNNO)
                    continue
                for u, c in zip(us, rec.conts):
                    for xi, x in enumerate(u):
                        if x.a[0] == "push":
                            ne = _all(nonempty(e, x.a[1], cs, d + 1, pos) for cs in c.paths())
                            # what is added empty may be filled by the same iteration
                            res.append(DUNNO if ne == NO and any(y.a[0] in ("at", "each") for y in u[xi + 1:]) else ne)
                        elif x.a[0] in ("at", "each") and not _shrinks(x.a[-1]):
                            pass
                        elif x.a[0] == "loop" and _isat(e, x):
                            pass
                        else:
                            res.append(DUNNO)
            else:
                res.append(DUNNO)
        return _all(res)
    return DUNNO


def _shrinks(o):
    while o.a[0] in ("at", "each", "fld", "key"):
        o = o.a[-1]
    return o.a[0] not in ("push", "extend", "push_front", "sort", "loop")


def rr(e, v, pos):
    """n empty batches filled round robin with at least n items."""
    base = v.a[0]
    ops = v.a[1:]
    n = length(e, mk("mut", base, *[o for o in ops if not _isat(e, o)]) if any(not _isat(e, o) for o in ops) else base)
    if n is None or not pos(n):
        return False
    for o in ops:
        if o.a[0] == "loop":
            rec = e.loops[o.a[1]]
            us = rec.ops.get(o.a[2])
            if us and all(len(u) == 1 and u[0].a[0] == "at" and u[0].a[2].a[0] == "push" and u[0].a[1].t == "op" and u[0].a[1].a[0] == "rem"
                          and u[0].a[1].a[1].t == "idx" and u[0].a[1].a[2] is n for u in us):
                return True
    return False


def _isat(e, o):
    if o.a[0] == "at":
        return True
    if o.a[0] == "loop":
        us = e.loops[o.a[1]].ops.get(o.a[2])
        return us is not None and all(_isat(e, x) for u in us for x in u)
    return False


def _all(xs):
    r = YES
    for x in xs:
        if x == NO:
            return NO
        if x == DUNNO:
            r = DUNNO
    return r


def nonempty(e, x, conds, d=0, pos=lambda t: False):
    """Is the collection x non-empty under conds?"""
    for k, v in conds.items():
        if v is False and k.t == "op" and k.a[0] == "is_empty" and (k.a[1] is x or k.a[1] is M.canon_seq(e, x)):
            return YES
        if v is False and k.t == "op" and k.a[0] == "eq" and k.a[1].t == "op" and k.a[1].a[0] == "len" and k.a[1].a[1] is x and isc(k.a[2]) and cval(k.a[2]) == 0:
            return YES
        if v is True and k.t == "op" and k.a[0] == "is_empty" and k.a[1] is x:
            return NO
    if x.t == "mut" and any(o.a[0] == "push" for o in x.a[1:]) and all(o.a[0] in ("push", "extend", "loop", "sort", "at") for o in x.a[1:]):
        return YES
    if x.t == "arr":
        return YES if x.a else NO
    if x is M.VECNEW:
        return NO
    if x.t == "elem":
        return src_nonempty(e, x.a[0], conds, pos, d + 1)
    if x.t == "coll" and x.a[0].t == "seq":
        return nonempty(e, x.a[0].a[0], conds, d + 1, pos)
    return DUNNO


def src_nonempty(e, s, conds, pos, d):
    """Are all elements of an iteration source non-empty?"""
    if s.t == "seq":
        return nonempty_all(e, s.a[0], conds, pos, d + 1)
    if s.t in ("chunks", "chunks_exact", "windows"):
        return YES
    if s.t == "map_values":
        m = s.a[0]
        if m.t == "mut":
            for o in m.a[1:]:
                if o.a[0] == "loop":
                    us = e.loops[o.a[1]].ops.get(o.a[2])
                    if us is None:
                        return DUNNO
                    for u in us:
                        touched = {x.a[1] for x in u if x.a[0] == "ent" and x.a[3].a[0] == "touch"}
                        pushed = {x.a[1] for x in u if x.a[0] == "ent" and x.a[3].a[0] in ("push", "extend")}
                        if touched - pushed:
                            return DUNNO
                elif o.a[0] != "ent":
                    return DUNNO
            return YES
    if s.t == "range":
        return DUNNO
    return DUNNO
