"""What is handed to the processes a function starts."""
from collections import Counter
from .terms import *
from .content import Content, Loss, Unknown, cut_of
from .numbers import feasible
from . import models as M


def key_part(x):
    """A value taken from the keys of a map, not from its values."""
    if x.t == "elem" and x.a[0].t == "map_keys":
        return True
    return x.t == "op" and x.a[0] == ".0" and x.a[1].t == "elem" and x.a[1].a[0].t == "map_items"


COUNTS = {"len", "is_empty", "contains", "count"}


class Reach:
    """Does a term hold something that comes from inp (through loops, too)? Counts and positions do not count."""

    def __init__(self, e, inp):
        self.e, self.inp, self.memo = e, inp, {}

    def __call__(self, x):
        if not isinstance(x, N):
            return isinstance(x, tuple) and any(self(y) for y in x)
        if x is self.inp:
            return True
        r = self.memo.get(x)
        if r is None:
            self.memo[x] = False
            r = self.memo[x] = self.go(x)
        return r

    def go(self, x):
        if x.t in ("idx", "idxf") or (x.t == "op" and x.a[0] in COUNTS) or key_part(x):
            return False
        if x.t == "o" and x.a[0] == "loop" or x.t in ("fold", "lv"):
            L, pk = (x.a[1], x.a[2]) if x.t == "o" else x.a[:2]
            rec = self.e.loops.get(L) if isinstance(self.e.loops, dict) else self.e.loops[L]
            if rec is None:
                return False
            if x.t != "o" and rec.init.get(pk) is not None and self(rec.init[pk]):
                return True
            us = rec.ops.get(pk)
            if us is not None:
                return any(self(o) for u in us for o in u)
            return any(c.upd.get(pk) is not None and self(c.upd[pk]) for c in rec.conts)
        return any(self(y) for y in x.a)


def carrier(reach):
    """The element of the input an element was made from (see Content)."""
    inp = reach.inp

    def f(x):
        if not reach(x):
            return None
        roots = []

        def go(y):
            if not isinstance(y, N):
                if isinstance(y, tuple):
                    for z in y:
                        go(z)
                return
            if not reach(y):
                return
            if y is inp or y.t in ("elem", "mut", "fold", "coll", "lv"):
                if y not in roots:
                    roots.append(y)
                return
            if y.t == "op" and y.a[0] in (".0", ".1") and y.a[1].t == "elem":
                if y not in roots:
                    roots.append(y)
                return
            for z in y.a:
                go(z)
        go(x)
        return roots[0] if len(roots) == 1 else x
    return f


class Handed(Content):
    """Content of the command lines of all processes started on an event trace, restricted to what comes from inp."""

    def __init__(self, eng, inp, alias=None):
        self.inp = inp
        self.reach = Reach(eng, inp)
        super().__init__(eng, ghost=self._ev, carrier=carrier(self.reach), alias=alias)
        self.nstart = 0

    def _ev(self, ev):
        if ev.a[0] == "exec":
            self.nstart += 1
            return self.only(self.total(ev.a[2]))
        if ev.a[0] == "spawn":
            cs = []
            for conds, evs, ret in self.e.thread_paths(ev.a[1]):
                old, self.cur = self.cur, {**self.cur, **conds}
                n0 = self.nstart
                c = Counter()
                try:
                    c = self.events(evs)
                finally:
                    self.cur = old
                emp = self.empties(conds)
                cs.append(({a: n for a, n in c.items() if n}, conds, self.nstart - n0, emp))
            if not any(k for _, _, k, _ in cs):
                return None
            keys = {a for c, _, _, _ in cs for a in c}
            out = Counter()
            for a in keys:
                ns = {}
                for c, conds, k, emp in cs:
                    if a not in emp:
                        ns.setdefault(c.get(a, 0), (conds, k))
                if len(ns) > 1:
                    n = min(ns)
                    from .content import showconds
                    raise Loss(("a started worker thread runs no process" if not ns[n][1] else "a worker gets only part of its share") + " when " + showconds(ns[n][0]))
                for n in ns:
                    out[a] = n
            return out
        return None

    def only(self, c):
        return Counter({a: n for a, n in c.items() if n and self.reach(a)})


def joins(evs):
    return [e for e in evs if e.a[0] == "join"]


def has_start(e, evs, d=0):
    for x in evs:
        if x.a[0] == "exec":
            return True
        if x.a[0] == "spawn" and any(has_start(e, ev, d + 1) for _, ev, _ in e.threads.get(x.a[1], [])):
            return True
        if x.a[0] == "loop" and d < 12 and any(has_start(e, c.ev, d + 1) for c in e.loops[x.a[1]].conts):
            return True
    return False


def empty_on(conds, inp):
    """The path's conditions say that inp is empty."""
    for k, v in conds.items():
        if v is True and k.t == "op" and k.a[0] == "is_empty" and k.a[1] is inp:
            return True
        if k.t == "op" and k.a[0] == "eq" and v is True and isc(k.a[2]) and cval(k.a[2]) == 0 and k.a[1].t == "op" and k.a[1].a[0] == "len" and k.a[1].a[1] is inp:
            return True
    return False


def starters(e, evs, loops=(), d=0):
    """(event, enclosing loops, conditions) of each process or thread start on a trace."""
    for x in evs:
        if x.a[0] in ("exec", "spawn"):
            yield x, loops
        elif x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                yield from starters(e, c.ev, loops + ((x.a[1], c),), d + 1)


def conserve(R, r, inp, tag, where, alias=None, what="test", empties=()):
    """Every path hands each element of inp to exactly one process. Returns True when shown for all paths."""
    e = r.e
    okn = 0
    good = True
    seen = set()

    def bad(key, text):
        nonlocal good
        good = False
        if (key, text) not in seen:
            seen.add((key, text))
            R.bad("%s:%s" % (tag, key), where, text)
    for s, v in r.outcomes():
        for p in s.paths()[:400]:
            if empty_on(p, inp) or not feasible(p):
                okn += 1
                continue
            fail = isc(v) and isinstance(cval(v), int) and cval(v) != 0
            zero = zero_starts(p, Handed(e, inp, alias))
            if zero and not any(x.a[0] in ("exec", "spawn") for x in s.ev):
                okn += 1
                continue
            if not has_start(e, s.ev):
                if fail:
                    okn += 1
                    continue
                h = Handed(e, inp, alias)
                if any(k.t == "op" and k.a[0] == "is_empty" and x is True and not isinstance(k.a[1], str) and h.reach(k.a[1]) for k, x in p.items()):
                    # nothing left to start after distribution
                    try:
                        h.cur = dict(p)
                        for k, x in p.items():
                            if k.t == "op" and k.a[0] == "is_empty" and x is True and h.reach(k.a[1]):
                                c = h.total(k.a[1])
                                if {a: n for a, n in c.items() if n} == {inp: 1}:
                                    okn += 1
                                    break
                        else:
                            good = False
                            R.unk(tag + ":no-start", "a path without a process")
                    except (Loss, Unknown) as x:
                        good = False
                        R.unk(tag + ":no-start", str(x)[:200])
                    continue
                bad("no-start", "the run ends with %s without starting a process although there are %ss" % (show(v)[:40], what))
                continue
            h = Handed(e, inp, alias)
            h.cur = dict(p)
            try:
                c = h.combine(h.events(s.ev), 0)
                c = {a: n for a, n in c.items() if n}
                if c == {inp: 1}:
                    okn += 1
                elif not c:
                    bad("not-handed", "no %s is handed to the started processes" % what)
                elif set(c) == {inp}:
                    bad("repeated", "every %s is handed to %d processes" % (what, c[inp]))
                elif inp in c:
                    bad("extra", "%ss are handed out more than once: %s" % (what, ", ".join(show(a)[:80] for a in c if a is not inp)))
                elif any(contains(a, lambda x: cut_of(x) is not None) for a in c):
                    bad("slice", "only a slice of the %ss is handed out: %s" % (what, ", ".join(show(a)[:120] for a in c)))
                elif any(a.t == "part" for a in c):
                    bad("part", "only a part of the %ss is handed out: %s" % (what, ", ".join(" ".join(x.t for x in a.a[0]) for a in c if a.t == "part")))
                else:
                    good = False
                    R.unk(tag + ":content", "content " + ", ".join(show(a)[:80] for a in c))
            except Loss as x:
                bad("content", str(x)[:300])
            except Unknown as x:
                good = False
                R.unk(tag + ":content", str(x)[:200])
    if good and okn:
        R.ok(tag + ":content", "on each of %d paths every %s is on the command line of exactly one process" % (okn, what))
    return good


def counts_starts(e, L, pk, d=0):
    """Does every iteration of loop L that starts a process raise the counter?"""
    if d > 6:
        return False
    for c in e.loops[L].conts:
        if not has_start(e, c.ev):
            continue
        u, lv = c.upd.get(pk), e.loops[L].lv.get(pk)
        if u is not None and u.t == "op" and u.a[0] == "add" and u.a[1] is lv and isc(u.a[2]) and cval(u.a[2]) > 0:
            continue
        if u is not None and u.t == "fold" and e.loops[u.a[0]].init.get(u.a[1]) is lv and counts_starts(e, u.a[0], u.a[1], d + 1):
            inner = [x.a[1] for x in c.ev if x.a[0] == "loop" and has_start(e, [x])]
            if inner == [u.a[0]] and not any(x.a[0] in ("exec", "spawn") for x in c.ev):
                continue
        return False
    return True


def zero_starts(p, h):
    """A path on which a counter of started processes is still zero, or the list of their handles is empty."""
    e = h.e
    for k, x in p.items():
        if x is True and k.t == "op" and k.a[0] in ("eq", "is_empty"):
            if k.a[0] == "eq" and not (isc(k.a[2]) and cval(k.a[2]) == 0):
                continue
            y = k.a[1]
            if y.t == "fold" and counts_starts(e, *y.a[:2]):
                return True
            if y.t == "op" and y.a[0] == "len":
                y = y.a[1]
            if y.t in ("mut", "fold", "coll") and holds_handles(e, y):
                return True
    return False


def holds_handles(e, t, d=0, seen=None):
    seen = set() if seen is None else seen
    for y in walk(t):
        if y.t == "handle":
            return True
        if y.t == "o" and y.a[0] == "loop" or y.t in ("fold", "lv"):
            L, pk = (y.a[1], y.a[2]) if y.t == "o" else y.a[:2]
            if (L, pk) in seen or d > 8:
                continue
            seen.add((L, pk))
            for c in e.loops[L].conts:
                u = c.upd.get(pk)
                if u is not None and holds_handles(e, u, d + 1, seen):
                    return True
    return False
