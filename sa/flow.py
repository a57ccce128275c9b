"""Where a fault goes: does some return value still say success although a fault happened?

A World gives the truth of the branch conditions that directly observe one kind of fault (a process that could not be
started, a result file that is missing, ...). The analysis follows the fault through the loops that see it: an
iteration that sees the fault must leave the loop or make an accumulator `dirty` (a flag set, a counter increased, an
exit code made non-zero, an element pushed), and no iteration may clean a dirty accumulator. A return path is a
violation when none of its conditions contradicts the fault and the value it returns can be the success value."""
from .terms import *
from . import models as M

NZ, POS, NEMPTY = "nonzero", "positive", "nonempty"
MISS = object()


LOST = ("lost",)


def merge(a, b):
    if a is LOST or b is LOST:
        return a if b is LOST and a else b if a is LOST and b else LOST
    return a + b


class World:
    """name; facts(term) -> value of a condition key, or None."""

    def __init__(self, name, facts, what, trigger=None, excludes=None):
        self.name, self.facts, self.what, self.trigger, self.excludes = name, facts, what, trigger, excludes

    def sees(self, k):
        """The condition observes the fault itself (and not only the circumstances it needs)."""
        return self.facts(k) is not None and (self.trigger is None or self.trigger(k))


def norm(t, memo=None):
    """Simplifies projections of known values."""
    if memo is None:
        memo = {}
    if not isinstance(t, N):
        return tuple(norm(x, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t)
    if r is not None:
        return r
    a = tuple(norm(x, memo) for x in t.a)
    x = t if all(p is q for p, q in zip(a, t.a)) else rebuild(t.t, a)
    if x.t == "op" and isinstance(x.a[0], str) and len(x.a) == 2 and isinstance(x.a[1], N):
        n, b = x.a
        if n.startswith(".") and b.t == "agg":
            x = dict(b.a[2]).get(n[1:], x)
        elif n.startswith(".") and b.t == "tup" and n[1:].isdigit() and int(n[1:]) < len(b.a):
            x = b.a[int(n[1:])]
        elif n.startswith("pl:") and b.t == "agg" and "." not in n and b.a[1] == n[3:]:
            x = dict(b.a[2]).get("0", x)
    memo[t] = x
    return x


def cvalue(k):
    """Value of a condition key that is decided by its own shape."""
    if isc(k):
        return bool(cval(k))
    if k.t == "discr" and k.a[0].t == "agg":
        return k.a[0].a[1]
    if k.t == "op":
        n = k.a[0]
        if n == "eq" and isc(k.a[1]) and isc(k.a[2]):
            return cval(k.a[1]) == cval(k.a[2])
        if n == "eq" and k.a[1] is k.a[2]:
            return True
        if n == "lt" and isc(k.a[1]) and isc(k.a[2]):
            return cval(k.a[1]) < cval(k.a[2])
        if n == "is_empty" and (k.a[1] is M.VECNEW or (isc(k.a[1]) and cval(k.a[1]) in ("", ()))):
            return True
    return None


def agree(want, got):
    """Whether a condition value `want` (bool, variant or excluded variants) is compatible with a known value."""
    if isinstance(want, tuple):
        return got not in want[1]
    return want == got


def int_bounds(conds):
    """{term: [lo, hi, excluded]} from the comparisons with constants on a path."""
    out = {}

    def b(t):
        return out.setdefault(t, [None, None, set()])
    for k, v in conds.items():
        if k.t != "op" or len(k.a) != 3 or v not in (True, False):
            continue
        n, x, y = k.a
        if n == "eq" and isc(y) and type(cval(y)) is int:
            if v:
                q = b(x)
                q[0] = cval(y) if q[0] is None else max(q[0], cval(y))
                q[1] = cval(y) if q[1] is None else min(q[1], cval(y))
            else:
                b(x)[2].add(cval(y))
        elif n == "lt" and isc(y) and type(cval(y)) is int:
            q = b(x)
            if v:
                q[1] = cval(y) - 1 if q[1] is None else min(q[1], cval(y) - 1)
            else:
                q[0] = cval(y) if q[0] is None else max(q[0], cval(y))
        elif n == "lt" and isc(x) and type(cval(x)) is int:
            q = b(y)
            if v:
                q[0] = cval(x) + 1 if q[0] is None else max(q[0], cval(x) + 1)
            else:
                q[1] = cval(x) if q[1] is None else min(q[1], cval(x))
    return out


class Flow:
    def __init__(self, eng, world, start=None):
        self.e, self.w, self.start = eng, world, start
        self.loops = {}
        self.active = set()
        self.vecs = {}
        self._starts = {}
        self.needs_start = True     # the fault can only come from a process started on the path
        self.cur = None
        self.opaque = []     # joined results that could not be followed
        self.seen = []       # loops in which the fault is observed

    # ---- evaluation of one condition under the fault ----
    def val(self, k, facts, d=0):
        """True/False/variant under the world, or None. facts: extra facts of the faulty alternative."""
        v = cvalue(k)
        if v is not None:
            return v
        if k in facts:
            f = facts[k]
            return None if isinstance(f, tuple) else f
        v = self.w.facts(k)
        if v is not None:
            return v
        if k.t == "op":
            n = k.a[0]
            if n == "not":
                v = self.val(k.a[1], facts, d + 1)
                return None if v is None else not v
            if n == "eq" and isc(k.a[2]):
                z = self.zero(k.a[1], facts)
                c = cval(k.a[2])
                if c == 0 and not isinstance(c, bool) and z in (NZ, POS):
                    return False
                if isinstance(c, bool) and z in (True, False):
                    return z == c
            if n == "lt" and isc(k.a[1]) and cval(k.a[1]) == 0 and self.zero(k.a[2], facts) == POS:
                return True
            if n == "is_empty" and self.vec(k.a[1], facts) not in ([], LOST):
                return False
            if n in ("or", "bitor"):
                vs = [self.val(x, facts, d + 1) for x in k.a[1:]]
                if True in vs:
                    return True
                if all(x is False for x in vs):
                    return False
            if n in ("and", "bitand"):
                vs = [self.val(x, facts, d + 1) for x in k.a[1:]]
                if False in vs:
                    return False
                if all(x is True for x in vs):
                    return True
        if k.t == "fold":
            z = self.zero(k, facts)
            if z in (True, False):
                return z
        if k.t == "discr" and k.a[0].t == "fold":
            z = self.zero(k.a[0], facts)
            if isinstance(z, tuple):
                return z[1]
        return None

    def zero(self, t, facts):
        """What is known of a value under the fault: NZ, POS, a bool, ('variant', v), or None."""
        if isc(t):
            c = cval(t)
            if isinstance(c, bool):
                return c
            if isinstance(c, int):
                return POS if c > 0 else NZ if c else None
            return None
        if t.t == "agg":
            return ("variant", t.a[1])
        if t.t == "fold":
            r = self.loop(t.a[0])
            return r["dirty"].get(t.a[1]) if self.complete(t.a[0], r, facts) else None
        z = facts.get(op("eq", t, C(0, "i32")), MISS)
        for k, v in facts.items():
            if k.t == "op" and k.a[0] == "eq" and k.a[1] is t and isc(k.a[2]):
                if v is False and cval(k.a[2]) == 0 and not isinstance(cval(k.a[2]), bool):
                    return NZ
                if v is True and isinstance(cval(k.a[2]), int) and cval(k.a[2]) != 0:
                    return POS if cval(k.a[2]) > 0 else NZ
            if k.t == "op" and k.a[0] == "lt" and v is True and isc(k.a[1]) and k.a[2] is t and cval(k.a[1]) >= 0:
                return POS
        v = self.w.facts(op("eq", t, C(0, "i32")))
        if v is False:
            return NZ
        if t.t == "op":
            n = t.a[0]
            if n == "b2i":
                v = self.val(t.a[1], facts)
                return POS if v is True else None
            if n == "add":
                zs = [self.zero(x, facts) for x in t.a[1:]]
                if zs[0] == POS and self.nonneg(t.a[2]) or zs[1] == POS and self.nonneg(t.a[1]):
                    return POS
                if all(z == POS for z in zs):
                    return POS
            if n in ("max",):
                if any(self.zero(x, facts) == POS for x in t.a[1:]):
                    return POS
            if n in ("or", "bitor"):
                zs = [self.zero(x, facts) for x in t.a[1:]]
                if True in zs:
                    return True
                if any(z in (NZ, POS) for z in zs):
                    return NZ
            if n == "not":
                z = self.zero(t.a[1], facts)
                if z in (True, False):
                    return not z
            if n == "len" and self.vec(t.a[1], facts) not in ([], LOST):
                return POS
            if n in ("is_empty", "eq", "lt"):
                v = self.val(t, facts)
                if v is not None:
                    return v
            if n == "abs" or n.endswith("unsigned_abs") or n.endswith("::abs"):
                z = self.zero(t.a[1], facts)
                return POS if z in (NZ, POS) else None
        if t.t in ("mut", "coll"):
            return None
        return None

    def complete(self, L, r, facts):
        """The current path leaves loop L only once every element was visited."""
        if not r["early"]:
            return True
        k = mk("exit", L)
        i = facts.get(k, self.cur.get(k) if self.cur else None)
        return i is not None and i == r["done"]

    def nonneg(self, t):
        if isc(t):
            return isinstance(cval(t), int) and cval(t) >= 0
        if t.t == "op" and t.a[0] in ("len", "b2i"):
            return True
        if t.t == "op" and t.a[0] in ("add", "mul", "max"):
            return all(self.nonneg(x) for x in t.a[1:])
        return t.t in ("fold", "lv") or (t.t == "op" and t.a[0].startswith("."))

    def vec(self, v, facts, d=0):
        """Faulty alternatives [(value, facts)] of which collection v certainly holds one under the fault, [] when it is not
        known to hold any, LOST when it was given one and may have lost it."""
        if d > 12 or not isinstance(v, N):
            return []
        if v.t == "coll" and v.a[0].t in ("seq", "map_values", "setitems"):
            return self.vec(v.a[0].a[0], facts, d + 1)
        if v.t == "mut":
            res = self.vec(v.a[0], facts, d + 1)
            for o in v.a[1:]:
                k = o.a[0]
                if k == "loop":
                    r = self.loop(o.a[1])
                    for u in self.e.loops[o.a[1]].ops.get(o.a[2]) or ():
                        for y in u:
                            # kept under a key, or by index
                            if y.a[0] in ("ent", "key", "at") and contains(y, lambda z: z.t == "op" and z.a[0] == "joined"):
                                self.opaque.append(y)
                    res = merge(res, self.alts_of(o.a[1], o.a[2], r, facts))
                elif k == "extend":
                    res = merge(res, self.vec(o.a[1], facts, d + 1))
                elif k in ("push", "push_front", "vinsert", "insert"):
                    pass
                elif k in ("sort", "reverse", "at", "each", "touch", "ent", "key"):
                    pass
                else:
                    res = LOST if res else []
            return res
        if v.t == "op" and v.a[0] == "pl:Ok" and v.a[1].t == "op" and v.a[1].a[0] == "joined":
            return []
        if v.t == "fold":
            return self.alts_of(v.a[0], v.a[1], self.loop(v.a[0]), facts)
        if v.t == "elem":
            out = self.elem_alts(v.a[0], facts)
            if out is LOST:
                return LOST
            res = []
            for a, f in out:
                res = merge(res, self.vec(a, f, d + 1))
            return res
        return []

    def alts_of(self, L, pk, r, facts):
        a = r["alts"].get(pk, [])
        if a and (r["lossy"] or not self.complete(L, r, facts)):
            return LOST
        return a

    def elem_alts(self, src, facts):
        if src is None:
            return []
        if src.t in ("seq", "map_values", "setitems"):
            return self.vec(src.a[0], facts)
        return []

    # ---- joined threads ----
    def joined(self, conds):
        """Substitutions for results of joined threads: [(map, facts)] per thread alternative that the world allows."""
        js = set()
        for k in conds:
            for x in walk(k):
                if x.t == "op" and x.a[0] == "pl:Ok" and len(x.a) == 2 and isinstance(x.a[1], N) and x.a[1].t == "op" and x.a[1].a[0] == "joined":
                    js.add(x)
        out = [({}, {})]
        for j in js:
            hs = M.resolve_handles(self.e, j.a[1].a[1])
            if not hs or any(h.t != "handle" for h in hs):
                self.opaque.append(j)
                continue
            nxt = []
            for m, f in out:
                for h in hs:
                    for conds2, ev, ret in self.e.thread_paths(h.a[0]):
                        nxt.append(({**m, j: ret}, {**f, **conds2}))
            out = nxt
            if len(out) > 400:
                self.opaque.append(j)
                return [({}, {})]
        return out

    # ---- starts ----
    def starts(self, evs, d=0):
        """The events start a process, directly, in a thread or in a loop."""
        for e in evs:
            if e.t != "ev":
                continue
            if e.a[0] == "exec" if self.start is None else self.start(e):
                return True
            if e.a[0] == "spawn" and any(self.starts(ev, d + 1) for _, ev, _ in self.e.threads.get(e.a[1], [])):
                return True
            if e.a[0] == "loop" and d < 12 and self.loop_starts(e.a[1]):
                return True
        return False

    def loop_starts(self, L):
        r = self._starts.get(L)
        if r is None:
            self._starts[L] = False
            rec = self.e.loops[L]
            r = any(self.starts(c.ev, 1) for c in rec.conts) or any(self.starts(ex[2], 1) for ex in rec.exits)
            self._starts[L] = r
        return r

    # ---- one path ----
    def check(self, conds, facts, m, skip=()):
        old, self.cur = self.cur, {**facts, **conds}
        try:
            return self._check(conds, facts, m, skip)
        finally:
            self.cur = old

    def _check(self, conds, facts, m, skip):
        """(compatible, observed): whether the path can be taken under the fault, and whether a condition sees it.
        skip: loops whose current iteration need not be the faulty one."""
        observed = False
        for k, want in conds.items():
            if k.t in ("next", "alt", "flat", "chained"):
                continue
            if k.t == "exit":
                r = self.loop(k.a[0])
                if r["faulty"] and want not in r["exits"]:
                    return False, True
                if r["faulty"]:
                    observed = True
                continue
            if skip and contains(k, lambda x: (x.t in ("elem", "idx", "idxf") and x.a[1] in skip) or (x.t == "lv" and x.a[0] in skip)):
                continue
            kk = norm(subst(k, m)) if m else k
            got = self.val(kk, facts)
            if got is not None:
                if not agree(want, got):
                    return False, True
                if cvalue(k) is None and not (k in facts and not m) and (self.w.facts(kk) is None or self.w.sees(kk)):
                    observed = True
        if self.w.excludes is not None and self.empty_range(conds):
            return False, True
        return True, observed

    def empty_range(self, conds):
        """The comparisons of the path leave no value for an integer of which the fault excludes some values."""
        for t, bounds in int_bounds(conds).items():
            ex = self.w.excludes(t)
            if not ex or bounds[0] is None or bounds[1] is None or bounds[1] - bounds[0] > 64:
                continue
            if all(x in ex or x in bounds[2] for x in range(bounds[0], bounds[1] + 1)):
                return True
        return False

    # ---- loops ----
    def loop(self, L):
        r = self.loops.get(L)
        if r is not None:
            return r
        empty = {"faulty": False, "dirty": {}, "alts": {}, "exits": set(), "early": set(), "done": None, "lossy": False}
        if L in self.active:
            return empty
        self.active.add(L)
        r = self._loop(L)
        self.active.discard(L)
        self.loops[L] = r
        return r

    def _loop(self, L):
        rec = self.e.loops[L]
        from .ctx import sources
        src, stages = sources(rec)
        alts = self.elem_alts(src, {}) if src is not None else []
        lossy = bool(alts) and (alts is LOST or self.lossy(src, stages))
        if alts is LOST:
            alts = []
        el = mk("elem", src, L) if src is not None else None
        base = [({el: a}, dict(f)) for a, f in alts] if alts else [({}, {})]
        started = []        # iterations that start a process: every fault comes from one of those, or from before the loop
        for cont in rec.conts:
            if self.starts(cont.ev):
                started += [(cont, dict(conds), {}, True) for conds in cont.paths()]
        hit = []            # (cont, facts, map) of iterations under the fault
        observed = bool(alts)
        for cont in rec.conts:
            for conds in cont.paths():
                for m, f in base:
                    for jm, jf in self.joined({**conds, **{u: 1 for u in cont.upd.values() if isinstance(u, N)}}):
                        ok, _ = self.check(jf, {}, {})
                        if not ok:
                            continue
                        mm = {**m, **jm}
                        ok, obs = self.check(conds, {**f, **jf}, mm)
                        observed = observed or obs
                        if any(self.w.sees(k) for k in jf):
                            observed = True
                        if ok and (obs or alts or not self.sees(conds, jf)):
                            hit.append((cont, {**f, **jf, **conds}, mm, obs or bool(alts) or self.sees(conds, jf)))
        exits = set()
        done = None
        for i, ex in enumerate(rec.exits):
            kind, conds, ev, groups = ex
            exhaust = any(k.t == "next" and k.a[2] == L and v is False for k, v in conds.items())
            if exhaust:
                done = i
                continue
            from .mir import dnf
            for cs in dnf(conds, groups, 64):
                okk = False
                for m, f in base:
                    for jm, jf in self.joined(cs):
                        if not self.check(jf, {}, {})[0]:
                            continue
                        ok, obs = self.check(cs, {**f, **jf}, {**m, **jm})
                        observed = observed or obs
                        okk = okk or ok
                # an exit taken by an iteration without the fault stays possible
                exits.add(i)
        res = {"faulty": False, "dirty": {}, "alts": {}, "exits": set(range(len(rec.exits))), "early": exits, "done": done, "lossy": lossy}
        if not observed and not started:
            return res
        hit = [h for h in hit if h[3]]
        res["faulty"] = True
        if started:
            for pk in rec.lv:
                self.acc(rec, pk, started, res)
        if not observed:
            return res
        self.seen.append(L)
        if not hit:
            res["exits"] = exits
            return res
        # which accumulators are dirty after an iteration under the fault, and stay so
        for pk in rec.lv:
            self.acc(rec, pk, hit, res)
        # folds of a loop that does not visit every element are not reliable
        if lossy:
            res["dirty"] = {}
        return res

    def lossy(self, src, stages):
        from .ctx import src_length
        from .content import LOSSY_STAGES
        for st in stages:
            if st.t in LOSSY_STAGES:
                return True
            if st.t == "zip" and src_length(self.e, src, (st,)) is None:
                return True
        return False

    def sees(self, conds, jf):
        return any(self.w.sees(k) for k in list(conds) + list(jf))

    def acc(self, rec, pk, hit, res):
        lv = rec.lv[pk]
        init = rec.init.get(pk)
        ops = rec.ops.get(pk)
        if ops is not None and any(u for u in ops):
            # collection: every faulty iteration pushes, none removes
            out = []
            for cont, f, m, _ in hit:
                u = ops[rec.conts.index(cont)]
                ps = self.pushes(u, f, m)
                if not ps:
                    return
                out += ps
            for u in ops:
                if any(x.a[0] in ("pop", "clear", "truncate", "retain", "drain", "remove", "swap_remove", "split_off", "set") for x in u):
                    return
            res["alts"][pk] = out
            return
        if init is None or not isinstance(init, N):
            return
        kinds = set()
        for cont, f, m, _ in hit:
            u = cont.upd.get(pk)
            if u is None or u is lv:
                z = self.keepz(lv, f)
            else:
                z = self.newz(norm(subst(u, m)), lv, f)
            kinds.add(z)
        if None in kinds:
            return
        if kinds == {NZ, POS}:
            kinds = {NZ}
        if len(kinds) != 1:
            return
        z = kinds.pop()
        if isinstance(z, bool) and isc(init) and cval(init) is z:
            return
        if isinstance(z, tuple) and init.t == "agg" and init.a[1] == z[1]:
            return
        # kept by every iteration
        for cont in rec.conts:
            u = cont.upd.get(pk)
            for conds in cont.paths():
                if not self.kept(u, lv, z, conds):
                    return
        res["dirty"][pk] = z

    def pushes(self, u, f, m):
        out = []
        for x in u:
            if x.a[0] in ("push", "push_front"):
                out.append((norm(subst(x.a[1], m)) if m else x.a[1], f))
            elif x.a[0] == "vinsert":
                out.append((x.a[2], f))
            elif x.a[0] == "insert":
                out.append((x.a[-1], f))
            elif x.a[0] == "extend":
                a = self.vec(norm(subst(x.a[1], m)) if m else x.a[1], f)
                if a is LOST:
                    return []
                out += a
            elif x.a[0] == "loop":
                r = self.loop(x.a[1])
                a = self.alts_of(x.a[1], x.a[2], r, f)
                if a is LOST:
                    return []
                out += a
            elif x.a[0] in ("ent", "key", "at", "each"):
                out += self.pushes([x.a[-1]], f, m)
        return out

    def keepz(self, lv, f):
        """Value of an accumulator an iteration leaves alone: known only from what the path found out about it."""
        for k, v in f.items():
            if k is lv and isinstance(v, bool):
                return v
            if k.t == "op" and k.a[0] == "eq" and k.a[1] is lv and isc(k.a[2]) and cval(k.a[2]) == 0 and v is False:
                return NZ
            if k.t == "discr" and k.a[0] is lv and isinstance(v, str):
                return ("variant", v)
            if k.t == "op" and k.a[0] == "lt" and v is True and isc(k.a[1]) and k.a[2] is lv:
                return POS
        return None

    def newz(self, u, lv, f):
        if u.t == "op" and u.a[0] == "add" and lv in u.a[1:]:
            o = u.a[1] if u.a[2] is lv else u.a[2]
            return POS if self.zero(o, f) == POS else None
        if u.t == "op" and u.a[0] == "max" and lv in u.a[1:]:
            o = u.a[1] if u.a[2] is lv else u.a[2]
            return POS if self.zero(o, f) == POS else None
        if u.t == "op" and u.a[0] in ("or", "bitor") and lv in u.a[1:]:
            o = u.a[1] if u.a[2] is lv else u.a[2]
            z = self.zero(o, f)
            return z if z is True else (NZ if z in (NZ, POS) else None)
        if u.t == "op" and u.a[0] in ("and", "bitand") and lv in u.a[1:]:
            o = u.a[1] if u.a[2] is lv else u.a[2]
            z = self.zero(o, f)
            return False if z is False else None
        return self.zero(u, f)

    def kept(self, u, lv, z, conds):
        if u is None or u is lv:
            return True
        # the iteration starts from a clean value: nothing to keep
        for k, v in conds.items():
            if k is lv and isinstance(v, bool) and isinstance(z, bool) and v is not z:
                return True
            if k.t == "op" and k.a[0] == "eq" and k.a[1] is lv and isc(k.a[2]) and cval(k.a[2]) == 0 and v is True:
                return True
            if k.t == "discr" and k.a[0] is lv and isinstance(z, tuple) and isinstance(v, str) and v != z[1]:
                return True
        if isinstance(z, bool):
            if isc(u):
                return cval(u) is z
            if u.t == "op" and u.a[0] in (("or", "bitor") if z else ("and", "bitand")) and lv in u.a[1:]:
                return True
            return False
        if isinstance(z, tuple):
            return u.t == "agg" and u.a[1] == z[1]
        q = Flow.plain(u, conds)
        if q == POS or (q == NZ and z == NZ):
            return True
        if u.t == "op" and u.a[0] == "add" and lv in u.a[1:]:
            o = u.a[1] if u.a[2] is lv else u.a[2]
            return z == POS and self.nonneg(o)
        if u.t == "op" and u.a[0] == "max" and lv in u.a[1:]:
            return z == POS
        if u.t == "op" and u.a[0] in ("bitor", "or") and lv in u.a[1:]:
            return True
        if u.t == "fold":
            # an inner loop that goes on with the same accumulator
            r = self.e.loops[u.a[0]]
            if r.init.get(u.a[1]) is lv:
                return all(self.kept(c.upd.get(u.a[1]), r.lv[u.a[1]], z, cs) for c in r.conts for cs in c.paths())
        return False

    @staticmethod
    def plain(t, conds):
        """Sign of a value from the path's own conditions."""
        if isc(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
            return POS if cval(t) > 0 else NZ if cval(t) else None
        for k, v in conds.items():
            if k.t == "op" and k.a[0] == "eq" and k.a[1] is t and isc(k.a[2]) and cval(k.a[2]) == 0 and v is False:
                return NZ
            if k.t == "op" and k.a[0] == "lt" and v is True and isc(k.a[1]) and k.a[2] is t and cval(k.a[1]) >= 0:
                return POS
        return None

    # ---- return paths ----
    def returns(self, rets):
        """[(conds, value, verdict)] for the return paths possible under the fault: verdict 'bad' | 'unk'."""
        out = []
        for s, v in rets:
            for conds in s.paths():
                early = set()
                for k, i in conds.items():
                    if k.t == "exit":
                        rec = self.e.loops[k.a[0]]
                        if not any(q.t == "next" and q.a[2] == rec.L and b is False for q, b in rec.exits[i][1].items()):
                            early.add(k.a[0])
                for jm, jf in self.joined({**conds, v: 1}):
                    if not self.check(jf, {}, {})[0]:
                        continue
                    ok, obs = self.check(conds, jf, jm, early)
                    if not ok:
                        continue
                    if not obs and self.needs_start and not self.starts(s.ev):
                        continue
                    vv = norm(subst(v, jm)) if jm else v
                    self.cur = conds
                    z = self.zero(vv, {**jf, **conds})
                    self.cur = None
                    if z in (NZ, POS, True):
                        continue
                    if z is None and not isc(vv) and not self.readable(vv):
                        out.append((conds, vv, "unk"))
                    else:
                        out.append((conds, vv, "bad"))
        return out

    def readable(self, v):
        """The value is one the analysis follows (so 'not shown non-zero' means it can be zero)."""
        if v.t == "fold":
            return True
        if v.t == "op" and v.a[0] in ("b2i", "max", "min", "add", "not", "or", "and", "bitor", "eq", "lt", "is_empty", "rem", "bitand", "sub"):
            return True
        if v.t == "op" and v.a[0].startswith(("pl:", ".")):
            return True
        return False
