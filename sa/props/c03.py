"""C03: a parallel pytest run starts every batch, awaits every worker, and shows all output."""
from collections import Counter
from .. import ctx
from ..content import Content, Loss, Unknown
from ..procs import *
from ..terms import *
from . import c04
from ..lists import resolved
from ..pyc import Unk as PUnk

FN = "runner::execute_tests_parallel"
TEXT = {"text", "lossy", "from_utf8_lossy"}
SHORTENS = {"slice", "trim", "trim_end", "trim_start", "truncate", "trim_matches", "trim_end_matches", "split_off", "take"}


def alias(v):
    if v.t == "op" and v.a[0] == "call:scheduler::Scheduler::distribute_tests" and len(v.a) > 2:
        return v.a[2]


def check(R):
    R.rule("On every path of execute_tests_parallel: (a) the linear content of the command lines of all processes it starts equals the test list "
           "(each scheduler's batches hold the tests they are given: C01); (b) every thread handle made by a start is stored and joined before the "
           "function returns, by a loop that leaves none out; (c) both captured streams of every joined result are printed unless empty; "
           "(d) the number a worker is printed under differs from start to start; "
           "(e) every process of execute_tests inherits the output streams, or what is captured is printed.")
    R.assume("Scheduler::distribute_tests conserves its tests (C01); std threads and processes behave as documented")
    r = ctx.run(R, FN, opaque=c04.OPAQUE, events=("print",))
    if r is None:
        return
    w = ctx.where(FN)
    inp = mk("param", "arg1")
    e = r.e
    R.floor("worker starts", sum(1 for x in e.all_events() if x.a[0] == "exec"), 1, w)
    conserve(R, r, inp, "batches", w, alias)
    awaited = Await(R, e, w)
    for s, v in r.outcomes():
        awaited.path(s)
    awaited.done()
    sequential(R)


SINGLE = "pytest_executor::execute_tests"


def sequential(R):
    """A process of a sequential run writes to the terminal itself, or what it wrote is printed."""
    from .c27 import flat, piped
    r = ctx.run(R, SINGLE, events=("print",))
    if r is None:
        return
    e, w, n = r.e, ctx.where(SINGLE), 0
    for s, v in r.outcomes():
        evs = [x for x, _ in flat(e, s.ev)]
        for x in evs:
            if x.a[0] != "exec":
                continue
            n += 1
            try:
                p = piped(x.a[2])
            except PUnk as y:
                R.unk("sequential", str(y))
                return
            for k in ("stdout", "stderr"):
                if p[k] == "inherit" and x.a[1] != "output":
                    continue
                if p[k] == "null":
                    R.bad("sequential:" + k, w, "the %s of a process of a sequential run is thrown away" % k)
                    return
                shown = any(y.a[0] == "print" and contains(y.a[2], lambda t: t.t == "op" and t.a[0] == "." + k and contains(t, lambda z: isop(z, "ran"))) for y in evs)
                failed = any(c.t == "discr" and (isop(c.a[0], "ran") or isop(c.a[0], "waited")) and o == "Err" for q in s.paths(64) for c, o in q.items())
                if not shown and not failed:
                    R.unk("sequential", "the %s goes elsewhere" % k) if p[k] == "file" or x.a[1] == "spawn" else R.bad("sequential:" + k, w, "the %s of a process of a sequential run is captured and not printed" % k)
                    return
    if not n:
        R.unk("sequential", "no process is run by " + SINGLE)
    else:
        R.ok("sequential", "%d paths to a process that writes to the terminal" % n)


def rets(e, tid):
    return [(conds, ret) for conds, evs, ret in e.thread_paths(tid) if any(x.a[0] == "exec" for x in evs)]


class JoinReach(Reach):
    """Also what a loop over the handles gathers while it joins them."""

    def go(self, x):
        if super().go(x):
            return True
        if x.t == "o" and x.a[0] == "loop" or x.t in ("fold", "lv"):
            L, pk = (x.a[1], x.a[2]) if x.t == "o" else x.a[:2]
            rec = self.e.loops[L]
            for c in rec.conts:
                u = c.upd.get(pk)
                if u is not None and u is not rec.lv.get(pk) and any(k.t == "discr" and waits(self.e, k.a[0]) and self(k.a[0]) for k in c.conds):
                    return True
        return False


def waits(e, x):
    """x is the outcome of a join, made here or gathered before."""
    if isop(x, "joined"):
        return True
    vs = resolved(e, x)
    return bool(vs) and all(isop(v, "joined") or result(v) for v in vs) and any(isop(v, "joined") or result(v) == "Err" for v in vs)


def result(v):
    """What a followed join gave: the thread's result, or its panic."""
    if v.t != "agg" or not str(v.a[0]).endswith("Result"):
        return None
    if v.a[1] == "Err":
        return "Err" if v.a[2] and isop(v.a[2][0][1], "panic") else None
    return "Ok"


class Kept(Content):
    """Content over a trace, seen as the elements of one vector of handles."""

    def __init__(self, e, V, ghost, field=None):
        self.V, self.field = V, field
        self.reach = JoinReach(e, V)
        self.root = carrier(self.reach)
        super().__init__(e, leaf=lambda x: x is V, ghost=ghost, carrier=self.joined_from)

    def joined_from(self, x):
        """The handle an element was made from: in its terms, or by the join on the current path."""
        r = self.root(x)
        if r is None:
            for k in self.cur:
                if k.t == "discr" and waits(self.e, k.a[0]):
                    h = self.root(k.a[0])
                    if h is not None:
                        return h
        return r

    def empties(self, conds):
        emp = super().empties(conds)
        for k, v in conds.items():
            if k.t == "discr" and v == "Err" and waits(self.e, k.a[0]):
                return All()
            if self.field and v is True and k.t == "op" and k.a[0] in ("is_empty", "eq") and is_field(strip(k.a[1]), self.field):
                x = self.root(strip(k.a[1]))
                if x is not None:
                    emp.add(x)
        return emp


class All:
    def __contains__(self, x):
        return True


def strip(x):
    """Without trimming and conversions."""
    while x.t == "op" and len(x.a) >= 2 and isinstance(x.a[1], N) and x.a[0].split("::")[-1] in TEXT | {"trim", "trim_end", "trim_start", "len", "as_str"}:
        x = x.a[1]
    return x


def is_field(x, f):
    return x.t == "op" and x.a[0] == "." + f and len(x.a) == 2


class Await:
    def __init__(self, R, e, w):
        self.R, self.e, self.w = R, e, w
        self.told = set()
        self.n = Counter()

    def bad(self, key, text):
        if (key, text) not in self.told:
            self.told.add((key, text))
            self.R.bad(key, self.w, text)

    def unk(self, key, text):
        if (key, text) not in self.told:
            self.told.add((key, text))
            self.R.unk(key, text)

    def done(self):
        for k, n in self.n.items():
            if not any(a.startswith(k.split(":")[0]) for a, _ in self.told):
                self.R.ok(k, "shown on %d paths" % n)

    def path(self, s):
        sp = [(ev, loops) for ev, loops in starters(self.e, s.ev) if ev.a[0] == "spawn"]
        if not sp or all(zero_starts(p, Reach(self.e, mk("none"))) for p in s.paths()):
            return
        vs = {}
        for ev, loops in sp:
            V = self.vector(s, ev, loops)
            if V is not None:
                vs.setdefault(V, []).append((ev, loops))
        for V, group in vs.items():
            p = s.paths()[0]
            self.joined(s, p, V)
            self.printed(s, p, V, group)
            self.numbered(s, group)

    def handle_in(self, t, tid):
        return contains(t, lambda x: x.t == "handle" and x.a[0] == tid)

    def vector(self, s, ev, loops):
        """The vector the handles of this start are kept in, as it stands when the start loop is over."""
        tid = ev.a[1]
        if not loops:
            if not any(self.handle_in(x, tid) for x in joins(s.ev)):
                self.bad("awaited:dropped", "a worker is started and its handle is dropped")
            return None
        pks = None
        for L, cont in reversed(loops):
            nxt = []
            for pk, u in cont.upd.items():
                if u is None:
                    continue
                if pks is None:
                    hit = self.handle_in(u, tid)
                else:
                    hit = contains(u, lambda x: (x.t == "o" and x.a[0] == "loop" and (x.a[1], x.a[2]) in pks) or (x.t == "fold" and (x.a[0], x.a[1]) in pks))
                if hit:
                    nxt.append((L, pk))
            if not nxt:
                if any(self.handle_in(x, tid) for x in joins(cont.ev)):
                    self.n["awaited:in-place"] += 1
                    return None
                self.bad("awaited:dropped", "a worker is started and its handle is not kept")
                return None
            pks = nxt
        L0 = loops[0][0]
        # the joined vectors
        found = None
        for x in self.all_joins(s.ev):
            for y in walk(x):
                if y.t == "mut" and y.a[0].t != "lv":
                    for i, o in enumerate(y.a[1:]):
                        if o.a[0] == "loop" and (o.a[1], o.a[2]) in pks:
                            found = mk("mut", y.a[0], *y.a[1:2 + i])
                if y.t == "fold" and (y.a[0], y.a[1]) in pks:
                    found = y
        if found is None:
            reached = False
            for x in self.all_joins(s.ev):
                r = [Reach(self.e, y) for y in ()]
                if self.through(x, pks):
                    reached = True
            if reached:
                self.unk("awaited:vector", "the handles are moved to another container before they are joined")
            else:
                self.bad("awaited:never", "the handles of started workers are kept but never joined")
        return found

    def through(self, x, pks, d=0, seen=None):
        seen = set() if seen is None else seen
        for y in walk(x):
            if y.t == "o" and y.a[0] == "loop" or y.t in ("fold", "lv"):
                L, pk = (y.a[1], y.a[2]) if y.t == "o" else y.a[:2]
                if (L, pk) in pks:
                    return True
                if (L, pk) in seen or d > 8:
                    continue
                seen.add((L, pk))
                rec = self.e.loops[L]
                for c in rec.conts:
                    u = c.upd.get(pk)
                    if u is not None and self.through(u, pks, d + 1, seen):
                        return True
                if rec.init.get(pk) is not None and self.through(rec.init[pk], pks, d + 1, seen):
                    return True
        return False

    def all_joins(self, evs, d=0):
        for x in evs:
            if x.a[0] == "join":
                yield x.a[1]
            elif x.a[0] == "loop" and d < 10:
                for c in self.e.loops[x.a[1]].conts:
                    yield from self.all_joins(c.ev, d + 1)

    def total(self, k, s, p):
        k.cur = dict(p)
        return {a: n for a, n in k.combine(k.events(s.ev), 0).items() if n}

    def verdict(self, key, got, V, what):
        if got == {V: 1}:
            self.n[key] += 1
        elif V in got and got[V] > 1 and len(got) == 1:
            self.n[key] += 1
        elif not got:
            self.bad(key + ":none", what + " for no worker")
        elif any(a.t == "part" for a in got):
            self.bad(key + ":part", what + " only for a part of the workers")
        else:
            self.unk(key, "content " + ", ".join(show(a)[:80] for a in got))

    def joined(self, s, p, V):
        def ghost(ev):
            if ev.a[0] == "join":
                x = k.root(ev.a[1])
                return Counter({x: 1}) if x is not None else None
        k = Kept(self.e, V, ghost)
        try:
            self.verdict("awaited:all", self.total(k, s, p), V, "a worker is awaited")
        except Loss as x:
            self.bad("awaited:all", "not every started worker is awaited: %s" % x)
        except Unknown as x:
            self.unk("awaited:all", str(x)[:200])

    def printed(self, s, p, V, group):
        for stream in ("stdout", "stderr"):
            fields = set()
            for ev, loops in group:
                for conds, ret in rets(self.e, ev.a[1]):
                    if not any(k.t == "discr" and isop(k.a[0], "ran") and v == "Ok" for k, v in conds.items()):
                        continue
                    if any(k.t == "discr" and isop(k.a[0], "waited") and v == "Err" for k, v in conds.items()):
                        continue
                    hold = lambda t: contains(t, lambda x: x.t == "op" and x.a[0] == "." + stream and contains(x, lambda y: isop(y, "ran")))
                    if not hold(ret):
                        self.bad("output:%s-lost" % stream, "the %s of a finished worker is not part of its result" % stream)
                        return
                    if ret.t != "agg":
                        self.unk("output:" + stream, "the worker's result is " + show(ret)[:60])
                        return
                    for f in ret.a[2]:
                        if hold(f[1] if isinstance(f, tuple) else f):
                            t = f[1]
                            fields.add(f[0])
                            cut = [x for x in walk(t) if x.t == "op" and x.a[0].split("::")[-1] in SHORTENS and hold(x)]
                            cut += [x for x in walk(t) if x.t == "mut" and hold(x) and any(o.a[0] in ("truncate", "pop", "drain", "clear", "split_off") for o in x.a[1:])]
                            if cut:
                                self.bad("output:%s-cut" % stream, "the captured %s is shortened: %s" % (stream, show(cut[0])[:80]))
            if len(fields) != 1:
                self.unk("output:" + stream, "the stream is kept in fields %s" % sorted(fields))
                continue
            f = fields.pop()

            def ghost(ev):
                c = Counter()
                if ev.a[0] == "print":
                    for x in parts(ev.a[2]):
                        if is_field(strip0(x), f):
                            y = k.root(x)
                            if y is not None:
                                c[y] += 1
                return c
            k = Kept(self.e, V, ghost, f)
            try:
                self.verdict("output:" + stream, self.total(k, s, p), V, "the %s is printed" % stream)
            except Loss as x:
                self.bad("output:" + stream, "the %s of some workers is not printed: %s" % (stream, x))
            except Unknown as x:
                self.unk("output:" + stream, str(x)[:200])

    def numbered(self, s, group):
        # the printed numbers: fields of the results that are printed and are not the streams
        names = set()
        free = False
        for x in self.prints(s.ev):
            for y in parts(x):
                z = strip0(y)
                if z.t == "op" and z.a[0].startswith(".") and len(z.a) == 2 and contains(z.a[1], lambda t: t.t == "elem" or isop(t, "joined")):
                    names.add(z.a[0][1:])
                if y.t in ("idx",) or (y.t == "op" and y.a[0] == "add" and any(t.t == "idx" for t in y.a[1:] if isinstance(t, N))):
                    free = True
        for ev, loops in group:
            for conds, ret in rets(self.e, ev.a[1]):
                if ret.t != "agg":
                    return
                for f in ret.a[2]:
                    n, t = f
                    if n not in names or n in ("stdout", "stderr", "exit_code") or contains(t, lambda x: isop(x, "ran")):
                        continue
                    r = self.distinct(t, [L for L, c in loops], loops)
                    if r is True:
                        self.n["number:distinct"] += 1
                    elif r is False:
                        if not free:
                            self.bad("number", "two workers can be printed under the same number: %s is %s" % (n, show(t)[:100]))
                    else:
                        self.unk("number", "%s is %s" % (n, show(t)[:100]))

    def distinct(self, t, Ls, loops):
        """Does t take a new value in every start of the loop nest?"""
        if isc(t):
            return False
        if t.t == "op" and t.a[0] in ("add", "sub") and isc(t.a[2]):
            return self.distinct(t.a[1], Ls, loops)
        if t.t == "op" and t.a[0] == "len" and t.a[1].t in ("lv", "mut"):
            return None
        if t.t in ("idx",):
            L = t.a[1]
            if Ls == [L]:
                return True
            if L in Ls:
                return False
            return None
        if t.t == "lv":
            L, pk = t.a[:2]
            if L != Ls[-1]:
                # constant in the innermost loop
                return False if L in Ls else None
            for lv, (Lx, cont) in zip(reversed(Ls), reversed(loops)):
                rec = self.e.loops[lv]
                var = rec.lv.get(pk)
                if var is None:
                    return None
                u = cont.upd.get(pk)
                if lv == Ls[-1] and not (u is not None and u.t == "op" and u.a[0] == "add" and u.a[1] is var and isc(u.a[2]) and cval(u.a[2]) > 0):
                    return False if u is None or u is var else None
                for c in rec.conts:
                    v = c.upd.get(pk)
                    if v is not None and isc(v):
                        return False
                init = rec.init.get(pk)
                outer = Ls[Ls.index(lv) - 1] if Ls.index(lv) else None
                if outer is None:
                    return True
                orec = self.e.loops[outer]
                if init is orec.lv.get(pk):
                    continue
                if init is not None and isc(init):
                    return False
                return None
            return True
        return None

    def prints(self, evs, d=0):
        for x in evs:
            if x.a[0] == "print":
                yield x.a[2]
            elif x.a[0] == "loop" and d < 10:
                for c in self.e.loops[x.a[1]].conts:
                    yield from self.prints(c.ev, d + 1)


def strip0(x):
    while x.t == "op" and len(x.a) >= 2 and isinstance(x.a[1], N) and x.a[0].split("::")[-1] in TEXT | {"as_str"}:
        x = x.a[1]
    return x


def parts(t):
    if t.t == "cat":
        for x in t.a:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, N):
                        yield from parts(y)
            elif isinstance(x, N):
                yield from parts(x)
    else:
        yield t


def isop(x, name):
    return x.t == "op" and x.a[0] == name
