"""Path-sensitive value-flow analysis of MIR.

For an entry function the analysis enumerates the acyclic paths of its flow graph, with every loop summarised as one
generic iteration, local callees and closures inlined, and standard-library calls given by the table in models.py.
States that agree on everything except branch conditions are merged at joins. Nothing is executed and no solver is
used: values are provenance terms (terms.py), and branch conditions are kept as facts about terms."""
from .terms import *
from . import models as M


class TooComplex(Exception):
    pass


class State:
    """env: places to values; conds: facts on every path to here; groups: for each join of paths, the alternative
    facts (a tuple of frozensets of items), so that the paths to here satisfy conds and one alternative per group."""
    __slots__ = ("env", "conds", "ev", "groups")

    def __init__(self, env, conds, ev, groups=()):
        self.env, self.conds, self.ev, self.groups = env, conds, ev, groups

    def copy(self):
        return State(dict(self.env), dict(self.conds), self.ev, self.groups)

    def paths(self, cap=64):
        """The facts of each path merged into this state, as a list of dicts."""
        return dnf(self.conds, self.groups, cap)

    def cond(self, t, v):
        s = self.copy()
        s.conds[t] = v
        if s.groups and not isinstance(v, tuple):
            gs = []
            for g in s.groups:
                h = tuple(a for a in g if not any(k is t and not isinstance(w, tuple) and w != v for k, w in a))
                gs.append(h or g)
            s.groups = tuple(gs)
        return s

    def possible(self, t, v):
        """Some path merged into this state allows t = v."""
        return not any(all(any(k is t and not isinstance(w, tuple) and w != v for k, w in a) for a in g) for g in self.groups)

    def event(self, name, *args):
        self.ev = self.ev + (mk("ev", name, *args),)


def _strip(p):
    """Removes generic arguments: std::vec::Vec::<T, A>::push -> std::vec::Vec::push."""
    out, d, i = [], 0, 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and p[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    if s.startswith("::"):
        s = s[2:]
    return s.rstrip(":")


_short = {}


def short(p):
    r = _short.get(p)
    if r is None:
        q = _strip(p).split("::")
        r = _short[p] = "::".join(q[-2:])
    return r


class Fn:
    """A function body with its flow graph."""

    def __init__(self, name, j):
        self.name, self.j = name, j
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b["cleanup"]:
                continue
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                self.succ[i] = [t["t"]]
            elif k == "call":
                self.succ[i] = [t["t"]] if t["t"] is not None else []
            elif k == "switch":
                self.succ[i] = list(dict.fromkeys([x[1] for x in t["ts"]] + [t["else"]]))
        self._rpo()
        self._loops()
        # blocks from which the function never goes on: they end in a panic
        back = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                back[s].append(b)
        todo = [b for b in self.rpo if self.blocks[b]["t"]["k"] not in ("goto", "drop", "assert", "call", "switch") or b in self.headers]
        live = set(todo)
        while todo:
            for p in back[todo.pop()]:
                if p not in live:
                    live.add(p)
                    todo.append(p)
        self.dead = set(self.rpo) - live
        self._live()

    def _rpo(self):
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.rank = {b: i for i, b in enumerate(self.rpo)}

    def _loops(self):
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        dom = {b: None for b in self.rpo}
        dom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if dom[p] is not None]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while self.rank[x] > self.rank[y]:
                            x = dom[x]
                        while self.rank[y] > self.rank[x]:
                            y = dom[y]
                    d = x
                if dom[b] != d:
                    dom[b] = d
                    ch = True
        self.dom = dom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]

        self.headers = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if dominates(s, b):
                    body = self.headers.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])

    def _live(self):
        n = len(self.blocks)
        use, defs = [set() for _ in range(n)], [set() for _ in range(n)]
        self.mutb = set()

        def uplace(p, b, isdef=False):
            if isinstance(p, int):
                if isdef:
                    defs[b].add(p)
                elif p not in defs[b]:
                    use[b].add(p)
            else:
                if p[0] not in defs[b]:
                    use[b].add(p[0])
                for e in p[1:]:
                    if e[0] == "[]" and e[1] not in defs[b]:
                        use[b].add(e[1])

        def uop(o, b):
            if o["k"] in ("copy", "move"):
                uplace(o["p"], b)

        for b in self.rpo:
            bl = self.blocks[b]
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r["k"]
                    if k in ("use", "repeat", "cast", "un"):
                        uop(r["o"], b)
                    elif k in ("ref", "discr"):
                        uplace(r["p"], b)
                        if k == "ref" and r["mut"]:
                            p = r["p"]
                            self.mutb.add(p if isinstance(p, int) else p[0])
                    elif k == "bin":
                        uop(r["a"], b)
                        uop(r["b"], b)
                    elif k == "agg":
                        for o in r["ops"]:
                            uop(o, b)
                    uplace(s[1], b, True)
                    if not isinstance(s[1], int):
                        uplace(s[1], b)
                elif s[0] == "setdiscr":
                    uplace(s[1], b)
            t = bl["t"]
            k = t["k"]
            if k in ("switch", "assert"):
                uop(t["o"], b)
            elif k == "drop":
                uplace(t["p"], b)
            elif k == "call":
                if t["f"]["k"] in ("copy", "move"):
                    uop(t["f"], b)
                for o in t["args"]:
                    uop(o, b)
                uplace(t["dest"], b, True)
            elif k == "return":
                if 0 not in defs[b]:
                    use[b].add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                i = use[b] | (out - defs[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live


class Cont:
    __slots__ = ("conds", "ev", "upd", "groups")

    def paths(self, cap=64):
        return dnf(self.conds, self.groups, cap)


class Loop:
    pass


def variant_in(t, L):
    """The term changes from one iteration of L to the next."""
    return contains(t, lambda x: x.t in ("lv", "elem", "idx", "idxf") and L in x.a)


class Engine:
    MAXSTATES = 1500
    MAXSTEPS = 400000

    def __init__(self, facts, opaque=(), events=(), config=None):
        self.F = facts
        self._fns = {}
        self.opaque = set(opaque)
        self.counting = set()          # loops seen to count through a sequence
        self.events = set(events)      # names of std effects to record, see models.py
        self.loops = {}
        self._lkeys = {}
        self.lmemo = {}
        self._frames = {}
        self.fdefs = {}
        self.steps = 0
        self.config = config or {}
        self.risk_on, self.rlog = False, []
        self.stack = []
        self.inlined = set()
        self.unmodelled = set()
        self.threads = {}
        self._consts = {}
        self.thread_groups = {}
        self._impls = None

    # ---- functions ----
    def fn(self, name):
        f = self._fns.get(name)
        if f is None:
            j = self.F["fns"].get(name)
            if j is None:
                return None
            f = self._fns[name] = Fn(name, j)
        return f

    def find_impl(self, trait, method, selfty):
        """The local function implementing trait::method for a self type path, or None."""
        for im in self.F["impls"]:
            if im.get("trait") == trait and im["self"].split("<")[0].lstrip("&") == selfty:
                for n, p in im["items"]:
                    if n == method:
                        return p
        return None

    def frame(self, parent, fname, site):
        k = (parent, fname, site)
        if k not in self._frames:
            self._frames[k] = len(self._frames) + 1
        return self._frames[k]

    # ---- values ----
    def field(self, v, name, idx=None):
        t = v.t
        if t == "agg" or t == "clo":
            for k, x in v.a[-1]:
                if k == name:
                    return x
            if idx is not None and idx < len(v.a[-1]):
                return v.a[-1][idx][1]
        if t == "tup":
            try:
                return v.a[int(name)]
            except (ValueError, IndexError):
                return op("." + name, v)
        if t == "as":
            return op("pl:" + v.a[0] + ("" if name == "0" else "." + name), v.a[1])
        if t == "mut":
            ops = v.a[1:]
            keep = []
            for i in range(len(ops) - 1, -1, -1):
                o = ops[i]
                if o.a[0] == "fld":
                    if o.a[1] != name:
                        continue
                    if o.a[2].a[0] == "set":
                        base = o.a[2].a[1]
                        return rebuild("mut", (base,) + tuple(reversed(keep))) if keep else base
                    keep.append(o.a[2])
                else:
                    return op("." + name, v)
            base = self.field(v.a[0], name, idx)
            return rebuild("mut", (base,) + tuple(reversed(keep))) if keep else base
        if t == "c" and isinstance(v.a[1], tuple):
            try:
                return C(v.a[1][int(name)])
            except (ValueError, IndexError):
                pass
        if t == "mref":
            return op("." + name, v)
        return op("." + name, v)

    def downcast(self, v, variant):
        if v.t == "agg":
            return v
        return mk("as", variant, v)

    def index(self, v, i):
        s = M.seq_view(self, v)
        if isc(i) and s is not None and s.t == "arr":
            k = cval(i)
            if isinstance(k, int) and 0 <= k < len(s.a):
                return s.a[k]
        if isc(i) and s is not None and s.t == "coll":
            return mk("nth", s.a[0], cval(i))
        if v.t == "mut":
            last = v.a[-1]
            if last.a[0] == "at" and last.a[1] is i and last.a[2].a[0] == "set":
                return last.a[2].a[1]
        if i.t == "idx" and i.a[1] in self.counting and self.source(None, v) is i.a[0]:
            return mk("elem", i.a[0], i.a[1])
        return op("index", v, i)

    def proj_load(self, v, pr):
        k = pr[0]
        if k == ".":
            return self.field(v, pr[1])
        if k == "as":
            return self.downcast(v, pr[1])
        if k == "idx":
            return self.index(v, pr[1])
        if k == "ent":
            return op("entry", v, pr[1], pr[2])
        if k == "key":
            return op("mapget", v, pr[1])
        if k == "each":
            return mk("elem", mk("seq", v), pr[1])
        if k == "last":
            return op("last", v)
        return op("proj:" + k, v)

    def load(self, st, place):
        """place: N mref(fid, local, proj)"""
        fid, loc, proj = place.a
        v = st.env.get((fid, loc))
        if v is None:
            v = op("uninit", fid, loc)
        for pr in proj:
            if v.t == "mref":
                v = self.load(st, v)
            v = self.proj_load(v, pr)
        return v

    def mutop(self, v, o):
        if o.a[0] == "set":
            return o.a[1]
        if v.t == "mut":
            return mk("mut", v.a[0], *(v.a[1:] + (o,)))
        return mk("mut", v, o)

    def _nest(self, rest, o):
        for pr in reversed(rest):
            k = pr[0]
            if k == ".":
                o = mk("o", "fld", pr[1], o)
            elif k == "as":
                pass
            elif k == "idx":
                o = mk("o", "at", pr[1], o)
            elif k == "ent":
                o = mk("o", "ent", pr[1], pr[2], o)
            elif k == "key":
                o = mk("o", "key", pr[1], o)
            elif k == "each":
                o = mk("o", "each", pr[1], o)
            else:
                o = mk("o", "sub", k, o)
        return o

    def apply(self, v, proj, o):
        if not proj:
            return self.mutop(v, o)
        pr, rest = proj[0], proj[1:]
        if v.t == "ubox":
            return mk("ubox", o.a[1]) if o.a[0] == "set" else v
        if pr[0] == "as":
            return self.apply(v, rest, o)
        if pr[0] == "." and v.t in ("agg", "clo"):
            fs = []
            hit = False
            for k, x in v.a[-1]:
                if k == pr[1]:
                    hit = True
                    x = self.apply(x, rest, o)
                fs.append((k, x))
            if hit:
                return mk(v.t, *(v.a[:-1] + (tuple(fs),)))
        if pr[0] == "." and v.t == "tup":
            try:
                i = int(pr[1])
                return mk("tup", *(v.a[:i] + (self.apply(v.a[i], rest, o),) + v.a[i + 1:]))
            except (ValueError, IndexError):
                pass
        if v.t == "arr" and pr[0] == "idx" and isc(pr[1]):
            i = cval(pr[1])
            if 0 <= i < len(v.a):
                return mk("arr", *(v.a[:i] + (self.apply(v.a[i], rest, o),) + v.a[i + 1:]))
        return self.mutop(v, self._nest(proj, o))

    def mutate(self, st, place, o):
        fid, loc, proj = place.a
        v = st.env.get((fid, loc))
        if v is None:
            v = op("uninit", fid, loc)
        # a mutable reference stored inside the projected value: follow it
        cur = v
        for i, pr in enumerate(proj):
            if cur.t == "mref":
                return self.mutate(st, mk("mref", cur.a[0], cur.a[1], cur.a[2] + proj[i:]), o)
            cur = self.proj_load(cur, pr)
        if cur.t == "mref" and o.a[0] != "set":
            return self.mutate(st, cur, o)
        st.env[(fid, loc)] = self.apply(v, proj, o)

    def store(self, st, place, v):
        self.mutate(st, place, mk("o", "set", v))

    def place(self, st, fid, p):
        """(value, canonical mutable place) of a MIR place."""
        if isinstance(p, int):
            pl = mk("mref", fid, p, ())
            v = st.env.get((fid, p))
            return (v if v is not None else op("uninit", fid, p)), pl
        v, pl = self.place(st, fid, p[0])
        for e in p[1:]:
            k = e[0]
            if k == "*":
                if v.t == "mref":
                    pl = v
                    v = self.load(st, v)
                elif v.t == "ubox":
                    pass
                continue
            if v.t == "mref":
                # field of a place holding a mutable reference only appears through autoderef of closures' captures
                pl = v
                v = self.load(st, v)
            if k == ".":
                v2 = self.field(v, e[2], e[1])
                pr = (".", e[2])
            elif k == "as":
                v2 = self.downcast(v, e[1])
                pr = ("as", e[1])
            elif k == "[]":
                i = st.env.get((fid, e[1]), op("uninit", fid, e[1]))
                v2 = self.index(v, i)
                pr = ("idx", i)
            elif k == "[c]":
                if e[2]:
                    v2 = op("index_end", v, e[1])
                    pr = ("idxe", C(e[1], "usize"))
                else:
                    i = C(e[1], "usize")
                    v2 = self.index(v, i)
                    pr = ("idx", i)
            elif k == "[..]":
                v2 = op("subslice", v, e[1], e[2], e[3])
                pr = ("sub", C(e[1], "usize"))
            else:
                v2 = op("proj?", v)
                pr = ("?",)
            pl = mk("mref", pl.a[0], pl.a[1], pl.a[2] + (pr,))
            v = v2
        return v, pl

    def const_named(self, name):
        """Value of a constant the compiler did not reduce to a scalar: its body is analysed."""
        r = self._consts.get(name)
        if r is None:
            r = self._consts[name] = op("const:" + name)
            if "::promoted[" in name and self.fn(name) is not None:
                save = self._div
                self._div = []
                try:
                    res = self.inline(State({}, {}, ()), name, [], (name, -1, 0))
                    if len(res) == 1 and not contains(res[0][1], lambda x: x.t == "mref"):
                        r = self._consts[name] = res[0][1]
                except (KeyError, IndexError, TooComplex):
                    pass
                self._div = save
                self.inlined.discard(name)
        return r

    def operand(self, st, fid, o):
        k = o["k"]
        if k in ("copy", "move"):
            v, _ = self.place(st, fid, o["p"])
            if k == "move" and isinstance(o["p"], int):
                st.env.pop((fid, o["p"]), None)
            return v
        if k == "const":
            if o.get("v") == "<zst>" and o.get("cl"):
                return mk("clo", o["cl"][0], ())
            v = o.get("v")
            if v is None and o.get("name"):
                return self.const_named(o["name"])
            if v == "<zst>" and o["ty"] == "()":
                return UNIT
            return C(v, o["ty"])
        if k == "fn":
            self.fdefs[(o["path"], tuple(o["targs"]))] = o
            return mk("fn", o["path"], tuple(o["targs"]))
        return op("rtcheck")

    # ---- conditions ----
    def decide(self, st, t):
        """True, False or None."""
        if t.t == "c":
            return bool(t.a[1])
        if t in st.conds:
            return st.conds[t]
        if t.t == "op":
            n = t.a[0]
            if n == "not":
                r = self.decide(st, t.a[1])
                return None if r is None else (not r)
            if n == "eq":
                a, b = t.a[1], t.a[2]
                if a is b:
                    return True
                if isc(a) and isc(b):
                    return cval(a) == cval(b)
                if isc(b):
                    for c, v in st.conds.items():
                        if v is True and c.t == "op" and c.a[0] == "eq" and c.a[1] is a and isc(c.a[2]) and c.a[2] is not b:
                            return False
            if n == "is_empty":
                return M.known_empty(self, st, t.a[1])
            if n == "lt" and isc(t.a[1]) and isc(t.a[2]):
                return cval(t.a[1]) < cval(t.a[2])
            if n == "lt" and not self.risk_on and t.a[2].t == "agg" and t.a[2].a[0].endswith("Level"):
                return True  # logging is off: log lines have no effect on results
            if n == "eq" and isc(t.a[2]) and isinstance(cval(t.a[2]), int) and t.a[1].t == "op" and t.a[1].a[0] == "max":
                if any(isc(x) and cval(x) > cval(t.a[2]) for x in t.a[1].a[1:]):
                    return False
        return None

    def at_end(self, st, t):
        """A test of a counter against the length of the sequence it counts through, as the test for a next element."""
        if t.t != "op" or t.a[0] not in ("lt", "eq") or not self.counting:
            return None
        a, b = t.a[1], t.a[2]
        if t.a[0] == "eq" and b.t == "idx":
            a, b = b, a
        if a.t != "idx" or a.a[1] not in self.counting or b.t != "op" or b.a[0] != "len" or self.source(st, b.a[1]) is not a.a[0]:
            return None
        return mk("next", a.a[0], (), a.a[1]), t.a[0] == "eq"

    def source(self, st, x):
        """What an iteration over x goes through, when that is x itself."""
        if x.t in ("mref", "iter"):
            return None
        it = M.it_of(self, st, x)
        return it.a[0] if it.t == "iter" and not it.a[1] and it.a[0].t not in ("map_items",) else None

    def branch(self, st, t):
        """[(state, bool)] for a boolean term."""
        neg = False
        while t.t == "op" and t.a[0] == "not" and self.counting:
            t = t.a[1]
            neg = not neg
        nx = self.at_end(st, t)
        if nx is not None:
            return [(s, b != (nx[1] != neg)) for s, b in self.branch(st, nx[0])]
        if neg:
            return [(s, not b) for s, b in self.branch(st, t)]
        r = self.decide(st, t)
        if r is not None:
            return [(st, r)]
        neg = False
        while t.t == "op" and t.a[0] == "not":
            t = t.a[1]
            neg = not neg
        return [(st.cond(t, b), b != neg) for b in (True, False) if st.possible(t, b)] or [(st.cond(t, True), not neg), (st.cond(t, False), neg)]

    def variant(self, st, v, variants):
        """[(state, variant name)] for an enum value."""
        if v.t == "agg":
            return [(st, v.a[1])]
        d = mk("discr", v)
        known = st.conds.get(d)
        if isinstance(known, str):
            return [(st, known)]
        ex = known[1] if isinstance(known, tuple) else ()
        xs = [x for x in variants if x not in ex]
        return [(st.cond(d, x), x) for x in [x for x in xs if st.possible(d, x)] or xs]

    def payload(self, v, variant, i="0"):
        return self.field(self.downcast(v, variant), i)

    # ---- evaluation ----
    def rvalue(self, st, fid, r):
        k = r["k"]
        if k == "use":
            return self.operand(st, fid, r["o"])
        if k == "ref":
            v, pl = self.place(st, fid, r["p"])
            if r["mut"]:
                if v.t == "mref" and isinstance(r["p"], int):
                    return pl
                return pl
            if v.t == "mref":
                return self.load(st, v)
            return v
        if k == "cast":
            ck = r.get("ck", "")
            o = r["o"]
            if "BoxDerefTransmute" in ck:
                p = o["p"]
                return mk("mref", fid, p if isinstance(p, int) else p[0], ())
            v = self.operand(st, fid, o)
            if "IntToInt" in ck or "FloatToInt" in ck or "IntToFloat" in ck:
                if isc(v) and isinstance(cval(v), (int, bool)):
                    return C(int(cval(v)), r["ty"])
                if r["from"] == "bool":
                    return op("b2i", v)
                return op("cast", v, r["ty"])
            return v
        if k == "bin":
            a = self.operand(st, fid, r["a"])
            b = self.operand(st, fid, r["b"])
            if a.t == "mref":
                a = self.load(st, a)
            if b.t == "mref":
                b = self.load(st, b)
            return M.binop(r["op"], a, b)
        if k == "un":
            v = self.operand(st, fid, r["o"])
            if v.t == "mref":
                v = self.load(st, v)
            if r["op"] == "Not":
                return M.neg(v)
            if r["op"] == "PtrMetadata":
                return M.length(self, v)
            if r["op"] == "Neg" and isc(v) and isinstance(cval(v), int):
                return C(-cval(v), v.a[2])
            return op(r["op"].lower(), v)
        if k == "discr":
            v, _ = self.place(st, fid, r["p"])
            if v.t == "mref":
                v = self.load(st, v)
            return mk("dv", v, tuple((x[0], x[1]) for x in r["variants"]))
        if k == "agg":
            ops = [self.operand(st, fid, o) for o in r["ops"]]
            a = r["a"]
            if a == "tuple":
                return mk("tup", *ops)
            if a == "array":
                return mk("arr", *ops)
            if a == "adt":
                return mk("agg", r["adt"], r["variant"], tuple(zip(r["fields"], ops)))
            if a == "closure":
                fs = r["fields"] if len(r["fields"]) == len(ops) else [str(i) for i in range(len(ops))]
                return mk("clo", r["def"], tuple(zip(fs, ops)))
            return op("agg?", *ops)
        if k == "repeat":
            return op("repeat", self.operand(st, fid, r["o"]), r["n"])
        return op("rv?", k)

    # ---- calls ----
    def call_value(self, st, f, args, site):
        """Calls a closure or function item; [(state, value)]."""
        if f.t == "mref":
            f = self.load(st, f)
        if f.t == "clo":
            body = self.fn(f.a[0])
            if body is None:
                ctor = f.a[0]
                return [(st, op("callclo", f, *args))]
            return self.inline(st, f.a[0], [f] + list(args), site)
        if f.t == "fn":
            o = self.fdefs.get((f.a[0], f.a[1]))
            if o is not None:
                return self.call(st, o, list(args), [""] * len(args), "", site)
            return [(st, op(f.a[0], *args))]
        return [(st, op("callval", f, *args))]

    def risk(self, st, site, kind, *ops):
        """Notes that a construct that can panic is reached in this state."""
        if self.risk_on:
            self.rlog.append((site[:2], kind, ops, dict(st.conds), st.groups))

    def call(self, st, f, args, argtys, dty, site):
        path = f["path"]
        sh = short(path)
        if self.risk_on and (sh in M.RISKY or "panicking::" in path):
            self.risk(st, site, sh if sh in M.RISKY else "panic", [M.val(self, st, a) for a in args], f, argtys)
        res = f.get("res") or path
        # user-selected opaque local functions
        if res in self.opaque or path in self.opaque:
            self.risk(st, site, "enter", [M.val(self, st, a) for a in args], res if res in self.opaque else path)
            return M.opaque_call(self, st, res if res in self.opaque else path, args, argtys, dty, site, True)
        m = M.TABLE.get(sh) if not path.startswith("clap") else None
        if m is not None:
            r = m(self, st, M.Call(f, args, argtys, dty, site, sh))
            if r is not None:
                return r
        if sh in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            tup = args[1]
            a = list(tup.a) if tup.t == "tup" else [tup]
            return self.call_value(st, args[0], a, site)
        if f.get("local") and f.get("rk") != "virtual" and res in self.F["fns"]:
            if res in self.stack:
                return M.opaque_call(self, st, res, args, argtys, dty, site, False)
            return self.inline(st, res, args, site)
        if f.get("local") and f.get("rk") == "virtual" and args:
            recv = args[0]
            if recv.t == "mref":
                recv = self.load(st, recv)
            if recv.t == "agg":
                p = self.find_impl(f.get("trait"), f.get("assoc"), recv.a[0])
                if p and p in self.F["fns"] and p not in self.stack:
                    return self.inline(st, p, args, site)
        if f.get("local"):
            pass
        else:
            self.unmodelled.add(sh)
        return M.opaque_call(self, st, path, args, argtys, dty, site, False)

    def inline(self, st, fname, args, site):
        if len(self.stack) > 40 or fname in self.stack:
            return M.opaque_call(self, st, fname, args, [""] * len(args), "", site, False)
        body = self.fn(fname)
        parent = site[2] if len(site) > 2 else 0
        fid = self.frame(parent, fname, site[:2])
        self.inlined.add(fname)
        st = st.copy()
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        self.stack.append(fname)
        try:
            res = self.region(body, fid, 0, [st], None, None)
        finally:
            self.stack.pop()
        out = []
        for s in res.get("return", []):
            rv = s.env.get((fid, 0), UNIT)
            s = s.copy()
            for k in [k for k in s.env if k[0] == fid]:
                del s.env[k]
            out.append((s, rv))
        for s in res.get("diverge", []):
            self._div.append(s)
        return self.merge_rets(out)

    def merge_rets(self, out):
        d = {}
        for s, rv in out:
            k = (rv, s.ev, frozenset(s.env.items()))
            if k in d:
                d[k].conds, d[k].groups = join(d[k], s)
            else:
                d[k] = s
        return [(s, k[0]) for k, s in d.items()]

    # ---- regions ----
    def region(self, fn, fid, start, states, blocks, header):
        """Runs states from `start` inside `blocks` (None: all). Results by target: 'cont', 'return', 'diverge', ('exit', b)."""
        pend = {start: list(states)}
        out = {}
        first = header is not None
        while pend:
            b = min(pend, key=lambda x: fn.rank[x])
            sts = self._merge(fn, fid, b, pend.pop(b))
            if len(sts) > self.MAXSTATES:
                raise TooComplex("%s bb%d: %d states" % (fn.name, b, len(sts)))
            if b in fn.headers and not (first and b == header):
                for s in sts:
                    for tgt, ss in self.loop_block(fn, fid, b, s).items():
                        self._route(fn, pend, out, tgt, ss, blocks, header)
                continue
            first = False
            for s in sts:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise TooComplex("step limit in " + fn.name)
                for tgt, s2 in self.block(fn, fid, b, s):
                    self._route(fn, pend, out, tgt, [s2], blocks, header)
        return out

    def _route(self, fn, pend, out, tgt, ss, blocks, header):
        if isinstance(tgt, tuple):
            tgt = tgt[1]
        if isinstance(tgt, int):
            if header is not None and tgt == header:
                out.setdefault("cont", []).extend(ss)
            elif blocks is not None and tgt not in blocks and tgt not in fn.dead:
                out.setdefault(("exit", tgt), []).extend(ss)
            else:
                pend.setdefault(tgt, []).extend(ss)
        else:
            out.setdefault(tgt, []).extend(ss)

    def _merge(self, fn, fid, b, sts):
        live = fn.live[b]
        keep = fn.mutb
        d = {}
        for s in sts:
            dead = [k for k in s.env if k[0] == fid and k[1] not in live and k[1] not in keep]
            if dead:
                s = s.copy()
                for k in dead:
                    del s.env[k]
            key = (s.ev, frozenset(s.env.items()))
            o = d.get(key)
            if o is None:
                d[key] = s
            else:
                n = o.copy()
                n.conds, n.groups = join(o, s)
                d[key] = n
        return list(d.values())

    def block(self, fn, fid, b, st):
        st = st.copy()
        bl = fn.blocks[b]
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fid, s[2])
                self.assign(st, fid, s[1], v)
            elif k == "dead":
                st.env.pop((fid, s[1]), None)
            elif k == "setdiscr":
                pass
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            return [("return", st)]
        if k == "unreachable":
            return []
        if k == "drop":
            if "process::Child" in t["ty"] or any(x in t["ty"] for x in M.DROPS):
                v, _ = self.place(st, fid, t["p"])
                if v.t == "op" and v.a[0] == "uninit":
                    return [(t["t"], st)]
                if "drop" in self.events:
                    st.event("drop", v, t["ty"])
            return [(t["t"], st)]
        if k == "assert":
            v = self.operand(st, fid, t["o"])
            exp = t["exp"]
            self.risk(st, (fn.name, b), t["msg"], v, exp)
            r = self.decide(st, v)
            if r is not None and r != exp:
                return []
            if r is None and not t["msg"].startswith("overflow") and t["msg"] != "other":
                base, val = v, exp
                while base.t == "op" and base.a[0] == "not":
                    base, val = base.a[1], not val
                st.conds[base] = val
            return [(t["t"], st)]
        if k == "switch":
            v = self.operand(st, fid, t["o"])
            if v.t == "mref":
                v = self.load(st, v)
            out = []
            if v.t == "dv":
                val, variants = v.a
                names = dict(variants)
                tmap = {names.get(x, str(x)): bb for x, bb in t["ts"]}
                for s, var in self.variant(st, val, [n for _, n in variants]):
                    out.append((tmap.get(var, t["else"]), s))
                return out
            if t["ty"] == "bool":
                for s, bv in self.branch(st, v):
                    tgt = t["else"]
                    for x, bb in t["ts"]:
                        if bool(x) == bv:
                            tgt = bb
                    out.append((tgt, s))
                return out
            if isc(v):
                cv = cval(v)
                if isinstance(cv, str) and len(cv) == 1 and t["ty"] == "char":
                    cv = ord(cv)
                for x, bb in t["ts"]:
                    if x == cv:
                        return [(bb, st)]
                return [(t["else"], st)]
            s = st
            for x, bb in t["ts"]:
                e = M.binop("Eq", v, C(x, t["ty"]))
                r = None
                for s2, bv in self.branch(s, e):
                    if bv:
                        out.append((bb, s2))
                    else:
                        r = s2
                if r is None:
                    return out
                s = r
            out.append((t["else"], s))
            return out
        if k == "call":
            args = []
            for o in t["args"]:
                args.append(self.operand(st, fid, o))
            f = t["f"]
            site = (fn.name, b, fid)
            if f["k"] == "fn":
                res = self.call(st, f, args, t["argtys"], t["dty"], site)
            else:
                fv = self.operand(st, fid, f)
                res = self.call_value(st, fv, args, site)
            out = []
            for s, v in res:
                if isinstance(v, str) and v == "!skip":
                    out.append(("skip", s))
                    continue
                if t["t"] is None:
                    self._div.append(s)
                    continue
                s = s.copy()
                self.assign(s, fid, t["dest"], v)
                out.append((t["t"], s))
            return out
        return []

    def assign(self, st, fid, p, v):
        if isinstance(p, int):
            st.env[(fid, p)] = v
            return
        _, pl = self.place(st, fid, p)
        self.store(st, pl, v)

    # ---- loops ----
    def loop_block(self, fn, fid, h, st):
        body = fn.headers[h]

        def run(s):
            r = self.region(fn, fid, h, [s], body, h)
            outs = []
            for tgt, ss in r.items():
                for x in ss:
                    outs.append((x, "cont" if tgt in ("cont", "skip") else tgt, None))
            return outs

        n = self.literal(st, fn, fid, h)
        if n is not None:
            out, cur = {}, [st]
            for _ in range(n + 2):
                nxt = []
                for s in cur:
                    for s2, tgt, _x in run(s):
                        (nxt if tgt == "cont" else out.setdefault(tgt, [])).append(s2)
                cur = nxt
                if not cur:
                    return out
                if len(cur) > 64:
                    break
        res = self.run_loop(st, (fn.name, h, fid), run, lambda env: {k: v for k, v in env.items() if k[0] != fid or k[1] in fn.live[h] or k[1] in fn.mutb})
        out = {}
        for s, tgt, _ in res:
            out.setdefault(tgt, []).append(s)
        return out

    def literal(self, st, fn, fid, h):
        """Length of the short literal list that is iterated in order at this loop head: such a loop is unrolled."""
        from . import models as M
        found = None
        for (f, l), v in st.env.items():
            if f != fid or not isinstance(v, N) or v.t != "iter" or not isinstance(v.a[2], int) or v.a[0].t != "seq":
                continue
            if l not in fn.live[h] and l not in fn.mutb:
                continue
            sv = M.seq_view(self, v.a[0].a[0])
            if sv is None or sv.t != "arr" or len(sv.a) > 6 or v.a[2] != 0 or any(s.t != "enumerate" for s in v.a[1]):
                continue
            if found is not None:
                return None
            found = len(sv.a)
        return found

    def run_loop(self, S0, key, body, envf=None):
        """body(state) -> [(state, kind, payload)], kind 'cont' or anything else for an exit. Returns the exits."""
        sig = (key, frozenset(S0.env.items()), frozenset(S0.conds.items()))
        memo = self.lmemo.get(sig)
        if memo is None:
            L = self._lkeys.setdefault(sig, len(self._lkeys) + 1)
            havoc, closed, n0, mark = {}, None, set(self.loops), len(self.rlog)
            for _ in range(14):
                del self.rlog[mark:]
                S = State(dict(S0.env), dict(S0.conds), (), S0.groups)
                for pk in havoc:
                    cur = self.load(S0, pk)
                    S_set(self, S, pk, (closed or {}).get(pk) or self.havoc_value(cur, L, pk, havoc[pk]))
                ndiv = len(self._div)
                outs = body(S)
                divs = self._div[ndiv:]
                del self._div[ndiv:]
                conts = [s for s, k, _ in outs if k == "cont"]
                env0 = envf(S.env) if envf else S.env
                new = {}
                for c in conts:
                    for k, v in env0.items():
                        if k not in S0.env:
                            continue
                        cv = c.env.get(k)
                        if cv is None or cv is v:
                            continue
                        self.diff(v, cv, mk("mref", k[0], k[1], ()), new)
                grow = {p: m for p, m in new.items() if p not in havoc}
                # drop finer entries subsumed by a coarser one
                if not grow:
                    if closed is None:
                        closed = self.counters(S0, S, conts, havoc, L, n0)
                        if closed:
                            continue
                    elif closed and not self.counted(conts, closed):
                        closed = {}
                        continue
                    break
                closed = None
                havoc.update(grow)
                havoc = {p: m for p, m in havoc.items() if not any(q is not p and q.a[:2] == p.a[:2] and p.a[2][:len(q.a[2])] == q.a[2] for q in havoc)}
            else:
                raise TooComplex("loop does not stabilise at %s bb%s" % (key[0], key[1]))
            rec = Loop()
            rec.key, rec.L = key, L
            rec.init = {p: self.load(S0, p) for p in havoc}
            rec.lv = {p: self.load(S, p) for p in havoc}
            rec.conts = []
            for s in conts:
                c = Cont()
                c.conds = {k: v for k, v in s.conds.items() if S.conds.get(k) != v}
                c.ev = s.ev
                c.groups = tuple(g for g in s.groups if g not in S0.groups)
                c.upd = {p: self.load(s, p) for p in havoc}
                rec.conts.append(c)
            rec.conts = _dedup(rec.conts)
            rec.entry_conds, rec.entry_groups = dict(S0.conds), S0.groups
            rec.exits = []
            rec.divs = [(s, {k: v for k, v in s.conds.items() if S.conds.get(k) != v}) for s in divs]
            rec.ops = {}
            sub = {}
            for p in havoc:
                lv = rec.lv[p]
                if p in (closed or ()) and lv.t != "iter":
                    rec.ops[p] = None
                    continue
                if lv.t == "iter":
                    sub[lv] = mk("iter", lv.a[0], lv.a[1], "after", L)
                    for c in rec.conts:
                        u = c.upd[p]
                        if u.t == "iter":
                            sub[u] = mk("iter", lv.a[0], lv.a[1], "after", L)
                    continue
                ops = []
                for c in rec.conts:
                    u = c.upd[p]
                    if u is lv:
                        ops.append(())
                    elif u.t == "mut" and u.a[0] is lv:
                        ops.append(u.a[1:])
                    else:
                        ops = None
                        break
                rec.ops[p] = ops
                if ops is not None:
                    if any(ops):
                        sub[lv] = rebuild("mut", _flat(rec.init[p]) + (mk("o", "loop", L, p),))
                    else:
                        sub[lv] = rec.init[p]
                else:
                    sub[lv] = mk("fold", L, p)
            self.loops[L] = rec
            exits = []
            memo_ = {}
            has_ev = any(c.ev for c in rec.conts) or "recv" in self.events and any(
                contains(k, lambda y: y.t == "op" and "mpsc" in str(y.a[0])) for c in rec.conts for k in c.conds)
            for i, (s, k, pay) in enumerate(x for x in outs if x[1] != "cont"):
                ns = State({}, {}, ())
                for kk, v in s.env.items():
                    ns.env[kk] = subst(v, sub, memo_) if sub else v
                for p in closed or ():
                    if closed[p].t != "iter":
                        S_set(self, ns, p, mk("fold", L, p))
                for kk, v in s.conds.items():
                    ns.conds[subst(kk, sub, memo_) if sub else kk] = v
                ns.groups = tuple(tuple(frozenset((subst(kk, sub, memo_), v) for kk, v in alt) for alt in g)
                                  for g in s.groups if g not in S0.groups)
                ex = {kk: v for kk, v in s.conds.items() if S.conds.get(kk) != v}
                evs = tuple(subst(e, sub, memo_) for e in s.ev)
                rec.exits.append((k, ex, s.ev, tuple(g for g in s.groups if g not in S0.groups)))
                ns.conds[mk("exit", L)] = i
                ev2 = ((mk("ev", "loop", L),) if has_ev else ()) + evs
                exits.append((ns, k, subst(pay, sub, memo_) if isinstance(pay, N) else pay, ev2))
            dv = []
            for s in divs:
                evs = tuple(subst(e, sub, memo_) for e in s.ev)
                dv.append((s, ((mk("ev", "loop", L),) if has_ev else ()) + evs))
            memo = self.lmemo[sig] = (exits, dv, self.rlog[mark:])
        else:
            self.rlog += memo[2]
        res = []
        for ns, k, pay, ev2 in memo[0]:
            s = ns.copy()
            s.ev = S0.ev + ev2
            s.groups = S0.groups + tuple(g for g in s.groups if g not in S0.groups)
            res.append((s, k, pay))
        for s, ev2 in memo[1]:
            s = s.copy()
            s.ev = S0.ev + ev2
            self._div.append(s)
        return res

    def ranged(self, S0, src, L, conts, n0):
        """The sequence a loop over 0..its length indexes by its element."""
        if src.t != "range" or not isc(src.a[0]) or cval(src.a[0]) != 0 or src.a[1].t != "op" or src.a[1].a[0] != "len":
            return None
        x = src.a[1].a[1]
        s = self.source(S0, x)
        if s is None or s.t in ("rest", "resume") or variant_in(x, L):
            return None
        el = mk("elem", src, L)

        def hit(y):
            return y.t == "op" and y.a[0] == "index" and y.a[2] is el and y.a[1] is x
        cs = list(conts)
        for l2, rec in self.loops.items():
            if l2 not in n0:
                cs += rec.conts
        for c in cs:
            vals = list(c.ev) + list(c.conds) + (list(c.upd.values()) if hasattr(c, "upd") else list(c.env.values()))
            if any(contains(v, hit) for v in vals if isinstance(v, N)):
                return s
        return None

    def counters(self, S0, S, conts, havoc, L, n0=()):
        """{place: its value as a function of the iteration} of counters of the elements of the one sequence the loop goes through:
        start 0 and plus one in every iteration, alone or modulo a bound that does not change."""
        its = [p for p in havoc if self.load(S, p).t == "iter"]
        if len(its) > 1 or not conts:
            return {}
        out = {}
        if its:
            it = self.load(S, its[0])
            if it.a[0].t in ("rest", "resume") or any(x.t != "map" and x.t != "enumerate" for x in it.a[1]):
                return {}
            for c in conts:
                v = self.load(c, its[0])
                if v.t != "iter" or v.a[0] is not it.a[0] or v.a[2:] != ("L", L, 1):
                    return {}
            src = it.a[0]
            x = self.ranged(S0, src, L, conts, n0)
            if x is not None:
                out[its[0]] = mk("iter", x, (mk("enumerate", "ix"),) + it.a[1], "L", L, 0)
                src = x
                self.counting.add(L)
        else:
            src = None
            for p in havoc:
                lv, i = self.load(S, p), self.load(S0, p)
                if src is not None or lv.t != "lv" or not isc(i) or cval(i) != 0 or isinstance(cval(i), bool) or {self.load(c, p) for c in conts} != {op("add", lv, C(1, "usize"))}:
                    continue
                xs = None
                for c in conts:
                    ys = set()
                    for k, b in c.conds.items():
                        if k.t == "op" and k.a[0] in ("lt", "eq") and b is (k.a[0] == "lt") and lv in k.a[1:] and (k.a[0] == "eq" or k.a[1] is lv):
                            y = k.a[2] if k.a[1] is lv else k.a[1]
                            if y.t == "op" and y.a[0] == "len" and not variant_in(y, L):
                                ys.add(y.a[1])
                    xs = ys if xs is None else xs & ys
                for x in sorted(xs or (), key=show):
                    s = self.source(S0, x)
                    if s is not None and s.t not in ("rest", "resume"):
                        src = s
                        out[p] = mk("idx", s, L)
                        self.counting.add(L)
                        break
            if src is None:
                return {}
        for p in havoc:
            if p in out:
                continue
            lv, i = self.load(S, p), self.load(S0, p)
            if lv.t != "lv" or not isc(i) or cval(i) != 0 or isinstance(cval(i), bool):
                continue
            us = {self.load(c, p) for c in conts}
            step = op("add", lv, C(1, "usize"))
            idx = mk("idx", src, L)
            ns = {u.a[2] for u in us if u.t == "op" and u.a[0] == "rem" and u.a[1] is step}
            wrap = len(us) == 2 and step in us and any(isc(u) and cval(u) == 0 for u in us)
            val = None
            if us == {step}:
                val = idx
            elif len(us) == 1 and len(ns) == 1:
                n = next(iter(ns))
                if not variant_in(n, L):
                    val = op("rem", idx, n)
            elif wrap:
                # if it reaches n it starts again at 0
                for k in {k for c in conts for k in c.conds}:
                    if k.t == "op" and k.a[0] == "eq" and step in k.a[1:]:
                        n = k.a[2] if k.a[1] is step else k.a[1]
                        if variant_in(n, L):
                            continue
                        if all(c.conds.get(k) is (isc(self.load(c, p)) and cval(self.load(c, p)) == 0) for c in conts):
                            val = op("rem", idx, n)
            if val is None:
                continue
            # only where something else depends on it
            used = any(contains(x, lambda y: y is lv) for c in conts for x in list(c.ev) + [self.load(c, q) for q in havoc if q is not p])
            if used:
                out[p] = val
        return out

    def counted(self, conts, closed):
        """The step of every counter leads from its value in one iteration to that in the next."""
        for p, v in closed.items():
            for c in conts:
                u = self.load(c, p)
                if v.t == "iter":
                    if u.t == "iter" and u.a[0] is v.a[0] and u.a[1] == v.a[1] and u.a[2:] == v.a[2:4] + (1,):
                        continue
                    return False
                s1 = op("add", v, C(1, "usize"))
                if u is s1 and v.t == "idx":
                    continue
                if v.t == "op" and v.a[0] == "rem":
                    if u.t == "op" and u.a[0] == "rem" and u.a[1] is s1 and u.a[2] is v.a[2]:
                        continue
                    k = op("eq", s1, v.a[2])
                    w = [x for y, x in c.conds.items() if y is k or y.t == "op" and y.a[0] == "eq" and set(y.a[1:]) == {s1, v.a[2]}]
                    if u is s1 and w == [False] or isc(u) and cval(u) == 0 and w == [True]:
                        continue
                return False
        return True

    def havoc_value(self, cur, L, pk, mode):
        if cur.t == "iter":
            src = cur.a[0]
            st = cur.a[2]
            if isinstance(st, int) and st > 0:
                src = mk("rest", src, st)
            elif st in ("L", "after"):
                src = mk("resume", src, cur.a[3])
            return mk("iter", src, cur.a[1], "L", L, 0)
        return mk("lv", L, pk)

    def diff(self, a, b, pk, out):
        if a is b:
            return
        if a.t == "iter" and b.t == "iter" and a.a[0] is b.a[0] and a.a[1] == b.a[1] and a.a[2] == "L" and b.a[2] == "L" and a.a[3] == b.a[3]:
            return
        if a.t == b.t and a.t in ("agg", "clo") and a.a[:-1] == b.a[:-1] and len(a.a[-1]) == len(b.a[-1]):
            for (k, x), (_, y) in zip(a.a[-1], b.a[-1]):
                self.diff(x, y, mk("mref", pk.a[0], pk.a[1], pk.a[2] + ((".", k),)), out)
            return
        if a.t == b.t == "tup" and len(a.a) == len(b.a):
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                self.diff(x, y, mk("mref", pk.a[0], pk.a[1], pk.a[2] + ((".", str(i)),)), out)
            return
        out[pk] = True

    # ---- entry ----
    def thread_paths(self, tid):
        """[(conds, events, result)] of a thread, one per path."""
        return [(c, ev, r) for i, (conds, ev, r) in enumerate(self.threads.get(tid, [])) for c in dnf(conds, self.thread_groups.get((tid, i), ()))]

    def all_events(self):
        """Every event of the analysed function, its loops and its threads."""
        out = []
        for s, _ in self.returned:
            out += s.ev
        for s in self.diverged:
            out += s.ev
        for rec in self.loops.values():
            for c in rec.conts:
                out += c.ev
            for ex in rec.exits:
                out += ex[2]
        for alts in self.threads.values():
            for _, ev, _ in alts:
                out += ev
        return out

    def run(self, fname, args=None):
        """Analyses an entry function. Returns [(state, return value)]; diverging states are in self.diverged."""
        self._div = []
        body = self.fn(fname)
        if body is None:
            raise KeyError(fname)
        env = {}
        vals = []
        names = {}
        for n, p in body.j["names"]:
            if isinstance(p, int):
                names.setdefault(p, n)
        for i in range(body.argc):
            v = mk("param", "arg%d" % i if i + 1 not in names else "arg%d" % i)
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            elif body.locals[i + 1].startswith("&mut"):
                env[(0, i + 1)] = v
                v = mk("mref", 0, i + 1, ())
            vals.append(v)
        st = State(env, {}, ())
        res = self.inline(st, fname, vals, (fname, -1, 0))
        self.diverged = self._div
        self.returned = res
        return res

    def root(self, st, i):
        """Final value of a &mut parameter."""
        return st.env.get((0, i + 1))


def S_set(eng, S, pk, v):
    eng.store(S, pk, v)


def _flat(v):
    return (v.a[0],) + v.a[1:] if v.t == "mut" else (v,)


def _dedup(conts):
    d = {}
    for c in conts:
        k = (c.ev, tuple(sorted(((p.id, v) for p, v in c.upd.items()), key=lambda x: x[0])))
        if k in d:
            d[k].conds, d[k].groups = join(d[k], c)
        else:
            d[k] = c
    return list(d.values())


def dnf(conds, groups, cap=64):
    out = [dict(conds)]
    for g in groups:
        if len(out) * len(g) > cap:
            continue
        nxt = []
        for d in out:
            for alt in g:
                e = dict(d)
                ok = True
                for k, v in alt:
                    if k in e and not isinstance(v, tuple) and not isinstance(e[k], tuple) and e[k] != v:
                        ok = False
                        break
                    e[k] = v
                if ok:
                    nxt.append(e)
        out = nxt or out
    return out


# how many alternatives of a merged state are kept apart while merging, and after
CAPS = [32, 24]


def join(o, n):
    """Merges the path facts of two states that agree on everything else; returns (conds, groups)."""
    m = _meet(o.conds, n.conds)
    common = tuple(g for g in o.groups if g in n.groups)
    alts = []
    for s in (o, n):
        res = {k: v for k, v in s.conds.items() if k not in m}
        for d in dnf(res, tuple(g for g in s.groups if g not in common), CAPS[0]):
            alts.append(frozenset(d.items()))
    alts = list(dict.fromkeys(alts))
    # absorb: an alternative implied by a weaker one is redundant
    keep = [a for a in alts if not any(b < a for b in alts)]
    if any(not a for a in keep) or len(keep) > CAPS[1]:
        return m, common
    return m, common + (tuple(keep),)


def _meet(a, b):
    out = {}
    for k, v in a.items():
        w = b.get(k, _MISSING)
        if w is _MISSING:
            continue
        if w == v and type(w) == type(v):
            out[k] = v
    return out


_MISSING = object()
