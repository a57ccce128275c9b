"""Linear content of collections.

content(v) is the multiset of leaf elements a collection term holds, as a Counter over atoms: an atom is an opaque
collection (all of its elements) or a single element. Loops are closed by the linear rule: when one generic iteration
adds `c` times the iteration's element to the accumulators (and moves everything else between them), the whole loop
adds `c` times the content of the iterated collection. A step that loses or repeats elements is recorded as a loss, a
step whose effect is not known as an unknown."""
from collections import Counter
from .terms import *
from . import models as M


class Loss(Exception):
    """Elements are lost or repeated here; args: reason."""


class Unknown(Exception):
    pass


NEUTRAL_STAGES = {"enumerate", "inspect", "rev", "back", "cloned"}
LOSSY_STAGES = {"take", "skip", "step_by", "take_while", "skip_while", "map_while", "scan"}


MOVERS = {"pop", "split_off", "remove", "swap_remove", "drain"}
NEUTRAL_CMD = {"env", "current_dir", "stdout", "stderr", "stdin", "env_clear", "env_remove", "arg0", "process_group"}


def cut_of(t):
    """(whole, low, high) of a slice term; None for the start or the end of the whole."""
    if t.t == "op" and t.a[0] == "slice" and len(t.a) == 3 and t.a[2].t == "agg":
        v, r = t.a[1], t.a[2]
        n = r.a[0].split("::")[-1].split("<")[0]
        fs = r.a[2:] if len(r.a) > 2 else ()
        f = [x[1] if isinstance(x, tuple) else x for x in (fs[0] if len(fs) == 1 and isinstance(fs[0], tuple) else fs)]
        lo = hi = None
        if n == "RangeTo" and len(f) == 1:
            hi = f[0]
        elif n == "RangeFrom" and len(f) == 1:
            lo = f[0]
        elif n == "Range" and len(f) == 2:
            lo, hi = f
        else:
            return None
    elif t.t == "op" and t.a[0] in (".0", ".1") and t.a[1].t == "op" and t.a[1].a[0].split("::")[-1] == "split_at" and len(t.a[1].a) == 3:
        v, k = t.a[1].a[1:]
        lo, hi = (None, k) if t.a[0] == ".0" else (k, None)
    else:
        return None
    if lo is not None and isc(lo) and cval(lo) == 0:
        lo = None
    if hi is not None and hi.t == "op" and hi.a[0] == "len" and hi.a[1] is v:
        hi = None
    return v, lo, hi


class Content:
    """ghost: optional function from an event term to the Counter of what the event consumes; with it, `events` sums
    over an event trace, including events inside loops."""
    def __init__(self, eng, leaf=None, ghost=None, carrier=None, alias=None):
        """carrier: maps an element to the element it was made from, or to None when it is of no interest.
        alias: maps a value to one with the same content."""
        self.e = eng
        self.carrier, self.alias = carrier, alias
        self.ghost = ghost
        self.memo = {}
        self.cur = {}
        self.leaf = leaf or (lambda v: False)
        self.loops = set()

    def of(self, v, depth=0):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self._of(v, depth)
        return r

    def _of(self, v, depth):
        if depth > 60:
            raise Unknown("too deep")
        if self.leaf(v):
            return Counter({v: 1})
        if self.alias is not None:
            w = self.alias(v)
            if w is not None and w is not v:
                return self.of(w, depth + 1)
        if v is M.VECNEW:
            return Counter()
        t = v.t
        if t == "arr" or t == "tup":
            c = Counter()
            for x in v.a:
                c.update(self.of(x, depth + 1))
            return c
        if t == "c":
            if isinstance(v.a[1], tuple) and not v.a[1]:
                return Counter()
            return Counter({v: 1})
        if t == "op":
            n = v.a[0]
            if n in ("map_new", "seq_new", "default", "cmd"):
                return Counter()
            if n == "repeat":
                c = self.of(v.a[1], depth + 1)
                if +c:
                    raise Loss("elements repeated by a repeated initial value")
                return Counter()
            cut = cut_of(v)
            if cut is not None and cut[1] is None and cut[2] is None:
                return self.of(cut[0], depth + 1)
            if n == "index":
                # element i of v for i over 0..len(v)
                i = v.a[2]
                if i.t == "elem" and i.a[0].t == "range" and isc(i.a[0].a[0]) and cval(i.a[0].a[0]) == 0:
                    hi = i.a[0].a[1]
                    if hi.t == "op" and hi.a[0] == "len" and hi.a[1] is v.a[1]:
                        return Counter({mk("elem", mk("seq", v.a[1]), i.a[1]): 1})
            return Counter({v: 1})
        if t == "coll":
            return self.src(v.a[0], depth + 1)
        if t == "mut":
            c = Counter(self.of(v.a[0], depth + 1))
            return self.ops(c, v, depth)
        if t == "fold":
            L, pk = v.a
            c = Counter(self.of(self.e.loops[L].init[pk], depth + 1))
            c[mk("delta", L, pk)] += 1
            return self.close(c, depth + 1)
        if t == "iter":
            if v.a[2] == 0 and not v.a[1]:
                return self.src(v.a[0], depth + 1)
            raise Unknown("iterator " + show(v)[:80])
        return Counter({v: 1})

    def elt(self, x, depth):
        """Content of one pushed element."""
        if self.carrier is not None and x.t not in ("mut", "coll", "arr", "lv", "fold") and x is not M.VECNEW:
            x = self.carrier(x)
            if x is None:
                return Counter()
        return self.of(x, depth)

    def ops(self, c, v, depth):
        """Content after the operations of a mut term, given the content of its base."""
        base = v.a[0]
        for i, o in enumerate(v.a[1:]):
            if o.a[0] in MOVERS and +c:
                pre = base if i == 0 else mk("mut", base, *v.a[1:1 + i])
                c = Counter({mk("left", pre, o): 1})
            else:
                self.opc(c, o, v, depth + 1)
            if i + 2 < len(v.a):
                pre = mk("mut", base, *v.a[1:2 + i])
                if self.leaf(pre):
                    c = Counter({pre: 1})
        return c

    def combine(self, c, depth):
        """What was moved out of a container together with what stayed is the whole container."""
        for a in [a for a in c if a.t == "left"]:
            n = c[a]
            if n <= 0:
                continue
            pre, o = a.a
            name = "popped" if o.a[0] == "pop" else o.a[0]
            args = tuple(o.a[1:])
            t = op(name, pre, *args)
            if c.get(t, 0) >= n:
                del c[a]
                c[t] -= n
                for b, m in self.of(pre, depth + 1).items():
                    c[b] += m * n
            else:
                raise Loss("%s drops elements" % o.a[0])
        by = {}
        for a in [a for a in c if c[a] > 0]:
            cut = cut_of(a)
            if cut is not None:
                by.setdefault(cut[0], []).append((cut[1], cut[2], a))
        for v, ps in by.items():
            for lo, hi, a in [x for x in ps if x[0] is None]:
                chain, cur = [a], hi
                while cur is not None:
                    nxt = [x for x in ps if x[0] is cur and x[2] not in chain]
                    if not nxt:
                        break
                    chain.append(nxt[0][2])
                    cur = nxt[0][1]
                n = min(c[x] for x in chain)
                if cur is None and n > 0:
                    for x in chain:
                        c[x] -= n
                    for b, m in self.of(v, depth + 1).items():
                        c[b] += m * n
        return c

    def total(self, v):
        return self.combine(Counter(self.of(v)), 0)

    def opc(self, c, o, whole, depth):
        k = o.a[0]
        if k in ("push", "push_front", "arg"):
            c.update(self.elt(o.a[1], depth))
        elif k in NEUTRAL_CMD:
            pass
        elif k == "vinsert":
            c.update(self.of(o.a[2], depth))
        elif k == "extend":
            c.update(self.of(o.a[1], depth))
        elif k in ("sort", "touch", "reverse", "rotate_left", "rotate_right", "swap"):
            pass
        elif k in ("at", "key"):
            self.opc(c, o.a[2], whole, depth)
        elif k == "each":
            self.opc(c, o.a[2], whole, depth)
        elif k == "fld":
            self.opc(c, o.a[2], whole, depth)
        elif k == "ent":
            d = self.of(o.a[2], depth)
            if +d and o.a[3].a[0] == "touch":
                raise Unknown("map entry default with content")
            self.opc(c, o.a[3], whole, depth)
        elif k == "insert":
            if any(v is False and q.t == "op" and q.a[0] == "contains" and q.a[2] is o.a[1] for q, v in self.cur.items()):
                c.update(self.of(o.a[-1], depth))
                return
            if len(o.a) == 3 and whole.t == "mut" and whole.a[0].t == "lv" and len(whole.a) == 2 and own_key(o.a[1], whole.a[0].a[0]):
                # the keys of one map are put into another, which was empty before
                i = self.e.loops[whole.a[0].a[0]].init.get(whole.a[0].a[1])
                if i is not None and i.t == "op" and i.a[0] == "map_new":
                    c.update(self.of(o.a[-1], depth))
                    return
            if len(o.a) == 3:
                raise Loss("insert under a key replaces what was stored under it")
            raise Loss("a set keeps one of several equal elements")
        elif k == "loop":
            c[mk("delta", o.a[1], o.a[2])] += 1
            self.close(c, depth)
        elif k == "retain":
            for b, conds in self.e.retains.get(o.a[1], ()):
                if +c and not b and not any(kk.t == "op" and kk.a[0] == "is_empty" and vv is True for kk, vv in conds):
                    raise Loss("retain drops elements")
        elif k == "set":
            raise Loss("a stored value is overwritten")
        elif k in ("pop", "truncate", "dedup", "remove", "swap_remove", "drain", "split_off", "dedup_by_key", "dedup_by", "retain_mut", "clear"):
            if +c:
                raise Loss("%s drops elements" % k)
        elif k == "call":
            raise Unknown("passed to %s" % o.a[1])
        else:
            raise Unknown("operation " + k)

    def src(self, s, depth):
        t = s.t
        if t == "seq":
            return self.of(s.a[0], depth)
        if t in ("map_values", "setitems"):
            return self.of(s.a[0], depth)
        if t in ("chunks",):
            return self.of(s.a[0], depth)
        if t == "map_items":
            return self.of(s.a[0], depth)
        if t in ("chunks_exact", "windows"):
            raise Loss("%s does not give every element once" % t)
        if t == "rest":
            raise Loss("the first elements are not visited")
        return Counter({mk("coll", s): 1})

    # ---- events ----
    def events(self, evs, depth=0):
        c = Counter()
        for ev in evs:
            if ev.a[0] == "loop":
                c.update(self.loop(ev.a[1], {}, depth + 1, True))
            else:
                r = self.ghost(ev)
                if r:
                    c.update(r)
        return c

    # ---- closing loops ----
    def close(self, c, depth):
        """Eliminates delta atoms whose loop variables all appear."""
        for _ in range(30):
            ds = [a for a in c if a.t == "delta" and c[a]]
            if not ds:
                return c
            # innermost last: take the loop with the largest number, so inner results mention outer variables only
            L = max(a.a[0] for a in ds)
            w = {a.a[1]: c[a] for a in ds if a.a[0] == L}
            for p in w:
                del c[mk("delta", L, p)]
            c.update(self.loop(L, w, depth))
        raise Unknown("loops do not close")

    def loop(self, L, w, depth, ghost=False):
        """Content that loop L adds to its accumulators, weighted by w."""
        rec = self.e.loops[L]
        self.loops.add(L)
        if not rec.conts:
            return Counter()
        src, stages = self.loop_src(rec)
        total = None
        per = []
        for ci, cont in enumerate(rec.conts):
            for conds in cont.paths():
                if self.infeasible(conds, rec):
                    continue
                acc = Counter()
                old, self.cur = self.cur, {**self.cur, **conds}
                om, self.memo = self.memo, {}
                for p, k in w.items():
                    u = cont.upd.get(p)
                    lv = rec.lv[p]
                    d = Counter(self.of_upd(u, lv, L, p, depth + 1))
                    for a, n in d.items():
                        acc[a] += n * k
                    acc[lv] -= k
                if ghost:
                    acc.update(self.events(cont.ev, depth + 1))
                self.combine(acc, depth)
                self.cur, self.memo = old, om
                emp = self.empties(conds)
                per.append((acc, conds, emp))
        for acc, conds, _ in per:
            bad = [a for a, n in acc.items() if n and a.t == "lv" and a.a[0] == L]
            if bad:
                raise Loss("an iteration %s what was gathered before" % ("drops" if acc[bad[0]] < 0 else "repeats"))
        atoms = set()
        for acc, conds, emp in per:
            if any(k.t == "chained" for k in conds):
                raise Unknown("chained iteration")
            atoms |= {a for a, n in acc.items() if n}
        out = Counter()
        for a in atoms:
            ns = {}
            for acc, conds, emp in per:
                if a not in emp:
                    ns.setdefault(acc[a], conds)
            if len(ns) > 1:
                r = self.partition(rec, per, L)
                if r is not None:
                    return r
                cs = ns[min(ns, key=lambda n: abs(n))]
                raise Loss("an iteration treats its element differently when " + showconds(cs, rec.L))
            for n in ns:
                out[a] = n
        # the element of the iteration
        res = Counter()
        for a, n in out.items():
            if not n:
                continue
            if n < 0:
                raise Unknown("negative content")
            r = self.per_loop(a, L, src, depth)
            for b, m in r.items():
                res[b] += n * m
        if not +res:
            return res
        if not self.exhausts(rec):
            raise Loss("the loop can end before every element was visited")
        bad = [s for s in stages if s.t in LOSSY_STAGES]
        if bad:
            # part of each element source: complete only together with the other parts
            res = Counter({mk("part", tuple(bad), a): n for a, n in res.items() if n})
        for s in stages:
            if s.t == "zip":
                z = s.a[0]
                if not any(x.t == "cycle" for x in z.a[1]) and z.a[0].t not in ("gen", "rangefrom"):
                    from .ctx import src_length
                    a, b = src_length(self.e, src, ()), src_length(self.e, z.a[0], z.a[1])
                    if a is not None and a is b:
                        continue
                    raise Loss("zip stops at the shorter sequence")
        return res

    def partition(self, rec, per, L):
        """An iteration that takes its element only when idx % n == w: the same part as skip(w).step_by(n)."""
        takes = [(acc, conds) for acc, conds, _ in per if +acc]
        skips = [(acc, conds) for acc, conds, _ in per if not +acc]
        if len(takes) != 1 or not skips:
            return None
        acc, conds = takes[0]
        for k, v in conds.items():
            if k.t == "op" and k.a[0] == "eq" and v is True and all(c.get(k) is False for _, c in skips):
                for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if x.t == "op" and x.a[0] == "rem" and x.a[1].t == "idx" and x.a[1].a[1] == L:
                        res = Counter()
                        src, _ = self.loop_src(rec)
                        for a, n in acc.items():
                            for b, m in self.per_loop(a, L, src, 0).items():
                                res[mk("part", (mk("skip", y), mk("step_by", x.a[2])), b)] += n * m
                        return res
        return None

    def infeasible(self, conds, rec):
        """An out-of-bounds branch that cannot be taken: i % n < n."""
        for k, v in conds.items():
            # 0, 1, ... n - 1 over and over
            if v is False and k.t == "next" and any(s.t == "cycle" for s in k.a[1]) and k.a[0].t == "range" and counted(k.a[0].a[1]) and isc(k.a[0].a[0]) and cval(k.a[0].a[0]) == 0:
                return True
            # every key of a map, each once: it is there
            if v == "None" and k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "remove" and k.a[0].a[1].t == "lv" and k.a[0].a[1].a[0] == rec.L and own_key(k.a[0].a[2], rec.L) \
                    and k.a[0].a[2].t == "elem" and rec.init.get(k.a[0].a[1].a[1]) is keys_of(k.a[0].a[2].a[0]):
                return True
            if v is False and k.t == "op" and k.a[0] == "lt" and k.a[1].t == "op" and k.a[1].a[0] == "rem" and k.a[2].t == "op" and k.a[2].a[0] == "len":
                x = k.a[2].a[1]
                from .ctx import length
                if x.t == "lv" and x.a[0] == rec.L:
                    us = rec.ops.get(x.a[1])
                    if us is not None and all(o.a[0] == "at" for u in us for o in u):
                        x = rec.init[x.a[1]]
                if length(self.e, x) is k.a[1].a[2]:
                    return True
        return False

    def of_upd(self, u, lv, L, p, depth):
        if u is None or u is lv:
            return Counter({lv: 1})
        if u.t == "mut" and u.a[0] is lv:
            return self.ops(Counter({lv: 1}), u, depth)
        return self.of(u, depth)

    def empties(self, conds):
        emp = set()
        for k, v in conds.items():
            if v is True and k.t == "op" and k.a[0] == "is_empty":
                emp.add(k.a[1])
            if v is True and k.t == "op" and k.a[0] == "eq" and isc(k.a[2]) and cval(k.a[2]) == 0 and k.a[1].t == "op" and k.a[1].a[0] == "len":
                emp.add(k.a[1].a[1])
        for x in list(emp):
            if x.t == "mut":
                try:
                    emp |= {a for a, n in self.of(x).items() if n}
                except (Loss, Unknown):
                    pass
        return emp

    def per_loop(self, a, L, src, depth):
        """Sum of atom a over the iterations of loop L."""
        if a.t == "elem" and a.a[1] == L:
            if len(a.a) == 3 and a.a[2] == "f":
                inner = self.src(a.a[0], depth)
                out = Counter()
                for b, n in inner.items():
                    for x, m in self.per_loop(b, L, src, depth + 1).items():
                        out[x] += n * m
                return out
            return self.src(a.a[0], depth)
        if a.t == "op" and a.a[0] in (".1", ".0") and a.a[1].t == "elem" and a.a[1].a[1] == L:
            m = items_of(a.a[1].a[0])
            if m is not None and a.a[0] == ".1":
                return self.src(m, depth)
            return Counter({mk("proj", a.a[0], mk("coll", a.a[1].a[0])): 1})
        if a.t == "op" and a.a[0] == "pl:Some" and a.a[1].t == "op" and a.a[1].a[0] == "remove" and a.a[1].a[1].t == "lv" and a.a[1].a[1].a[0] == L and a.a[1].a[2].t == "elem":
            # what a map has under each of its keys, taken out one after the other
            m, k = a.a[1].a[1], a.a[1].a[2]
            i = self.e.loops[L].init.get(m.a[1])
            if i is not None and k.a[1] == L and keys_of(k.a[0]) is i:
                return self.src(mk("map_items", *keys_src(k.a[0]).a), depth)
        if a.t == "part":
            sk = [x for x in a.a[0] if x.t == "skip"]
            sb = [x for x in a.a[0] if x.t == "step_by"]
            if len(a.a[0]) == 2 and sk and sb:
                w, n = sk[0].a[0], sb[0].a[0]
                if w.t == "elem" and w.a[1] == L and w.a[0].t == "range" and isc(w.a[0].a[0]) and cval(w.a[0].a[0]) == 0 and w.a[0].a[1] is n:
                    return Counter({a.a[1]: 1})
        if not contains(a, lambda x: self.dep(x, L)):
            raise Loss("the same elements are added in every iteration")
        if a.t == "coll":
            return self.src_over(a, L, depth)
        # an element derived from the iteration's element
        return Counter({mk("sum", L, a): 1})

    def src_over(self, a, L, depth):
        return Counter({mk("sum", L, a): 1})

    def dep(self, x, L):
        if x.t in ("elem", "idx", "idxf") and x.a[1] == L:
            return True
        if x.t in ("lv",) and x.a[0] == L:
            return True
        return False

    def loop_src(self, rec):
        for c in rec.conts:
            for k in c.conds:
                if k.t == "next" and k.a[2] == rec.L:
                    return k.a[0], k.a[1]
        return None, ()

    def exhausts(self, rec):
        """Every exit that goes on leaves the loop with its iterator exhausted."""
        for ex in rec.exits:
            kind, conds = ex[0], ex[1]
            if not any(k.t == "next" and k.a[2] == rec.L and v is False for k, v in conds.items()):
                return False
        return True


def counted(h):
    """A number of workers or elements, not computed from one in a way that can make it zero."""
    if h.t == "op" and h.a[0] in ("min", "max"):
        return all(counted(x) or isc(x) and cval(x) for x in h.a[1:])
    return h.t == "param" or h.t == "op" and (h.a[0] == "len" or h.a[0].startswith("."))


def own_key(k, L):
    """The key of the iteration's item of a map."""
    if k.t == "op" and k.a[0] == ".0" and k.a[1].t == "elem" and k.a[1].a[1] == L:
        return items_of(k.a[1].a[0]) is not None
    return k.t == "elem" and k.a[1] == L and keys_of(k.a[0]) is not None


def keys_of(src):
    """The map whose keys a source iterates, in whatever order."""
    k = keys_src(src)
    return k.a[0] if k is not None else None


def keys_src(src):
    while src.t == "seq":
        v = src.a[0]
        if v.t == "mut" and all(o.a[0] in ("sort", "reverse") for o in v.a[1:]):
            v = v.a[0]
        if v.t != "coll":
            return None
        src = v.a[0]
    return src if src.t == "map_keys" else None


def items_of(src):
    """The items of a map a source iterates, in whatever order."""
    while src.t == "seq":
        v = src.a[0]
        if v.t == "mut" and all(o.a[0] in ("sort", "reverse") for o in v.a[1:]):
            v = v.a[0]
        if v.t != "coll":
            return None
        src = v.a[0]
    return src if src.t == "map_items" else None


def showconds(conds, L=None):
    return ", ".join("%s is %s" % (show(k)[:90], v) for k, v in list(conds.items())[:6] if k.t not in ("next", "exit", "flat", "chained"))


def loop_of(e, v):
    return None
