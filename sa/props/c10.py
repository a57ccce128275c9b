"""C10: the native summary accounts for every record: right counter, listed if it failed, and an honest status."""
from collections import Counter
from .. import ctx
from ..content import Loss, Unknown
from ..flow import int_bounds
from ..procs import *
from ..terms import *
from .c03 import Kept, is_field, strip0, parts
from . import c09

FN = "native_runner::execute_native"
OUT = ("passed", "failed", "error", "skipped", "\0other")
LABEL = {"passed": {"passed"}, "failed": {"failed"}, "error": {"error", "\0other"}, "errors": {"error", "\0other"}, "skipped": {"skipped"}}
NAME = {"\0other": "of unknown outcome"}
CUTS = ("retain", "truncate", "pop", "drain", "clear", "dedup", "split_off", "remove", "swap_remove")


def check(R):
    R.rule("In every loop over result records, each iteration that is compatible with an outcome (passed, failed, error, skipped, anything else) adds one to the "
           "counter printed under that outcome and to no other printed counter; failed and errored records are pushed to a list whose node ids are all printed; "
           "a counter is left out of the summary only when it is zero; PASSED is printed only when both failure counters are known to be zero.")
    R.assume("std and serde_json behave as documented")
    r = ctx.run(R, FN, events=("print",))
    if r is None:
        return
    w = ctx.where(FN)
    Summary(R, r, w).run()


def agrees(c, o):
    return any(all((c09.outcome(k) == o) == v for k, v in p.items() if c09.outcome(k) is not None) for p in c.paths())


def keys(c):
    """All branch conditions of an iteration."""
    seen = set(c.conds)
    for p in c.paths():
        seen |= set(p)
    return seen


def narrow(t):
    """A number cut to so few bits that a count does not fit."""
    return t.t == "op" and t.a[0] == "cast" and str(t.a[-1]) in ("u8", "i8", "u16", "i16")


class Summary:
    def __init__(self, R, r, w):
        self.R, self.r, self.e, self.w = R, r, r.e, w
        self.told = set()

    def bad(self, key, text):
        if (key, text) not in self.told:
            self.told.add((key, text))
            self.R.bad(key, self.w, text)

    def unk(self, key, text):
        if (key, text) not in self.told:
            self.told.add((key, text))
            self.R.unk(key, text)

    def run(self):
        e = self.e
        recs = [(L, rec) for L, rec in e.loops.items() if any(c09.outcome(k) is not None for c in rec.conts for k in keys(c))]
        if not recs:
            self.unk("records", "no loop tells result records apart by their outcome")
            return
        self.R.count("record loops", len(recs))
        self.delta = {}     # counter -> outcome -> set of increments
        self.lists = {}     # list -> outcome -> set of numbers of pushes of the record
        for L, rec in recs:
            self.loop(L, rec)
        self.tagged = self.labels()
        self.counters()
        self.listed()
        self.status()
        self.parse()
        for k in ("counters", "listed", "shown", "status", "kept"):
            if not any(a.startswith(k) for a, _ in self.told):
                self.R.ok(k, "holds on every record path and return path (%d record loops, %d returns)" % (len(recs), len(self.r.rets)))

    def loop(self, L, rec):
        pks = set()
        for c in rec.conts:
            pks |= {pk for pk, u in c.upd.items() if u is not rec.lv.get(pk)}
        record = None
        for c in rec.conts:
            for k in keys(c):
                if c09.outcome(k) is not None:
                    record = k.a[1].a[1]
        for o in OUT:
            cs = [c for c in rec.conts if agrees(c, o)]
            for pk in pks:
                for c in cs:
                    u, lv = c.upd.get(pk), rec.lv.get(pk)
                    if u is None or u is lv:
                        n = 0
                    elif u.t == "op" and u.a[0] == "add" and u.a[1] is lv and isc(u.a[2]):
                        n = cval(u.a[2])
                    elif u.t == "mut" and u.a[0] is lv:
                        n = sum(1 for x in u.a[1:] if x.a[0] in ("push", "push_front") and contains(x.a[1], lambda y: y is record))
                        self.lists.setdefault(pk, {}).setdefault(o, set()).add(n)
                        continue
                    else:
                        n = None
                    if n == 0:
                        self.lists.setdefault(pk, {}).setdefault(o, set()).add(0)
                    self.delta.setdefault(pk, {}).setdefault(o, set()).add(n)
        for kind, conds, ev, groups in rec.exits:
            if any(c09.outcome(k) is not None for k in conds) and kind[0] == "exit":
                self.bad("counters:stop", "the count stops at a record that is " + ", ".join(show(k)[-60:] for k in conds if c09.outcome(k)))

    # ---- counted values ----
    def vec(self, t):
        """What one record of each outcome adds to a counted value: {outcome: increment}; None when it is not such a value.
        An increment that is not the same for all records of an outcome is None."""
        if t.t == "op" and t.a[0] in ("display", "fa") and len(t.a) > 1:
            t = t.a[-1]
        m = None
        if t.t == "fold":
            m = self.delta.get(t.a[1]) if t.a[1] in self.delta and not self.pushed(t.a[1]) else None
        elif t.t == "op" and t.a[0] == "len":
            k = self.listof(t.a[1])
            m = self.lists.get(k)
        elif t.t == "op" and t.a[0] == "add" and len(t.a) == 3:
            x, y = self.vec(t.a[1]), self.vec(t.a[2])
            if x is None or y is None:
                return None
            return {o: None if x[o] is None or y[o] is None else x[o] + y[o] for o in OUT}
        elif t.t == "op" and t.a[0] == "cast" and not narrow(t):
            return self.vec(t.a[1])
        elif isc(t) and cval(t) == 0 and not isinstance(cval(t), bool):
            return {o: 0 for o in OUT}
        if m is None:
            return None
        return {o: next(iter(m[o])) if o in m and len(m[o]) == 1 else None if o in m else 0 for o in OUT}

    def pushed(self, pk):
        return any(x != {0} for x in self.lists.get(pk, {}).values())

    def listof(self, t):
        if t.t == "mut" and t.a[0].t != "lv":
            ops = [o for o in t.a[1:] if o.a[0] not in ("sort", "reverse")]
            if len(ops) == 1 and ops[0].a[0] == "loop" and ops[0].a[2] in self.lists:
                return ops[0].a[2]
        return t.a[1] if t.t == "fold" and t.a[1] in self.lists else None

    def prints(self, evs, d=0):
        for x in evs:
            if x.a[0] == "print":
                yield x.a[2]
            elif x.a[0] == "loop" and d < 8:
                for c in self.e.loops[x.a[1]].conts:
                    yield from self.prints(c.ev, d + 1)

    def labelled(self, t):
        """[(counted value, label)] of a printed text."""
        ps = list(parts(t))
        for i, x in enumerate(ps):
            k = self.vec(x) if not isc(x) else None
            if k is None:
                continue
            after = cval(ps[i + 1]) if i + 1 < len(ps) and isc(ps[i + 1]) else None
            lab = after.split()[0].strip(",;.:").lower() if isinstance(after, str) and after[:1] in " \t" and after.split() else None
            if lab not in LABEL:
                before = cval(ps[i - 1]) if i and isc(ps[i - 1]) else None
                b = before.split()[-1].strip(",;.:=").lower() if isinstance(before, str) and before.split() else None
                lab = b if b in LABEL else None
            if lab in LABEL:
                yield k, "error" if lab == "errors" else lab

    def labels(self):
        out = {}
        for s, v in self.r.outcomes():
            for t in self.prints(s.ev):
                for k, lab in self.labelled(t):
                    if k not in out.setdefault(lab, []):
                        out[lab].append(k)
        return out

    def counters(self):
        for lab in ("passed", "failed", "error", "skipped"):
            ks = self.tagged.get(lab)
            if not ks:
                self.unk("counters:" + lab, "no printed text shows a counter under '%s'" % lab)
                continue
            for k in ks:
                for o in OUT:
                    want = 1 if o in LABEL[lab] else 0
                    if k[o] is None:
                        self.vague(lab, o)
                    elif k[o] != want:
                        self.bad("counters:%s:%s" % (lab, o.strip("\0")), "a record %s adds %s to the count printed as '%s'" % (NAME.get(o, "that " + o), k[o], lab))
        for s, v in self.r.outcomes():
            for t in self.prints(s.ev):
                if any(narrow(y) and self.vec(y.a[1]) is not None for y in walk(t)):
                    self.bad("counters:narrow", "a count is cut to a few bits before it is printed")
        for pk in self.delta:
            for L, rec in self.e.loops.items():
                i = rec.init.get(pk)
                if i is not None and isc(i) and type(cval(i)) is int and cval(i) != 0:
                    self.bad("counters:start", "a count starts at %s" % show(i))

    def vague(self, lab, o):
        """Some records of the outcome are counted and some are not."""
        for m in list(self.delta.values()) + list(self.lists.values()):
            got = m.get(o, {0})
            if len(got) > 1 and None not in got:
                self.bad("counters:%s:%s" % (lab, o.strip("\0")), "a record %s adds %s to a counter, depending on something else" % (NAME.get(o, "that " + o), "/".join(map(str, sorted(got)))))
                return
        self.unk("counters:" + lab, "the counter is not a plain sum")

    # ---- the summary under every combination of outcomes ----
    def holds(self, k, world):
        """The truth of a condition when exactly the outcomes in `world` occur: True, False or None; the second value tells
        whether it is about counted values."""
        if k.t == "op" and k.a[0] == "is_empty":
            x = self.listof(k.a[1])
            if x is None:
                return None, False
            z = self.zero(self.vec(op("len", k.a[1])), world)
            return z, True
        if k.t == "op" and k.a[0] in ("eq", "lt") and len(k.a) == 3:
            n, x, y = k.a
            for t, c, left in ((x, y, True), (y, x, False)):
                cut = [y for y in walk(t) if narrow(y) and self.vec(y.a[1]) is not None]
                v = self.vec(t) if not cut else self.vec(cut[0].a[1])
                if v is None or isc(t):
                    continue
                if cut:         # what is left of a count can be anything unless the count is zero
                    z = isc(c) and type(cval(c)) is int and t is cut[0] and self.zero(v, world)
                    return ((cval(c) == 0 if n == "eq" else (0 < cval(c)) if left else cval(c) < 0) if z else None), True
                if not (isc(c) and type(cval(c)) is int):
                    return None, True
                z, c = self.zero(v, world), cval(c)
                if z is None:
                    return None, True
                if n == "eq":
                    return (c == 0 if z else False if c == 0 else None), True
                if left:        # t < c
                    return (0 < c if z else False if c <= 1 else None), True
                return (c < 0 if z else True if c < 1 else None), True
        return None, contains(k, lambda x: x.t in ("fold", "mut") and (self.listof(x) is not None or (x.t == "fold" and x.a[1] in self.delta)) and self.isint(x))

    def isint(self, x):
        m = self.delta.get(x.a[1]) if x.t == "fold" else True
        return m is True or any(v - {0, None} for v in m.values())

    def zero(self, v, world):
        if any(v[o] is None for o in OUT):
            return None
        return not any(v[o] for o in world)

    def status(self):
        n = 0
        worlds = [[o for i, o in enumerate(OUT) if m >> i & 1] for m in range(32)]
        for s, v in self.r.outcomes():
            texts = list(self.prints(s.ev))
            flat = [(t, "".join(cval(x) if isc(x) and isinstance(cval(x), str) else "\1" for x in parts(t))) for t in texts]
            fin = [(t, x) for t, x in flat if ("PASSED" in x or "FAILED" in x)]
            if not fin:
                continue
            n += 1
            passed = any("PASSED" in x for t, x in fin)
            shown = {lab for t, x in flat for k, lab in self.labelled(t)}
            loose = any(self.opaque(t) for t, x in fin)
            for p in s.paths():
                hs = [(k, v) for k, v in p.items() if k.t == "op"]
                if any(self.holds(k, ())[1] and self.holds(k, ())[0] is None and self.holds(k, OUT)[0] is None for k, v in hs):
                    self.unk("status", "a condition on counted values that the rule cannot read")
                    continue
                for wd in worlds:
                    if any(h is not None and h != want for k, want in hs for h in [self.holds(k, wd)[0]]):
                        continue
                    failed = bool(set(wd) & {"failed", "error", "\0other"})
                    if failed and passed:
                        self.bad("status:passed", "PASSED is printed although there are failed or errored records")
                    if not failed and not passed and isc(v) and cval(v) == 0:
                        self.bad("status:failed", "FAILED is printed although nothing failed")
                    for lab in self.tagged:
                        if lab not in shown and set(wd) & LABEL[lab]:
                            if loose:
                                self.unk("shown:" + lab, "the summary line holds a text the rule cannot read")
                            else:
                                self.bad("shown:" + lab, "the summary leaves out the '%s' count although it can be above zero" % lab)
        if not n:
            self.unk("status", "no PASSED/FAILED line on any path")

    def opaque(self, t):
        """The text has a part that is put together in a loop."""
        return any(x.t in ("mut", "fold", "lv") or (x.t == "op" and x.a[0] in ("join", "concat")) for x in parts(t) if self.vec(x) is None)

    # ---- lists ----
    def listed(self):
        full = {}
        for o in ("failed", "error", "\0other"):
            ls = [pk for pk, m in self.lists.items() if 1 in m.get(o, ())]
            # printed while counted
            direct = any(c09.outcome(k) is not None and any(is_field(strip0(y), "nodeid") for t in self.prints(c.ev) for y in parts(t))
                         for rec in self.e.loops.values() for c in rec.conts if agrees(c, o) for k in keys(c))
            if direct:
                self.unk("listed:" + o.strip("\0"), "records are printed while they are counted")
                continue
            if not ls:
                self.bad("listed:" + o.strip("\0"), "a record %s is put in no list that is printed" % NAME.get(o, "that " + o))
                continue
            for pk in ls:
                if self.lists[pk][o] != {1}:
                    if not any(self.lists[q][o] == {1} for q in ls):
                        self.bad("listed:" + o.strip("\0"), "not every record %s is listed" % NAME.get(o, "that " + o))
                else:
                    full.setdefault(pk, []).append(o)
        seen = Counter()
        for s, v in self.r.outcomes():
            if not any("PASSED" in x or "FAILED" in x for t in self.prints(s.ev) for x in [cval(y) for y in parts(t) if isc(y)] if isinstance(x, str)):
                continue
            vs = {}
            for x in self.terms(s):
                for y in walk(x):
                    if y.t == "mut":
                        for i, o in enumerate(y.a[1:]):
                            if o.a[0] == "loop" and o.a[2] in full:
                                vs[o.a[2]] = mk("mut", y.a[0], *y.a[1:2 + i])
            for pk in full:
                if pk not in vs:
                    self.bad("listed:" + "/".join(x.strip("\0") for x in full[pk]), "the list of these records is not used for the output")
                    continue
                seen[pk] += 1
                self.printed(s, vs[pk], full[pk])

    def terms(self, s):
        for x in s.ev:
            if x.a[0] == "loop":
                src, st = ctx.sources(self.e.loops[x.a[1]])
                if src is not None:
                    yield src
        for p in s.paths():
            yield from p

    def printed(self, s, V, outs):
        def ghost(ev):
            c = Counter()
            if ev.a[0] == "print":
                for x in parts(ev.a[2]):
                    if is_field(strip0(x), "nodeid"):
                        y = k.root(x)
                        if y is not None:
                            c[y] += 1
            return c
        key = "listed:" + "/".join(x.strip("\0") for x in outs)
        for p in s.paths():
            if any(c.t == "op" and c.a[0] == "is_empty" and c.a[1] is V and v is True for c, v in p.items()):
                continue
            if any(h is not None and h != want for c, want in p.items() for h in [self.holds(c, tuple(outs))[0]]):
                continue
            k = Kept(self.e, V, ghost)
            try:
                k.cur = dict(p)
                got = {a: n for a, n in k.combine(k.events(s.ev), 0).items() if n}
            except Loss as x:
                self.bad(key, "not every listed record is printed: %s" % x)
                continue
            except Unknown as x:
                self.unk(key, str(x)[:200])
                continue
            if got == {V: 1}:
                continue
            if not got:
                self.bad(key, "the node ids of the records in this list are not printed")
            elif any(a.t == "part" for a in got):
                self.bad(key, "the node ids of only a part of the list are printed")
            else:
                self.unk(key, "content " + ", ".join(show(a)[:80] for a in got))

    # ---- records between the file and the count ----
    def parse(self):
        for L, p in c09.dropped(self.e):
            self.bad("kept:dropped", "a record that was read from a results file can be dropped")
        for L, rec in self.e.loops.items():
            src, st = ctx.sources(rec)
            if src is None or not any(c09.outcome(k) is not None for c in rec.conts for k in keys(c)):
                continue
            for x in walk(src):
                if x.t == "mut":
                    for o in x.a[1:]:
                        if o.a[0].startswith(CUTS):
                            self.bad("kept:" + o.a[0], "records are removed (%s) before they are counted" % o.a[0])
