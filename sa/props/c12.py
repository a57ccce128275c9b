"""C12: the worker writes one record per discovered test and per file it cannot load, whatever the tests do."""
from .. import pyc
from ..pyc import Sources, Unk, events, nextkey, strip, brief
from ..mir import dnf
from ..terms import *

FN = pyc.RUNNER + "run_tests"
OUT = ("passed", "failed", "error", "skipped")


def callname(t):
    return t.a[0] if t.t == "op" else ""


def record_of(t):
    """The record a written text encodes, and the json.dumps term."""
    for x in walk(t):
        if x.t == "op" and x.a[0] in ("call:json.dumps", "m:encode_json"):
            a = x.a[1]
            if a.t == "mut" and a.a[0].t == "op" and a.a[0].a[0] == "call:dataclasses.asdict":
                a = a.a[0]
            if a.t == "op" and a.a[0] in ("call:dataclasses.asdict", "call:vars", ".__dict__", "call:dict"):
                a = a.a[1]
            if a.t == "op" and a.a[0] in (".__dict__", "call:vars"):
                a = a.a[1]
            return a, x
    return None, None


class Check:
    def __init__(self, R, r):
        self.R, self.r, self.e = R, r, r.e
        self.n = 0

    def go(self):
        R = self.R
        self.escape()
        for status, x in self.r.rets:
            if status[0] != "ret":
                continue
            try:
                self.path(status[1], x)
            except Unk as u:
                R.unk("records", str(u))
        told = [k for k in R.bads] + [k for k, _ in R.unks]
        for k, d in (("escape", "no exception of test code leaves run_tests except KeyboardInterrupt"), ("records", "one record per file that fails and per discovered test on every path"), ("status", "1 exactly if a record failed")):
            if not any(t.startswith(k) for t in told):
                R.ok(k, d)
        R.floor("return paths of run_tests", self.n, 1, FN)

    # ---- exceptions ----
    def escape(self):
        for status, x in self.r.rets:
            if status[0] != "raise":
                continue
            exc = status[1]
            if exc.a[0] == "KeyboardInterrupt" or pyc.exckind(x, exc, "KeyboardInterrupt") is True:
                continue
            src = exc.a[1]
            if exc.a[0] == "user" or contains(src, lambda t: t.t == "op" and t.a[0].startswith("py:")) or contains(src, lambda t: t.t == "elem"):
                what = "an exception" if exc.a[0] == "user" else exc.a[0]
                self.R.bad("escape:" + self.origin(src), str(exc.a[2]) if len(exc.a) > 2 else FN, "%s raised by %s ends the worker before the results are written (%s)" % (what, self.origin(src), brief({k: v for k, v in x.conds.items() if k.t == "op" and k.a[0] == "excis"})))

    def origin(self, t):
        for x in walk(t):
            if x.t == "op" and x.a[0].startswith("py:"):
                return x.a[0][3:]
        if t.t == "op" and t.a[0] == "ucall":
            return show(t.a[1])[:40]
        return t.a[0] if t.t == "op" else show(t)[:40]

    # ---- records ----
    def path(self, ret, x):
        R, e = self.R, self.e
        writes = self.writes(x)
        self.n += 1
        if not writes:
            R.bad("records:none", FN, "a path of run_tests writes no record (%s)" % brief(x.conds))
            return
        self.src = Sources(e)
        self.items = []
        self.domains = {}
        wl = {}
        for ev, text, nest in writes:
            self.encoding(ev, text, x)
            for t, n in self.texts(ev, text, nest):
                rec, dumps = record_of(t)
                if rec is None:
                    continue
                if n:
                    wl.setdefault(n[-1], []).append(rec)
                self.record(rec, n)
        if not self.items:
            raise Unk("no written record is recognised")
        for (L, i), rs in wl.items():
            self.src.level[(L, i)] = len(rs)
            self.src.loops.add(L)
        for L in [l for l, _ in wl]:
            for i, c in enumerate(e.loops[L].conts):
                self.src.level.setdefault((L, i), 0)
        self.complete(x)
        self.opened(x)
        self.status(ret, x)

    def writes(self, x):
        e = self.e
        writes = []
        for ev, nest in events(e, x.ev):
            if ev.a[0] == "m" and ev.a[1] in ("write", "writelines", "write_text"):
                writes.append((ev, ev.a[3][0] if ev.a[3] else NONE, nest))
            elif ev.a[0] == "print" and any(k == "file" and not contains(v, lambda y: y.t == "g") for k, v in ev.a[2]):
                writes.append((ev, mk("tup", *ev.a[1], C("\n", "str")), nest))
            elif ev.a[0] == "lib" and ev.a[1] == "json.dump":
                writes.append((ev, op("call:json.dumps", *ev.a[2], *[mk("kw", k, v) for k, v in ev.a[3]]), nest))
        return writes

    def texts(self, ev, text, nest):
        """The texts of single records in a written text."""
        if ev.a[0] == "m" and ev.a[1] == "writelines" or contains(text, lambda t: t.t == "op" and t.a[0] == "m:join"):
            j = next((t for t in walk(text) if t.t == "op" and t.a[0] == "m:join"), None)
            return self.src.of(j.a[2] if j is not None else text, nest)
        if text.t == "mut" or text.t == "fold":
            raise Unk("a text built up before it is written")
        return [(text, nest)]

    def record(self, rec, nest):
        """Traces a record to what made it."""
        if rec.t == "elem":
            s, L = rec.a[0], rec.a[1]
            for t, n in self.src.of(strip_seq(s), nest):
                self.record(t, n) if t.t != "each" else self.items.append(("each", t.a[0], n))
            return
        if callname(rec).startswith("py:"):
            tc = rec.a[1] if len(rec.a) > 1 else None
            self.items.append(("run", rec, nest))
            if tc is not None and tc.t == "elem":
                cases = self.src.of(strip_seq(tc.a[0]), nest)
                for t, n in cases:
                    self.case(t, n)
            else:
                self.case(tc, nest)
            return
        if rec.t == "agg":
            self.items.append(("made", rec, nest))
            return
        if rec.t == "part":
            self.items.append(("part", rec, nest))
            return
        if rec.t == "op" and rec.a[0] == "popped":
            raise Unk("records taken off a list one by one")
        raise Unk("a record " + show(rec)[:100])

    def case(self, t, nest):
        if t is not None and t.t in ("part",):
            self.items.append(("part", t, nest))
        elif t is not None and t.t == "each":
            self.items.append(("cases", t.a[0], nest))
        elif t is not None and t.t == "elem":
            for y, n in self.src.of(strip_seq(t.a[0]), nest):
                self.case(y, n)
        elif t is not None and t.t == "agg":
            self.items.append(("case", t, nest))
        else:
            raise Unk("a test case " + show(t)[:100])

    def complete(self, x):
        R, e = self.R, self.e
        for kind, t, nest in self.items:
            if kind == "part":
                R.bad("records:part", FN, "only part of a list is run or written: " + show(t)[:160])
        loops = set(self.src.loops)
        for _, _, nest in self.items:
            loops |= {L for L, _ in nest}
        files = {L for L in loops if self.over_files(L)}
        if not files:
            raise Unk("no loop over the test files feeds the records")
        for L in sorted(loops):
            rec = e.loops[L]
            what = "a test file" if L in files else "a list element"
            for i, c in enumerate(rec.conts):
                n = self.src.level.get((L, i), 0)
                if n != 1:
                    R.bad("records:%s:%d" % ("file" if L in files else "element", n), rec.where, "an iteration over %s adds %d records instead of one (%s)" % (what, n, brief(c.conds)))
            for kind, conds, ev, groups in rec.exits:
                if kind[0] == "exit" and any(k.t == "next" and k.a[2] == L and v is True for k, v in conds.items()):
                    R.bad("records:stop", rec.where, "the loop is left before all of its elements are handled (%s)" % brief(conds))
            src, stages = nextkey(e, L)
            if src is not None and contains(src, lambda t: t.t == "op" and t.a[0] in ("pyslice", "call:itertools.islice")) and not contains(src, lambda t: t.t == "elem"):
                R.bad("records:part", rec.where, "only part of a list is handled: " + show(strip(src))[:120])
            elif L in files and strip(src).t != "param" and not (strip(src).t == "op" and strip(src).a[0] in ("enumerate", "call:dict.fromkeys")):
                R.unk("records:files", "the loop at %s does not run over the test files themselves: %s" % (rec.where, show(strip(src))[:100]))
            if src is not None and any(getattr(s, "t", "") in ("filter", "take", "skip", "take_while", "skip_while") for s in stages):
                R.bad("records:filtered", rec.where, "elements are filtered out before they are handled")
        runs = [(ev, nest) for ev, nest in events(e, x.ev) if ev.a[0] == "call" and ev.a[1] == "_run_single_test"]
        seen = {}
        for ev, nest in runs:
            seen[nest] = seen.get(nest, 0) + 1
        for nest, n in seen.items():
            if n > 1:
                R.bad("records:rerun", e.loops[nest[-1][0]].where if nest else FN, "a test is run %d times" % n)
        if runs and not any(k == "run" for k, _, _ in self.items):
            R.bad("records:dropped", FN, "the results of the tests that are run are not written")
        for L in files:
            rec = e.loops[L]
            for i, c in enumerate(rec.conts):
                mine = [(k, t) for k, t, n in self.items if (L, i) in n]
                raised = any(k.t == "op" and k.a[0] == "excis" for k in c.conds)
                for k, t in mine:
                    if k == "made":
                        o = dict(t.a[2]).get("outcome")
                        if o is not None and isc(o) and cval(o) != "error":
                            R.bad("records:outcome", rec.where, "a file that cannot be loaded is recorded as %r" % cval(o))
                        nid = dict(t.a[2]).get("nodeid")
                        if nid is not None and not contains(nid, lambda y: y.t == "elem" and y.a[1] == L):
                            R.bad("records:nodeid", rec.where, "the error record of a file does not name the file: " + show(nid)[:100])

    def over_files(self, L):
        src, stages = nextkey(self.e, L)
        return src is not None and contains(src, lambda t: t.t == "param" and t.a[0] == "test_files") and not contains(src, lambda t: t.t == "op" and t.a[0].startswith("py:"))

    # ---- the file ----
    def opened(self, x):
        R, e = self.R, self.e
        for ev, nest in events(e, x.ev):
            if ev.a[0] == "m" and ev.a[1] == "open" or ev.a[0] == "lib" and ev.a[1] == "open":
                args = ev.a[3] if ev.a[0] == "m" else ev.a[2][1:]
                kw = dict(ev.a[4] if ev.a[0] == "m" else ev.a[3])
                mode = args[0] if args else kw.get("mode")
                if nest and mode is not None and isc(mode) and "w" in str(cval(mode)):
                    R.bad("records:truncated", e.loops[nest[-1][0]].where, "the result file is opened for writing anew in every iteration, which discards the records before")

    def encoding(self, ev, text, x):
        R = self.R
        for t in walk(text):
            if t.t == "op" and t.a[0] == "call:json.dumps":
                kw = {k.a[0]: k.a[1] for k in t.a if isinstance(k, N) and k.t == "kw"}
                if "ensure_ascii" in kw and isc(kw["ensure_ascii"]) and cval(kw["ensure_ascii"]) is False:
                    # a lone surrogate in captured output or an id cannot be encoded
                    opens = [y for y, _ in events(self.e, x.ev) if y.a[0] in ("m", "lib") and y.a[1] == "open"]
                    SAFE = ("replace", "backslashreplace", "surrogatepass", "xmlcharrefreplace", "ignore", "surrogateescape")
                    binary = [y for a in (ev.a[3] if ev.a[0] == "m" else ev.a[2]) for y in walk(a) if y.t == "op" and str(y.a[0]).split(":")[-1] == "encode"]
                    ok = any(isc(k) and cval(k) in SAFE or k.t == "kw" and k.a[0] == "errors" and isc(k.a[1]) and cval(k.a[1]) in SAFE for y in binary for k in y.a[1:] if isinstance(k, N)) if binary else opens and all(dict(y.a[-1]).get("errors") is not None and isc(dict(y.a[-1])["errors"]) and cval(dict(y.a[-1])["errors"]) in ("replace", "backslashreplace", "surrogatepass", "xmlcharrefreplace", "ignore", "surrogateescape") for y in opens)
                    if not ok:
                        R.bad("records:encoding", FN, "records are written unescaped: output or an id that the file's encoding cannot represent ends the worker with a partial result file")
                if "indent" in kw and not (isc(kw["indent"]) and cval(kw["indent"]) is None):
                    R.bad("records:lines", FN, "records are spread over several lines")
        last = text.a[-1] if text.t in ("cat", "tup") and text.a else None
        if not (last is not None and isc(last) and str(cval(last)).endswith("\n")) and ev.a[0] == "m" and ev.a[1] == "write" and text.t == "op" and text.a[0] == "call:json.dumps":
            nl = [y for y, _ in events(self.e, x.ev) if y.a[0] == "m" and y.a[1] == "write" and y.a[3] and isc(y.a[3][0]) and str(cval(y.a[3][0])).endswith("\n")]
            if not nl:
                R.bad("records:newline", FN, "records are written without a line end between them")

    # ---- exit status ----
    def status(self, ret, x):
        for conds in dnf(x.conds, x.groups, 256):
            self.status1(ret, conds)

    def status1(self, ret, conds):
        while ret.t == "op" and ret.a[0] in ("call:int", "int") and len(ret.a) == 2:
            ret = ret.a[1]
        if isc(ret):
            vals = {int(cval(ret)) if cval(ret) is not None else None}
        else:
            vals = None
        for haserr in (False, True):
            for m in range(16):
                runs = {o for i, o in enumerate(OUT) if m >> i & 1}
                ok = self.fits(conds, haserr, runs)
                if ok is False:
                    continue
                if vals is None:
                    v = self.val(ret, haserr, runs)
                    if v is None:
                        raise Unk("the exit status " + show(ret)[:100])
                    v = int(v)
                else:
                    v = list(vals)[0]
                want = 1 if haserr or runs & {"failed", "error"} else 0
                if v != want:
                    if ok is None:
                        self.R.unk("status", "a condition of a return path is not understood: " + brief(conds))
                        return
                    self.R.bad("status:%s" % v, FN, "the exit status is %s when there %s and test outcomes are %s (%s)" % (v, "is an error record of a file" if haserr else "is no error record of a file", sorted(runs) or "none", brief(conds)))
                    return

    def present(self, t, haserr, runs):
        """Outcomes of the records of a list."""
        key = t
        if key not in self.domains:
            s = Sources(self.e)
            kinds = set()
            for y, n in s.of(t):
                if callname(y).startswith("py:_run") or y.t == "each" and callname(y.a[0]).startswith("py:_run"):
                    kinds.add("run")
                elif y.t == "agg" and "outcome" in dict(y.a[2]):
                    kinds.add("err")
                elif y.t == "elem":
                    for z, _ in s.of(strip_seq(y.a[0])):
                        kinds.add("run" if callname(z).startswith("py:_run") else "err" if z.t == "agg" else "?")
                else:
                    kinds.add("?")
            self.domains[key] = kinds
        k = self.domains[key]
        if "?" in k:
            return None
        return ({"error"} if haserr and "err" in k else set()) | (runs if "run" in k else set())

    def subject(self, L):
        """The list whose records a loop looks at."""
        src, stages = nextkey(self.e, L)
        if src is None:
            return None
        t = strip_seq(src)
        if stages:
            return None
        return t

    def fits(self, conds, haserr, runs):
        """Whether a path is possible when these outcomes occur: True, False, None (not understood)."""
        e = self.e
        res = True
        for k, v in conds.items():
            if k.t == "exit":
                L = k.a[0]
                rec = e.loops[L]
                if not self.judges(rec):
                    continue
                p = self.loop_present(L, haserr, runs)
                if p is None:
                    res = None
                    continue
                if v == 0:
                    # every record took a path that goes on
                    for o in p:
                        if not any(self.agree(q, o) is not False for c in rec.conts for q in c.paths()):
                            return False
                else:
                    if not any(self.agree(q, o) is not False for o in p for q in own(rec.exits[v])):
                        return False
            elif self.shared(k, haserr, runs) is not None:
                if self.shared(k, haserr, runs) is not bool(v):
                    return False
            elif self.accumulator(k) is not None and contains(k, lambda t: t.t in ("fold", "mut")):
                b = self.val(k, haserr, runs)
                if b is None:
                    res = None if res else res
                elif bool(b) is not bool(v):
                    return False
        return res

    def judges(self, rec):
        return any(self.outcome(k) is not None for q in looks(rec) for k in q)

    def loop_present(self, L, haserr, runs):
        rec = self.e.loops[L]
        sub = None
        for c in looks(rec):
            for k in c:
                if self.outcome(k) is not None:
                    sub = k.a[1].a[1]
        if sub is None:
            return None
        if sub.t == "elem":
            return self.present(strip_seq(sub.a[0]), haserr, runs)
        if callname(sub).startswith("py:_run"):
            return set(runs)
        return None

    def outcome(self, k):
        if k.t == "op" and k.a[0] == "eq" and isc(k.a[2]) and isinstance(cval(k.a[2]), str) and k.a[1].t == "op" and k.a[1].a[0] == ".outcome":
            return cval(k.a[2])

    def agree(self, conds, o):
        for k, v in conds.items():
            w = self.outcome(k)
            if w is not None and (w == o) is not v:
                return False
            if k.t == "op" and k.a[0] == "contains" and contains(k.a[2], lambda t: t.t == "op" and t.a[0] == ".outcome"):
                return None
        return True

    def gathered(self, t, haserr, runs):
        """Outcomes of the records that a list or set of outcomes was filled from."""
        if t.t != "mut" or not t.a[1:] or t.a[0].t != VECNEW_.t and t.a[0].t != "op" or any(o.a[0] != "loop" for o in t.a[1:]):
            return None
        out = set()
        for o in t.a[1:]:
            rec = self.e.loops[o.a[1]]
            for c in rec.conts:
                u, lv = c.upd.get(o.a[2]), rec.lv.get(o.a[2])
                if u is None or u is lv:
                    continue
                if u.t != "mut" or u.a[0] is not lv or any(q.a[0] not in ("push", "add", "insert") for q in u.a[1:]):
                    return None
                for q in u.a[1:]:
                    x = q.a[-1]
                    if x.t != "op" or x.a[0] != ".outcome" or x.a[1].t != "elem":
                        return None
                    p = self.present(strip_seq(x.a[1].a[0]), haserr, runs)
                    if p is None:
                        return None
                    out |= {y for y in p if any(self.agree(z, y) for z in c.paths())}
        return out

    def shared(self, k, haserr, runs):
        """Whether the outcomes gathered in a collection are among given ones."""
        if k.t == "op" and k.a[0] in ("truth", "is_empty", "call:bool", "call:len", "len"):
            b = k.a[1]
            if b.t == "op" and b.a[0] in ("bitand", "m:intersection", "len", "call:bool", "call:len"):
                v = self.shared(b, haserr, runs)
                return None if v is None else not v if k.a[0] == "is_empty" else v
            return None
        if k.t == "op" and len(k.a) == 3 and k.a[0] in ("bitand", "m:intersection", "m:isdisjoint", "contains"):
            for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                c = consts(x)
                if c is not None:
                    g = self.gathered(y, haserr, runs)
                    if g is not None:
                        return bool(g & c) is not (k.a[0] == "m:isdisjoint")
        return None

    def accumulator(self, k):
        """A condition on a counter, a flag or a list collected over records."""
        if k.t != "op" or k.a[0] not in ("truth", "is_empty", "eq", "lt", "not"):
            return None
        for y in k.a[1:]:
            if isinstance(y, N) and (y.t == "fold" or y.t == "mut" or y.t == "op" and y.a[0] in ("len", "add", "or", "call:sum", "call:bool", "call:int")):
                return y

    def val(self, k, haserr, runs):
        if isc(k):
            return cval(k)
        v = self.shared(k, haserr, runs)
        if v is not None:
            return v
        if k.t == "op" and k.a[0] in ("truth", "call:bool", "call:int", "bool"):
            v = self.count(k.a[1], haserr, runs)
            return None if v is None else bool(v)
        if k.t == "op" and k.a[0] == "is_empty":
            v = self.count(k.a[1], haserr, runs)
            return None if v is None else not v
        if k.t == "op" and k.a[0] == "not":
            v = self.val(k.a[1], haserr, runs)
            return None if v is None else not v
        if k.t == "op" and k.a[0] in ("eq", "lt"):
            a = cval(k.a[1]) if isc(k.a[1]) else self.count(k.a[1], haserr, runs)
            b = cval(k.a[2]) if isc(k.a[2]) else self.count(k.a[2], haserr, runs)
            if a is None or b is None or {x for x in (k.a[1], k.a[2]) if isc(x) and cval(x) not in (0, False)}:
                return None
            return bool(a) == bool(b) if k.a[0] == "eq" else (not a and bool(b)) if isc(k.a[1]) else False
        v = self.count(k, haserr, runs)
        return None if v is None else v

    def count(self, t, haserr, runs):
        """Whether a counter, flag or list collected over the records is non-zero (None: not understood)."""
        if isc(t):
            return bool(cval(t))
        if t.t == "op" and t.a[0] in ("len", "call:bool", "call:any", "call:int"):
            return self.count(t.a[1], haserr, runs)
        if t.t == "op" and t.a[0] == "call:sum" and t.a[1].t == "mut":
            s = Sources(self.e)
            if all(isc(y) and cval(y) is not True and cval(y) or y is TRUE for y, _ in s.of(t.a[1])):
                return self.count(t.a[1], haserr, runs)
            return None
        if t.t == "op" and t.a[0] in ("add", "or"):
            a, b = self.count(t.a[1], haserr, runs), self.count(t.a[2], haserr, runs)
            return None if a is None or b is None else a or b
        if t.t == "mut" and t.a[0] is VECNEW_ and not any(o.a[0] == "loop" for o in t.a[1:]):
            try:
                return bool(self.present(t, haserr, runs))
            except Unk:
                return None
        if t.t == "fold" or t.t == "mut":
            if t.t == "fold":
                L, pk = t.a[0], t.a[1]
                init = self.e.loops[L].init.get(pk)
                base = bool(cval(init)) if init is not None and isc(init) else self.count(init, haserr, runs) if init is not None else None
                ops = [(L, pk)]
            else:
                base = False if t.a[0] is VECNEW_ else None
                ops = [(o.a[1], o.a[2]) for o in t.a[1:] if o.a[0] == "loop"]
                if any(o.a[0] not in ("loop", "sort", "reverse") for o in t.a[1:]):
                    return None
            if base is None:
                return None
            for L, pk in ops:
                rec = self.e.loops[L]
                if not self.judges(rec):
                    try:
                        p = self.present(t, haserr, runs) if t.t == "mut" else None
                    except Unk:
                        p = None
                    if p is None:
                        return None
                    base = base or bool(p)
                    continue
                p = self.loop_present(L, haserr, runs)
                if p is None:
                    return None
                for o in p:
                    st = set()
                    for c in rec.conts:
                        if not any(self.agree(q, o) is not False for q in c.paths()):
                            continue
                        u, lv = c.upd.get(pk), rec.lv.get(pk)
                        if u is None or u is lv:
                            st.add(False)
                        elif isc(u):
                            st.add(bool(cval(u)))
                            if not cval(u):
                                return None
                        elif u.t == "op" and u.a[0] == "add" and u.a[1] is lv and isc(u.a[2]) and cval(u.a[2]):
                            st.add(True)
                        elif u.t == "mut" and u.a[0] is lv:
                            st.add(True)
                        else:
                            return None
                    if st == {True}:
                        base = True
                    elif st != {False}:
                        return None
            return base
        return None


VECNEW_ = pyc.VECNEW
NONE = pyc.NONE


def own(x):
    """Alternatives of the conditions of a loop's exit (kind, conds, ev, groups)."""
    return list(dnf(x[1], x[3] if len(x) > 3 else (), 64))


def looks(rec):
    return [q for c in rec.conts for q in c.paths()] + [q for x in rec.exits for q in own(x)]


def consts(t):
    if isc(t):
        v = cval(t)
        return {v} if isinstance(v, str) else {x for x in v} if isinstance(v, tuple) and all(isinstance(x, str) for x in v) else None
    if t.t in ("tup", "arr") and all(isc(x) and isinstance(cval(x), str) for x in t.a):
        return {cval(x) for x in t.a}
    if t.t == "mut" and all(o.a[0] in ("push", "add", "insert") and isc(o.a[-1]) for o in t.a[1:]):
        return {cval(o.a[-1]) for o in t.a[1:]}
    return None


def strip_seq(t):
    while t.t == "seq":
        t = t.a[0]
    return t


def check(R):
    R.rule("run_tests is interpreted path by path; every written line is traced back through the lists and loops to the call that made it. Each iteration over the test files adds one error record or all cases of the file, each other list element is handled exactly once on every path, no exception of test code but KeyboardInterrupt leaves the function, and each return path is compared with the outcomes that can occur on it.")
    R.assume("os._exit, a crash of the interpreter and KeyboardInterrupt end the worker; a full disk is not considered.")
    r = pyc.analyse(R, FN)
    if r is None:
        return
    Check(R, r).go()
