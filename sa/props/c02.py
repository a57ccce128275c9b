"""C02: loadfile/loadscope keep every test of one file/class on one worker, in collected order."""
from .. import ctx, strs
from ..terms import *
from .. import models as M
from .c01 import strategies, infeasible, is_empty_path

FILE = (0, 1)


class Bad(Exception):
    pass


class Unk(Exception):
    pass


def check(R):
    R.rule("In the loadfile and loadscope strategies the path from the test list to the batches is followed: tests are gathered under a key in a map over "
           "the whole list, the key of a test is made only of its file part (loadscope: and of its class part, only where the text before any '[' has a class), "
           "every group goes as a whole to one batch index, and no step reorders the tests of a group.")
    st = strategies(R)
    if st is None:
        return
    n = 0
    for mode in ("LoadFile", "LoadScope"):
        fn = st.get(mode)
        if fn is None:
            if mode not in st:
                R.bad("anchor:" + mode, ctx.where("scheduler::create_scheduler"), "mode %s has no strategy" % mode)
            else:
                R.unk(mode + ":impl", "strategy object is not a plain struct")
            continue
        r = ctx.run(R, fn, key=mode)
        if r is None:
            continue
        w = ctx.where(fn)
        tests, nw = mk("param", "arg1"), mk("param", "arg2")
        for s, v in r.rets:
            ps = [c for c in s.paths() if not infeasible(c, nw) and not is_empty_path(c, tests)]
            if not ps:
                continue
            n += 1
            try:
                f = Follow(R, r.e, tests, mode)
                f.batches(v)
                R.ok("%s:flow" % mode, "; ".join(f.log))
            except Bad as x:
                R.bad("%s:%s" % (mode, x.args[0]), w, x.args[1])
            except Unk as x:
                R.unk("%s:flow" % mode, str(x))
    R.floor("result paths followed", n, 2, "src/scheduler.rs")


class Follow:
    def __init__(self, R, e, tests, mode):
        self.R, self.e, self.tests, self.mode = R, e, tests, mode
        self.log = []
        self.parts = {}

    def is_tests(self, x):
        return x is self.tests or (x.t == "coll" and x.a[0].t == "seq" and x.a[0].a[0] is self.tests)

    # a collection of batches
    def batches(self, v, d=0):
        if d > 10:
            raise Unk("deep")
        if v.t == "coll" and v.a[0].t == "seq":
            return self.batches(v.a[0].a[0], d + 1)
        if v.t == "coll" and v.a[0].t == "map_values":
            return self.groups(v.a[0].a[0])
        if v.t == "mut":
            for o in v.a[1:]:
                k = o.a[0]
                if k == "push":
                    self.group(o.a[1], None, {})
                elif k == "loop":
                    self.loop(o, d)
                elif k == "each":
                    self.inner(o.a[2], None, {})
                elif k in ("sort", "retain", "truncate", "reverse", "swap", "rotate_left", "rotate_right"):
                    pass
                elif k == "at":
                    self.inner(o.a[2], None, {})
                else:
                    raise Unk("batch list operation " + k)
            if v.a[0] is not M.VECNEW and not (v.a[0].t == "op" and v.a[0].a[0] in ("repeat", "seq_new")):
                self.batches(v.a[0], d + 1)
            return
        if v is M.VECNEW or (v.t == "op" and v.a[0] in ("repeat", "seq_new")):
            return
        if v.t == "arr":
            for x in v.a:
                self.group(x, None, {})
            return
        raise Unk("batches " + show(v)[:80])

    def loop(self, o, d):
        L, pk = o.a[1], o.a[2]
        rec = self.e.loops[L]
        us = rec.ops.get(pk)
        if us is None:
            raise Unk("batch list rebuilt in a loop")
        for u, c in zip(us, rec.conts):
            for conds in c.paths():
                for x in u:
                    k = x.a[0]
                    if k == "push":
                        y = x.a[1]
                        if y.t == "elem" and y.a[1] == L:
                            src = y.a[0]
                            if src.t == "seq":
                                self.batches(src.a[0], d + 1)
                                continue
                            if src.t == "map_values":
                                self.groups(src.a[0])
                                continue
                        if y is M.VECNEW:
                            continue
                        if y.t == "mut" and y.a[0].t == "elem" and y.a[0].a[1] == L:
                            for z in y.a[1:]:
                                self.inner(z, L, conds)
                            src = y.a[0].a[0]
                            (self.batches(src.a[0], d + 1) if src.t == "seq" else self.groups(src.a[0]) if src.t == "map_values" else None)
                            continue
                        self.group(y, L, conds)
                    elif k in ("at",):
                        self.at(x, [L], conds, rec)
                    elif k == "loop":
                        self.nested(x, [L], conds)
                    elif k in ("each", "sort", "retain"):
                        if k == "each":
                            self.inner(x.a[2], L, conds)
                    else:
                        raise Unk("batch list operation " + k)

    def nested(self, o, outer, conds):
        L, pk = o.a[1], o.a[2]
        rec = self.e.loops[L]
        us = rec.ops.get(pk)
        if us is None:
            raise Unk("batch list rebuilt in a nested loop")
        for u, c in zip(us, rec.conts):
            for cc in c.paths():
                for x in u:
                    if x.a[0] == "at":
                        self.at(x, outer + [L], {**conds, **cc}, rec)
                    elif x.a[0] == "loop":
                        self.nested(x, outer + [L], {**conds, **cc})
                    else:
                        raise Unk("batch list operation " + x.a[0])

    def at(self, o, loops, conds, rec):
        """An addition to batch number i inside the loops given."""
        i, inn = o.a[1], o.a[2]
        k = inn.a[0]
        if k in ("sort", "reverse"):
            return self.inner(inn, loops[-1], conds)
        if k == "loop":
            us = self.e.loops[inn.a[1]].ops.get(inn.a[2])
            if us is None:
                raise Unk("batch rebuilt in a loop")
            r2 = self.e.loops[inn.a[1]]
            for u, c in zip(us, r2.conts):
                for x in u:
                    self.at(mk("o", "at", i, x), loops + [inn.a[1]], conds, r2)
            return
        if k in ("push_front", "vinsert"):
            raise Bad("order", "tests are put in front of earlier ones of their batch")
        if k not in ("push", "extend"):
            raise Unk("batch operation " + k)
        y = inn.a[1]
        y0 = y
        while y.t == "mut":
            for z in y.a[1:]:
                self.inner(z, loops[-1], conds)
            y = y.a[0]
        g = self.part(y0)
        if g is not None:
            seen = self.parts.setdefault(g, set())
            seen.add(i)
            if self.depends(i, [x for x in loops if x not in [z.a[1] for z in walk(g) if z.t == "elem"]]):
                raise Bad("split", "pieces of one group go to batches of their own: index " + show(i)[:80])
            if len(seen) > 1:
                raise Bad("split", "pieces of one group go to different batches: index " + ", ".join(sorted(show(x)[:60] for x in seen)))
            y = g
        src = self.elem_source(y)
        if src is None:
            raise Unk("what is put into a batch: " + show(y)[:80])
        L = y.a[1] if y.t == "elem" else y.a[1].a[1]
        if src.t == "map_values" or (src.t == "map_items"):
            # a whole group
            if self.depends(i, [x for x in loops if x != L and loops.index(x) > loops.index(L)] if L in loops else []):
                raise Bad("split", "the batch index changes within a group: " + show(i)[:80])
            self.log.append("each group goes to batch %s" % show(i)[:60])
            self.stages(L)
            return self.groups(src.a[0])
        if src.t == "seq":
            inner = src.a[0]
            if self.is_tests(inner):
                return self.direct(i, y, conds, L)
            if inner.t == "elem" or (inner.t == "op" and inner.a[0] == ".1"):
                # element of a group, added one by one
                self.stages(L)
                if self.depends(i, [L]):
                    raise Bad("split", "tests of one group go to batches chosen test by test: index " + show(i)[:80])
                s2 = self.elem_source(inner)
                if s2 is not None and s2.t in ("map_values", "map_items"):
                    self.log.append("each group goes to batch %s" % show(i)[:60])
                    return self.groups(s2.a[0])
                if s2 is not None and s2.t == "seq":
                    return self.groupvec(s2.a[0])
                raise Unk("group source " + show(inner)[:80])
            return self.groupvec(inner)
        raise Unk("source " + show(src)[:80])

    PARTS = ("split_off", "slice", "drain", "truncate", "split_at", "take_range")

    def part(self, y):
        """The group of which y is only a piece."""
        cut = False
        for _ in range(12):
            if y.t == "mut":
                cut = cut or any(o.a[0] in self.PARTS for o in y.a[1:])
                y = y.a[0]
            elif y.t == "op" and len(y.a) > 1 and isinstance(y.a[1], N) and y.a[0].split("::")[-1] in self.PARTS:
                cut, y = True, y.a[1]
            elif y.t == "op" and y.a[0] in (".0", ".1") and y.a[1].t == "op" and y.a[1].a[0].split("::")[-1] in self.PARTS:
                cut, y = True, y.a[1]
            elif y.t == "elem" and y.a[0].t in ("chunks", "chunks_exact"):
                cut, y = True, y.a[0].a[0]
            elif y.t == "coll" and y.a[0].t == "chunks":
                cut, y = True, y.a[0].a[0]
            elif y.t == "elem" and y.a[0].t == "seq" and self.elem_source(y.a[0].a[0]) is None and self.part(y.a[0].a[0]) is not None:
                y = y.a[0].a[0]
            else:
                break
        return y if cut else None

    def elem_source(self, y):
        if y.t == "elem":
            return y.a[0]
        if y.t == "op" and y.a[0] == ".1" and y.a[1].t == "elem":
            return y.a[1].a[0]
        return None

    def groupvec(self, v):
        """Groups kept in a vector instead of a map."""
        if v.t == "coll" and v.a[0].t == "map_values":
            return self.groups(v.a[0].a[0])
        if v.t == "mut":
            for o in v.a[1:]:
                if o.a[0] == "loop":
                    rec = self.e.loops[o.a[1]]
                    us = rec.ops.get(o.a[2])
                    if us is None:
                        raise Unk("groups are built by replacement")
                    flat = [x for u in us for x in u]
                    if any(x.a[0] == "sub" or (x.a[0] == "last") for x in flat) or any("last" in show(x)[:40] for x in flat):
                        raise Bad("neighbours", "only neighbouring tests are gathered: a group is found again only while it is the last one")
                    for u, c in zip(us, rec.conts):
                        for x in u:
                            if x.a[0] == "push" and x.a[1].t == "elem" and x.a[1].a[1] == o.a[1]:
                                s = x.a[1].a[0]
                                if s.t == "map_values":
                                    self.stages(o.a[1], groups=True)
                                    return self.groups(s.a[0])
                                if s.t == "seq":
                                    return self.groupvec(s.a[0])
                            if x.a[0] == "push" and x.a[1].t == "mut" and x.a[1].a[0].t == "elem":
                                for z in x.a[1].a[1:]:
                                    self.inner(z, o.a[1], {})
                                s = x.a[1].a[0].a[0]
                                if s.t == "map_values":
                                    return self.groups(s.a[0])
        raise Unk("groups " + show(v)[:80])

    def stages(self, L, groups=False):
        src, st = ctx.sources(self.e.loops[L])
        if any(x.t in ("rev", "back") for x in st) and src is not None and (src.t == "seq") and not groups:
            raise Bad("order", "the tests are visited in reverse")

    def depends(self, i, Ls):
        """The term changes within the loops given."""
        return contains(i, lambda x: (x.t in ("elem", "idx", "idxf") and x.a[1] in Ls) or (x.t == "lv" and x.a[0] in Ls))

    def inner(self, o, L, conds):
        """An operation on one batch or group as a whole."""
        k = o.a[0]
        if k in ("sort", "reverse", "rotate_left", "rotate_right", "swap", "push_front"):
            raise Bad("order", "the tests of a group are reordered by %s" % k)
        if k in ("at", "each", "key", "fld"):
            return self.inner(o.a[-1], L, conds)

    def group(self, x, L, conds):
        if self.is_tests(x):
            self.log.append("one batch holds all tests in order")
            return
        if x.t == "mut":
            for o in x.a[1:]:
                self.inner(o, L, conds)
            if x.a[0] is M.VECNEW or (x.a[0].t == "op" and x.a[0].a[0] in ("repeat", "seq_new")):
                for o in x.a[1:]:
                    self.made(o, L, conds)
                return
            return self.group(x.a[0], L, conds)
        s = self.elem_source(x)
        if s is not None and s.t in ("map_values", "map_items"):
            return self.groups(s.a[0])
        if x is M.VECNEW:
            return
        raise Unk("batch " + show(x)[:80])

    def made(self, o, L, conds):
        """What is put into a batch that is made on its own and then added to the batches."""
        y = o.a[1] if o.a[0] in ("push", "extend") else None
        while y is not None and y.t == "mut":
            y = y.a[0]
        if o.a[0] == "push" and y.t == "elem" and y.a[0].t == "seq" and self.is_tests(y.a[0].a[0]) and y.a[1] == L:
            raise Bad("split", "each test becomes a batch of its own, whatever its file")
        if o.a[0] == "extend" or (o.a[0] == "push" and self.is_tests(y)):
            return self.group(y, L, conds)
        if o.a[0] == "loop":
            us = self.e.loops[o.a[1]].ops.get(o.a[2])
            if us is None:
                raise Unk("batch rebuilt in a loop")
            for u in us:
                for x in u:
                    z = x.a[1] if x.a[0] == "push" else None
                    while z is not None and z.t == "mut":
                        z = z.a[0]
                    if z is None or z.t != "elem" or z.a[1] != o.a[1] or z.a[0].t != "seq":
                        raise Unk("what is put into a batch: " + show(x)[:80])
                    self.stages(o.a[1])
                    if self.is_tests(z.a[0].a[0]):
                        raise Unk("a batch picked from all tests")
                    self.group(z.a[0].a[0], L, conds)
            return
        raise Unk("batch operation " + show(o)[:80])

    # a map from key to group
    def groups(self, m):
        if m.t == "fold":
            raise Unk("group map rebuilt")
        if m.t != "mut":
            raise Unk("group map " + show(m)[:80])
        seen = False
        for o in m.a[1:]:
            if o.a[0] in ("each", "key", "ent"):
                self.inner(o.a[-1], None, {})
                continue
            if o.a[0] == "sort":
                continue
            if o.a[0] != "loop":
                raise Unk("group map operation " + o.a[0])
            L, pk = o.a[1], o.a[2]
            rec = self.e.loops[L]
            us = rec.ops.get(pk)
            if us is None:
                raise Unk("group map rebuilt in a loop")
            src, st = ctx.sources(rec)
            if src is None or src.t != "seq" or not self.is_tests(src.a[0]):
                if all(x.a[0] in ("each", "key") for u in us for x in u):
                    for u in us:
                        for x in u:
                            self.inner(x.a[-1], L, {})
                    continue
                raise Unk("groups are not built from the test list: " + show(src)[:60] if src is not None else "no source")
            self.stages(L)
            t = mk("elem", src, L)
            keys = []
            for u, c in zip(us, rec.conts):
                for conds in c.paths():
                    for x in u:
                        if x.a[0] in ("ent", "key", "insert"):
                            inn = x.a[-1]
                            if x.a[0] != "insert" and inn.a[0] == "touch":
                                continue
                            if x.a[0] != "insert":
                                if inn.a[0] in ("push_front", "vinsert"):
                                    raise Bad("order", "a test is put in front of earlier ones of its group")
                                self.inner(inn, L, conds)
                            keys.append((x.a[1], conds))
                        else:
                            raise Unk("group map operation " + x.a[0])
            if keys:
                seen = True
                self.keys(keys, t)
        if not seen:
            raise Unk("no grouping loop")

    def direct(self, i, t, conds, L):
        """Tests put straight into a batch chosen by an index."""
        bad = [x for x in walk(i) if (x.t in ("idx", "idxf", "lv") and x.a[1 if x.t != "lv" else 0] == L)]
        if bad:
            raise Bad("split", "tests go to batches by position, not by file or class: index " + show(i)[:80])
        if not contains(i, lambda x: x is t):
            raise Unk("index " + show(i)[:80])
        self.keys([(i, conds)], t)

    def keys(self, keys, t):
        norm = []
        for k, conds in keys:
            p = strs.parts(conds, t)
            ds = strs.deps(k, t)
            full = p.get(None, (1, None))
            out = set()
            for cut, lo, hi, sure in ds:
                if hi is None and full[1] is not None and full[1] <= lo + 1:
                    hi = lo + 1
                if hi is not None and hi < 0 and full[0] == full[1]:
                    hi = full[0] + hi
                out.add((cut, lo, hi, sure))
            key = show(k)[:100]
            wider = [x for x in out if not (x[1] == 0 and x[2] == 1)]
            lim = 1 if self.mode == "LoadFile" else 2
            if any(not x[3] and (x[2] is None or x[2] < 0 or x[2] > lim) for x in wider) and not any(x[3] for x in wider):
                raise Unk("key " + key)
            wider = [x for x in wider if x[3]]
            if self.mode == "LoadFile":
                if wider:
                    raise Bad("key", "the group key uses more than the file part of the id: " + key)
                self.log.append("key " + key)
            else:
                if wider:
                    rest = [x for x in wider if not (x[1] in (0, 1) and (x[2] == 2 or (x[2] == -1 and x[0] == "[")))]
                    if rest:
                        raise Bad("key", "the group key uses more than file and class: " + key)
                    c = p.get("[", (1, None))
                    if c[0] < 3:
                        if full[0] < 3:
                            raise Bad("key", "module-level tests of one file get different keys: " + key)
                        raise Bad("key-case-id", "a '::' inside a case id is taken for a class separator, so module-level tests of one file get different keys: " + key)
                self.log.append("key " + key)
            if not ds and contains(k, lambda x: x is t):
                raise Unk("key " + key)
            norm.append((k, conds, out))
        # different keys for one file must be told apart by the file alone
        for k, conds, out in norm:
            for q, v in conds.items():
                if not contains(q, lambda x: x is t) or q.t in ("next",):
                    continue
                if q.t == "has" or (q.t == "op" and q.a[0] in ("has_sep", "is_empty", "contains")) or "len(coll" in show(q):
                    continue
                ds = strs.deps(q, t)
                lim = 1 if self.mode == "LoadFile" else 2
                if any(x[3] and (x[2] is None or x[2] > lim) for x in ds):
                    if len({id(a) for a, _, _ in norm}) > 1:
                        raise Bad("key-choice", "the key of a test depends on more than its %s: %s" % ("file" if lim == 1 else "class", show(q)[:100]))
