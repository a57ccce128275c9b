"""What the checks of the Python side share: analysed functions, where records come from, loops and exceptions."""
from . import ctx, pyx
from .mir import TooComplex
from .pyx import Unsup, VECNEW, NONE
from .terms import *

RUNNER = "rtest.worker.runner:"
MARK = "rtest.mark:"
# functions analysed on their own: a call of one of them is a value in the analysis of its callers
CUT = {"_import_module_from_file", "_discover_tests_in_module", "_run_single_test", "expand_parametrize", "_get_parametrize_specs", "_expand_single_spec", "_is_skipped",
       "_deduplicate_ids", "_value_to_id_string", "get_case_nodeid_suffix", "_is_test_function", "_is_test_class"}


def exists(qual):
    m, q = qual.split(":")
    mod = pyx.modules().get(m)
    if mod is None:
        return False
    if "." in q:
        c, n = q.split(".")
        d = mod.names.get(c)
        import ast
        return d is not None and d[0] == "class" and any(isinstance(x, ast.FunctionDef) and x.name == n for x in d[1].body)
    d = mod.names.get(q)
    return d is not None and d[0] == "func"


class Run:
    pass


_cache = {}


def analyse(R, qual, inline=(), must=True, key=None, cut=CUT):
    """The analysed function with its paths; None when it is out of reach (recorded)."""
    short = qual.split(":")[1]
    if not exists(qual):
        if must:
            R.bad("anchor:" + qual, qual, "the function %s no longer exists" % qual)
        else:
            R.unk("anchor:" + qual, "there is no function %s" % qual)
        return None
    opaque = {c for c in cut if c not in inline and c != short}
    k = (qual, tuple(sorted(opaque)))
    if k not in _cache:
        r = Run()
        r.e = pyx.Engine(opaque=opaque)
        r.err = None
        try:
            r.rets = r.e.run(qual)
        except (TooComplex, Unsup, RecursionError) as x:
            r.err = "%s: %s" % (type(x).__name__, str(x)[:200])
        _cache[k] = r
    r = _cache[k]
    r.qual = qual
    if r.err:
        R.unk((key or qual) + ":out-of-reach", r.err)
        return None
    R.count("functions analysed", len(r.e.inlined))
    R.count("paths", len(r.rets))
    R.count("loops summarised", len(r.e.loops))
    return r


class Unk(Exception):
    pass


def nextkey(e, L):
    """(source, stages) of a loop over a collection."""
    rec = e.loops[L]
    for c in rec.conts:
        for k in c.conds:
            if k.t == "next" and k.a[2] == L:
                return k.a[0], k.a[1]
    for kind, conds, ev, groups in rec.exits:
        for k in conds:
            if k.t == "next" and k.a[2] == L:
                return k.a[0], k.a[1]
    return None, ()


def events(e, evs, nest=()):
    """(event, ((loop, iteration path), ...)); an iteration path is an index, or ("x", i) for a path that leaves the loop."""
    for x in evs:
        if x.a[0] == "loop":
            rec = e.loops[x.a[1]]
            for i, c in enumerate(rec.conts):
                yield from events(e, c.ev, nest + ((x.a[1], i),))
        else:
            yield x, nest


def strip(t):
    """The collection a copy or a reordering of it was made of."""
    while True:
        if t.t == "coll" and t.a[0].t == "seq":
            t = t.a[0].a[0]
        elif t.t == "seq":
            t = t.a[0]
        elif t.t == "op" and t.a[0] in ("call:list", "call:tuple", "call:sorted", "call:reversed", "reversed", "m:copy", "call:iter", "sorted", "call:copy.copy") and len(t.a) >= 2:
            t = t.a[1]
        elif t.t == "mut" and all(o.a[0] in ("sort", "reverse") for o in t.a[1:]):
            t = t.a[0]
        elif t.t == "mut" and t.a[0] is VECNEW and len(t.a) >= 2 and t.a[1].a[0] == "extend" and all(o.a[0] in ("sort", "reverse") for o in t.a[2:]):
            t = t.a[1].a[1]
        else:
            return t


class Sources:
    """Which values a list holds: items (term, nest of loop iterations that add it), and how many each iteration adds."""

    def __init__(self, e):
        self.e = e
        self.level = {}     # (loop, iteration path) -> number of additions
        self.loops = set()
        self.done = set()
        self.base = 0

    def of(self, t, nest=()):
        """Items of a list that is read inside the iterations `nest`."""
        self.base, old = len(nest), self.base
        try:
            return self._of(t, nest)
        finally:
            self.base = old

    def _of(self, t, nest):
        e = self.e
        if t is VECNEW:
            return []
        if t.t == "tup":
            return [(x, nest) for x in t.a]
        if t.t == "mut":
            out = self._of(t.a[0], nest) if t.a[0].t != "lv" else []
            for o in t.a[1:]:
                out += self.oper(o, nest)
            return out
        if t.t in ("coll", "seq"):
            return self._of(t.a[0], nest)
        if t.t == "op" and t.a[0] in ("call:list", "call:tuple", "call:sorted", "call:reversed", "reversed", "m:copy", "sorted", "call:iter") and len(t.a) >= 2:
            return self._of(t.a[1], nest)
        if t.t == "op" and t.a[0] in ("add", "call:itertools.chain", "concat"):
            return [y for x in t.a[1:] for y in self._of(x, nest)]
        if t.t == "op" and t.a[0] in ("pyslice", "islice", "call:itertools.islice"):
            return [(mk("part", t), nest)]
        if t.t == "op" and (t.a[0].startswith("py:") or t.a[0] == "ucall"):
            return [(mk("each", t), nest)]
        if t.t in ("param", "elem", "obj"):
            return [(mk("each", t), nest)]
        if t.t == "op" and t.a[0].startswith((".", "m:", "call:", "index", "getattr")):
            return [(mk("each", t), nest)]
        if t.t == "map_values" or t.t == "op" and t.a[0] in ("values", "map_values"):
            m = t.a[-1]
            if m.t == "mut" and m.a[0].t == "op" and m.a[0].a[0] == "map_new":
                # elements under equal keys replace each other
                return [(mk("part", t), nest)]
        if t.t == "fold":
            return self.rebuilt(t, nest)
        raise Unk("a collection %s" % show(t)[:120])

    def oper(self, o, nest):
        n = o.a[0]
        if n in ("sort", "reverse"):
            return []
        if n in ("push", "push_front", "vinsert"):
            self.add(nest)
            return [(o.a[-1], nest)]
        if n == "extend":
            self.add(nest)
            return self._of(o.a[1], nest)
        if n == "loop":
            L, pk = o.a[1], o.a[2]
            rec = self.e.loops[L]
            self.loops.add(L)
            k = (L, pk, tuple(l for l, _ in nest))
            if k in self.done:
                return []
            self.done.add(k)
            self.add(nest)
            out = []
            for i, c in enumerate(rec.conts):
                u = c.upd.get(pk)
                self.level.setdefault((L, i), 0)
                if u is None or u is rec.lv.get(pk):
                    continue
                if u.t != "mut" or u.a[0] is not rec.lv.get(pk):
                    raise Unk("a list rebuilt in a loop at " + rec.where)
                for x in u.a[1:]:
                    out += self.oper(x, nest + ((L, i),))
            return out
        raise Unk("a list changed by " + n)

    def rebuilt(self, t, nest):
        """A list variable assigned anew in a loop."""
        L, pk = t.a
        rec = self.e.loops[L]
        init = rec.init.get(pk)
        out = self._of(init, nest) if init is not None else []
        lv = rec.lv.get(pk)
        self.loops.add(L)
        for i, c in enumerate(rec.conts):
            u = c.upd.get(pk)
            self.level.setdefault((L, i), 0)
            if u is None or u is lv:
                continue
            n = nest + ((L, i),)
            if u.t == "op" and u.a[0] == "add" and u.a[1] is lv:
                self.add(n)
                out += self._of(u.a[2], n)
            elif u.t == "mut" and u.a[0] is VECNEW and len(u.a) > 1 and u.a[1].a[0] == "extend" and strip(u.a[1].a[1]) is lv:
                for o in u.a[2:]:
                    out += self.oper(o, n)
            elif not contains(u, lambda x: x is lv):
                out.append((mk("part", u), n))
            else:
                raise Unk("a list rebuilt in a loop at " + rec.where)
        return out

    def add(self, nest):
        if len(nest) > self.base:
            self.level[nest[-1]] = self.level.get(nest[-1], 0) + 1


def brief(conds, n=4):
    """Conditions of a path for a message."""
    out = []
    for k, v in conds.items():
        if k.t in ("next", "exit"):
            continue
        s = show(k)
        out.append("%s%s" % ("" if v is True else "not " if v is False else str(v) + " ", s if len(s) < 90 else s[:60] + "…" + s[-24:]))
    return "; ".join(out[-n:]) or "always"


def known(st_conds, exc, cls):
    """What is known on a path of whether an exception is of a class (None: nothing)."""
    for k, v in st_conds.items():
        if k.t == "op" and k.a[0] == "excis" and k.a[1] is exc:
            n = k.a[2].a[0] if k.a[2].t == "g" else None
            if n == cls:
                return v
            if v is True and n is not None:
                a = pyx.ancestors(n)
                if a and cls in a:
                    return True
                b = pyx.ancestors(cls)
                if a and b and n not in b:
                    return False
            if v is False and n is not None:
                b = pyx.ancestors(cls)
                if b and n in b:
                    return False
    return None


def exckind(x, exc, cls):
    """Whether an exception term is of a class on a path: True, False or None (may be)."""
    if exc.a[0] == "user":
        return known(x.conds if hasattr(x, "conds") else x, exc, cls)
    a = pyx.ancestors(exc.a[0])
    return None if a is None else cls in a
