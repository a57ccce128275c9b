"""Lists with exactly one element per element of another: what each element is made of."""
from . import pyc
from .mir import dnf
from .pyc import Unk, brief
from .pyx import VECNEW
from .terms import *


class Bad(Exception):
    """A list that loses, repeats or mixes up elements."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def where(rec):
    return str(getattr(rec, "where", "") or "a loop").split(":")[0]


class RowList:
    """A list built by loop L over src: value v on the iteration path c."""

    def __init__(self, L, src, stages, rows, rec):
        self.L, self.src, self.stages, self.rows, self.rec = L, src, stages, rows, rec


def rowlist(e, t):
    """The loop that builds a list one element per iteration; None for other collections."""
    t = pyc.strip(t)
    if t.t != "mut" or t.a[0] is not VECNEW:
        return None
    ops = [o for o in t.a[1:] if o.a[0] not in ("sort", "reverse")]
    if len(ops) != 1 or ops[0].a[0] != "loop":
        return None
    L, pk = ops[0].a[1], ops[0].a[2]
    rec = e.loops[L]
    lv = rec.lv.get(pk)
    rows = []
    for c in rec.conts:
        u = c.upd.get(pk)
        if u is None or u is lv:
            raise Bad("dropped", "an element is passed over at %s (%s)" % (where(rec), brief(c.conds)))
        if u.t != "mut" or u.a[0] is not lv:
            raise Unk("a list rebuilt in a loop at " + where(rec))
        n = [o for o in u.a[1:]]
        if any(o.a[0] == "loop" for o in n):
            raise Unk("a list filled in nested loops at " + where(rec))
        if len(n) != 1:
            raise Bad("repeated", "%d elements are added for one at %s" % (len(n), where(rec)))
        if n[0].a[0] not in ("push", "insert"):
            raise Unk("a list filled by %s at %s" % (n[0].a[0], where(rec)))
        rows.append((c, n[0].a[-1]))
    src, stages = pyc.nextkey(e, L)
    if src is None:
        raise Unk("the loop at %s goes over no collection" % where(rec))
    return RowList(L, src, stages, rows, rec)


def unseq(t):
    t = pyc.strip(t)
    return t.a[0] if t.t == "seq" else t


def base(e, t, loops=None):
    """The collection whose elements those of t stand for one to one."""
    for _ in range(12):
        t = unseq(t)
        if t.t == "op" and t.a[0] == "py:_deduplicate_ids" and len(t.a) == 2:
            # as many ids as it is given (C16)
            t = unseq(t.a[1])
        r = rowlist(e, t)
        if r is None:
            keyed(e, t)
            return unseq(t)
        if loops is not None:
            loops.append(r.L)
        for s in r.stages:
            if s.t not in ("enumerate", "zip", "map", "rev", "cloned", "copied", "inspect", "back"):
                raise Bad("filtered", "elements are selected by %s at %s" % (s.t, where(r.rec)))
        t = r.src
        t = unseq(t)
    raise Unk("a long chain of lists")


def keyed(e, t):
    """Raises Bad for the values (or items) of a map filled in a loop under keys that several elements may share."""
    while t.t == "coll":
        t = t.a[0]
    if t.t not in ("map_values", "map_items") and not (t.t == "op" and t.a[0] in ("values", "items", "map_values")):
        return
    m = t.a[-1]
    if m.t != "mut" or not (m.a[0].t == "op" and m.a[0].a[0] == "map_new"):
        return
    for o in m.a[1:]:
        if o.a[0] != "loop":
            continue
        rec = e.loops[o.a[1]]
        for c in rec.conts:
            u = c.upd.get(o.a[2])
            for p in (u.a[1:] if u is not None and u.t == "mut" else ()):
                if p.a[0] == "insert" and p.a[1].t == "op" and p.a[1].a[0].startswith("."):
                    raise Bad("collapsed", "elements with the same %s replace each other in a map at %s" % (p.a[1].a[0][1:], where(rec)))


def project(v, name, order=()):
    """Field of a record."""
    if v.t == "agg":
        fs = v.a[2]
        for k, x in fs:
            if k == name:
                return x
        if name.isdigit() and int(name) < len(fs):
            return fs[int(name)][1]
    if v.t == "tup" and name.isdigit() and int(name) < len(v.a):
        return v.a[int(name)]
    return None


def resolve(e, t, conds=(), depth=8):
    """Alternatives [(iteration paths, term)] of t with elements of lists built in loops replaced by what was put there."""
    if depth == 0:
        return [(conds, t)]
    for x in walk(t):
        el = None
        if x.t == "elem" and len(x.a) > 1:
            el, T = x, unseq(x.a[0])
        elif x.t == "op" and x.a[0] == "index" and len(x.a) > 2 and x.a[2].t == "idx":
            el, T = x, unseq(x.a[1])
        if el is None:
            continue
        try:
            r = rowlist(e, T)
        except (Bad, Unk):
            continue
        if r is None:
            continue
        out = []
        for c, v in r.rows:
            m = {}
            for y in walk(t):
                if y.t == "op" and y.a[0].startswith(".") and len(y.a) == 2 and y.a[1] is el:
                    p = project(v, y.a[0][1:])
                    if p is not None:
                        m[y] = p
            m[el] = v
            out += resolve(e, subst(t, m), conds + (c,), depth - 1)
        return out
    return [(conds, t)]


def alternatives(c, cap=64):
    return dnf(c.conds, c.groups, cap)


def exhausts(x, loops):
    """Whether the loops ran to their end on a path."""
    for L in loops:
        for k, v in x.conds.items():
            if k.t == "exit" and k.a[0] == L and v != 0:
                return False
    return True


def distinct(e, t, base_is=None):
    """Shows that the elements of a list are pairwise distinct: each is added where it is known not to be among those
    recorded, and is recorded. Raises Bad or Unk."""
    r = rowlist(e, t)
    if r is None:
        raise Unk("the list " + show(t)[:100])
    rec = r.rec
    for c, v in r.rows:
        for d in alternatives(c):
            found = None
            for k, b in d.items():
                if k.t == "op" and k.a[0] == "contains" and b is False and k.a[2] is v:
                    pk = root(k.a[1], r.L)
                    if pk is not None:
                        found = pk
                        keeps(rec, c, pk, v)
            if found is None:
                raise Bad("unchecked", "%s is added without a check that it is new (%s)" % (show(v)[:60], brief(d)))
    return r


def root(t, L):
    """The variable carried round loop L that a collection is an extension of."""
    while True:
        t = pyc.strip(t)
        if t.t == "lv" and t.a[0] == L:
            return t.a[1]
        if t.t == "mut":
            t = t.a[0]
        elif t.t in ("map_keys", "setitems"):
            t = t.a[0]
        elif t.t == "op" and t.a[0] in ("keys", "map_keys", "m:keys"):
            t = t.a[1]
        else:
            return None


def keeps(rec, c, pk, v):
    """The set of what was seen grows by v and never shrinks."""
    for x in rec.conts:
        u = x.upd.get(pk)
        lv = rec.lv.get(pk)
        if u is None or u is lv:
            ops = ()
        elif u.t == "mut" and u.a[0] is lv:
            ops = u.a[1:]
        else:
            raise Bad("forgotten", "what was seen is forgotten from one element to the next")
        for o in ops:
            if o.a[0] in ("remove", "clear", "pop", "drain", "retain", "truncate", "del"):
                raise Bad("forgotten", "what was seen is removed again by " + o.a[0])
        if x is c and not any(o.a[0] in ("insert", "set", "push", "ent", "push_front", "vinsert") and v in o.a[1:] for o in ops):
            raise Bad("unrecorded", "%s is added but not recorded as seen (%s)" % (show(v)[:60], brief(c.conds)))
