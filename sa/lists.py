"""What a list holds, however it was filled."""
from .models import VECNEW
from .pyc import Unk
from .rows import Bad
from .terms import *


def leaves(e, t, chain=(), d=0):
    """What a collection holds: (element, ((loop, facts), ...)) for each way of adding one; operations on the whole."""
    if d > 12:
        raise Unk("a deep collection")
    if t.t == "seq":
        return leaves(e, t.a[0], chain, d + 1)
    if t is VECNEW or t.t == "op" and t.a[0] in ("seq_new", "set_new", "map_new"):
        return [], []
    if t.t == "arr":
        return [(x, chain) for x in t.a], []
    if t.t == "coll":
        x = t.a[0]
        if x.t == "seq":
            return leaves(e, x, chain, d + 1)
        raise Unk("a collection " + show(x)[:60])
    if t.t == "mut":
        out, ops = leaves(e, t.a[0], chain, d + 1)
        for o in t.a[1:]:
            n = o.a[0]
            if n in ("push", "insert"):
                out = out + [(o.a[1], chain)]
            elif n == "extend":
                a, b = leaves(e, o.a[1], chain, d + 1)
                out, ops = out + a, ops
            elif n == "loop":
                out = out + looped(e, o.a[1], o.a[2], chain, d + 1)
            else:
                ops = ops + [o]
        return out, ops
    raise Unk("a collection " + show(t)[:60])


def resolved(e, x, d=0):
    """What a part of a list's element can be, when the list was gathered before: [terms], or None."""
    path = []
    while x.t == "op" and x.a[0] in (".0", ".1", ".2") and len(x.a) == 2:
        path.append(int(x.a[0][1:]))
        x = x.a[1]
    if x.t != "elem" or x.a[0].t != "seq" or d > 3:
        return None
    try:
        ls, _ = leaves(e, x.a[0].a[0])
    except (Unk, Bad):
        return None
    out = []
    for v, _ in ls:
        for i in reversed(path):
            if v.t == "tup" and i < len(v.a):
                v = v.a[i]
            else:
                v = op(".%d" % i, v)
        deeper = resolved(e, v, d + 1)
        out += [v] if deeper is None else deeper
    return out or None


def looped(e, L, pk, chain, d):
    rec = e.loops[L]
    out = []
    for c in rec.conts:
        u = c.upd.get(pk)
        if u is None or u.t == "lv":
            continue
        if u.t != "mut" or u.a[0].t != "lv":
            raise Unk("a loop changes a list in another way: " + show(u)[:60])
        for p in c.paths():
            here = chain + ((L, p),)
            for o in u.a[1:]:
                if o.a[0] in ("push", "insert"):
                    v = o.a[1]
                    # one of the elements of a nested list
                    if v.t == "elem" and len(v.a) == 3 and v.a[0].t == "seq" and v.a[2] == "f":
                        a, b = leaves(e, v.a[0], here, d + 1)
                        out += a
                    else:
                        out.append((v, here))
                elif o.a[0] == "extend":
                    a, b = leaves(e, o.a[1], here, d + 1)
                    out += a
                elif o.a[0] == "loop":
                    out += looped(e, o.a[1], o.a[2], here, d + 1)
                else:
                    raise Unk("a loop changes a list by " + show(o)[:60])
    return out
