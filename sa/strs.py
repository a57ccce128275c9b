"""Reading string terms as pieces of a base string divided by a separator.

piece(x, t, sep) gives (cut, lo, hi): x is the parts lo..hi (hi None: to the end; negative: counted from the end) of t
divided by sep, after t has been cut at the first character `cut` (None: not cut)."""
from .terms import *


def _c(x):
    return cval(x) if isc(x) and isinstance(cval(x), str) else None


def piece(x, t, sep="::", d=0):
    if x is t:
        return (None, 0, None)
    if d > 12:
        return None
    # nth part of a split
    if x.t == "nth" and x.a[0].t in ("split", "splitn"):
        s = x.a[0]
        if s.t == "split":
            base, sp, i, n = s.a[0], _c(s.a[1]), x.a[1], None
        else:
            base, sp, i = s.a[0], _c(s.a[2]), x.a[1]
            n = cval(s.a[1]) if isc(s.a[1]) else None
            if n is None:
                return None
        p = piece(base, t, sep, d + 1)
        if p is None:
            return None
        if sp == sep and i < 0:
            return _sub(p, i, None) if i == -1 and p[2] is None else None
        if sp == sep:
            return _sub(p, i, None if n is not None and i == n - 1 else i + 1)
        if i == 0 and sp is not None and len(sp) == 1:
            return _cut(p, sp)
        return None
    if x.t == "op":
        n = x.a[0]
        if n == "after1" and _c(x.a[2]) == sep:
            p = piece(x.a[1], t, sep, d + 1)
            return _sub(p, 1, None) if p else None
        if n == "rbefore1" and _c(x.a[2]) == sep:
            p = piece(x.a[1], t, sep, d + 1)
            return _sub(p, 0, -1) if p else None
        if n == "rafter1" and _c(x.a[2]) == sep:
            p = piece(x.a[1], t, sep, d + 1)
            return (p[0], -1, None) if p and p[2] is None and p[0] is None else None
        if n in ("slice",):
            v, r = x.a[1], x.a[2]
            if r.t == "agg":
                f = dict(r.a[2])
                p = piece(v, t, sep, d + 1)
                if p is None:
                    return None
                st, en = f.get("start"), f.get("end")
                if st is None and en is not None and _find(en, v, sep):
                    return _sub(p, 0, 1)
                if st is None and en is not None:
                    for ch in "[":
                        if _find(en, v, ch):
                            return _cut(p, ch)
                if en is None and st is not None and st.t == "op" and st.a[0] == "add" and any(_find(y, v, sep) for y in st.a[1:]) and any(isc(y) and cval(y) == len(sep) for y in st.a[1:]):
                    return _sub(p, 1, None)
                if st is None and en is not None and en.t == "op" and en.a[0] == "rfind" and en.a[1] is v and _c(en.a[2]) == sep:
                    return _sub(p, 0, -1)
    if x.t == "mut" and len(x.a) == 2 and x.a[1].t == "o" and x.a[1].a[0] == "truncate" and len(x.a[1].a) == 2:
        v, en = x.a[0], x.a[1].a[1]
        p = piece(v, t, sep, d + 1)
        if p is None:
            return None
        if _find(en, v, sep):
            return _sub(p, 0, 1)
        if _find(en, v, "["):
            return _cut(p, "[")
        if en.t == "op" and en.a[0] == "rfind" and en.a[1] is v and _c(en.a[2]) == sep:
            return _sub(p, 0, -1)
        return None
    if x.t == "index" or (x.t == "op" and x.a[0] == "index"):
        v, i = x.a[1], x.a[2]
        if v.t == "coll" and v.a[0].t == "split" and isc(i):
            return piece(mk("nth", v.a[0], cval(i)), t, sep, d + 1)
    if x.t == "cat":
        return _join(x.a, t, sep, d)
    return None


def _find(x, v, sep):
    if x.t == "op" and x.a[0] == "find" and x.a[1] is v and _c(x.a[2]) == sep:
        return True
    return False


def _sub(p, lo, hi):
    cut, a, b = p
    if b is None:
        return (cut, a + lo, (None if hi is None else (a + hi if hi > 0 else hi)))
    if b > 0:
        e = b if hi is None else (a + hi if hi > 0 else b + hi)
        return (cut, a + lo, min(e, b))
    if hi is None:
        return (cut, a + lo, b)
    if hi > 0:
        return (cut, a + lo, a + hi)
    return (cut, a + lo, b + hi)


def _cut(p, ch):
    cut, a, b = p
    if cut is not None and cut != ch:
        return None
    return (ch, a, b)


def _join(parts, t, sep, d):
    """cat of consecutive pieces separated by sep."""
    ps, cur = [], None
    parts = list(parts)
    if not parts or len(parts) % 2 == 0:
        return None
    for i, x in enumerate(parts):
        if i % 2:
            if _c(x) != sep:
                return None
            continue
        p = piece(x, t, sep, d + 1)
        if p is None:
            return None
        if cur is None:
            cur = p
        else:
            if cur[2] != p[1] or (cur[0] or p[0]) != (p[0] or cur[0]):
                return None
            cur = (p[0] or cur[0], cur[1], p[2])
    return cur


THROUGH = ("eq", "lt", "has_sep", "is_empty", "len", "contains", "to_string", "find", "starts_with", "ends_with", "lower")


def deps(k, t, sep="::", sure=True):
    """Pieces of t that k is made of: a set of (cut, lo, hi, sure); (None, 0, None, _) stands for the whole of t. sure is
    False when the piece is reached only through an operation that may throw part of it away."""
    p = piece(k, t, sep)
    if p is not None:
        return {p + (sure,)}
    if (k.t == "op" and k.a[0] not in THROUGH) or k.t in ("nth", "split", "call") \
            or (k.t == "mut" and any(o.t != "o" or o.a[0] not in ("push", "extend") for o in k.a[1:])):
        sure = False
    out = set()

    def go(x):
        if isinstance(x, N):
            out.update(deps(x, t, sep, sure))
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in k.a:
        go(x)
    return out


def parts(conds, t, sep="::"):
    """What the path facts say about the number of parts: {cut: (min, max or None)} for the uncut and cut string."""
    out = {}

    def note(cut, lo=None, hi=None):
        a, b = out.get(cut, (1, None))
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        out[cut] = (a, b)
    neq = {}
    nobr = False
    for k, v in conds.items():
        if k.t == "has" and k.a[0].t in ("split", "splitn"):
            s = k.a[0]
            base, sp = (s.a[0], _c(s.a[1])) if s.t == "split" else (s.a[0], _c(s.a[2]))
            p = piece(base, t, sep)
            if p and sp == sep and p[2] is None:
                i = k.a[1] + p[1]
                note(p[0], lo=i + 1) if v else note(p[0], hi=i)
        elif k.t == "op" and k.a[0] == "has_sep" and _c(k.a[2]) == sep:
            p = piece(k.a[1], t, sep)
            if p and p[2] is None:
                note(p[0], lo=p[1] + 2) if v else note(p[0], hi=p[1] + 1)
        elif k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "find" and _c(k.a[0].a[2]) == sep and v in ("Some", "None"):
            p = piece(k.a[0].a[1], t, sep)
            if p and p[2] is None:
                note(p[0], lo=p[1] + 2) if v == "Some" else note(p[0], hi=p[1] + 1)
        elif k.t == "op" and k.a[0] in ("eq", "lt") :
            for a, b, flip in ((k.a[1], k.a[2], False), (k.a[2], k.a[1], True)):
                if a.t == "op" and a.a[0] == "len" and a.a[1].t == "coll" and a.a[1].a[0].t == "split" and isc(b) and isinstance(cval(b), int):
                    s = a.a[1].a[0]
                    p = piece(s.a[0], t, sep)
                    if not p or _c(s.a[1]) != sep or p[2] is not None:
                        continue
                    n = cval(b) + p[1]
                    if k.a[0] == "eq":
                        if v:
                            note(p[0], n, n)
                        else:
                            neq.setdefault(p[0], set()).add(n)
                    elif not flip:
                        note(p[0], hi=n - 1) if v else note(p[0], lo=n)
                    else:
                        note(p[0], lo=n + 1) if v else note(p[0], hi=n)
                    break
        elif k.t == "op" and k.a[0] == "is_empty" and k.a[1].t == "coll":
            pass
        if k.t == "op" and k.a[0] == "has_sep" and _c(k.a[2]) == "[" and v is False:
            p = piece(k.a[1], t, sep)
            if p and p[2] is None:
                nobr = True
    if nobr:
        for cut in (None, "["):
            for q in (None, "["):
                if q in out:
                    note(cut, *out[q])
    for cut, ns in neq.items():
        a, b = out.get(cut, (1, None))
        while a in ns:
            a += 1
        while b is not None and b in ns:
            b -= 1
        out[cut] = (a, b)
    return out
