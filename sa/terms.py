"""Hash-consed value terms shared by the Rust and the Python analyses.

A term describes where a value comes from (provenance), not what it is at run time. Mutable objects are terms
`mut(base, op, op, ...)`: the base value and the sequence of operations applied to it on the path; a loop contributes
one `loop` op whose per-iteration operation lists are kept in the loop table."""


class N:
    __slots__ = ("t", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_n = [0]


def mk(t, *a):
    k = (t, a)
    n = _tab.get(k)
    if n is None:
        n = N()
        n.t, n.a = t, a
        _n[0] += 1
        n.id = _n[0]
        _tab[k] = n
    return n


def C(v, ty=""):
    if isinstance(v, list):
        v = tuple(_tup(x) for x in v)
    return mk("c", type(v).__name__, v, ty)


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def isc(n):
    return n.t == "c"


def cval(n):
    return n.a[1]


UNIT = mk("tup")
TRUE = C(True, "bool")
FALSE = C(False, "bool")


def op(name, *args):
    return mk("op", name, *args)


def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d) for x in n) + ")"
        return str(n)
    if d > 7:
        return "…"
    t, a = n.t, n.a
    if t == "c":
        return repr(a[1])
    if t == "param":
        return "$" + a[0]
    if t == "op":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if t == "tup":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if t == "agg":
        return "%s::%s{%s}" % (a[0].split("::")[-1], a[1], ", ".join("%s:%s" % (k, show(v, d + 1)) for k, v in a[2]))
    if t == "mut":
        return "<%s ⟨%s⟩>" % (show(a[0], d + 1), "; ".join(show(x, d + 1) for x in a[1:]))
    return "%s[%s]" % (t, ", ".join(show(x, d + 1) for x in a))


def subst(n, m, memo=None):
    """Replaces terms by the map m (term -> term), everywhere."""
    if memo is None:
        memo = {}
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return tuple(subst(x, m, memo) for x in n)
        return n
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    elif not n.a:
        r = n
    else:
        na = tuple(subst(x, m, memo) for x in n.a)
        r = n if all(x is y for x, y in zip(na, n.a)) else rebuild(n.t, na)
    memo[n] = r
    return r


def rebuild(t, a):
    if t == "mut" and isinstance(a[0], N) and a[0].t == "mut":
        return mk("mut", a[0].a[0], *(a[0].a[1:] + a[1:]))
    if t == "mut" and len(a) == 1:
        return a[0]
    return mk(t, *a)


def walk(n, seen=None):
    """All subterms of n (each once)."""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)


def contains(n, pred):
    return any(pred(x) for x in walk(n))
