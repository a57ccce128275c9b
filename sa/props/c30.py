"""C30: marker decorators return the object they decorate and keep its earlier marks."""
from .. import pyc, rows
from ..mir import TooComplex
from ..pyc import Unk, Sources, brief, strip
from ..pyx import VECNEW, Unsup
from ..terms import *

MARKS = ("__rtest_cases__", "__rtest_skip__", "__rtest_skip_reason__")
TARGET = mk("param", "<decorated>")


def applied(R, qual):
    """The analysed decorator factory and the paths of applying its result to an object."""
    r = pyc.analyse(R, qual)
    if r is None:
        return None, ()
    try:
        return r, r.e.apply(r.rets, [TARGET], qual)
    except (Unsup, TooComplex, RecursionError) as x:
        R.unk(qual + ":applied", "%s: %s" % (type(x).__name__, str(x)[:160]))
        return None, ()


def check(R):
    R.rule("The closures that the decorator factories return are applied symbolically to an arbitrary object; on every path the returned value, every attribute set, every list changed and the content of the list recorded are examined.")
    for q, f in ((pyc.MARK + "Mark.cases", cases), (pyc.MARK + "Mark.skip", skip)):
        r, out = applied(R, q)
        if r is None:
            continue
        n = len(R.bads), len(R.unks)
        k = 0
        for status, x in out:
            if status[0] != "ret":
                if not contains(status[1], lambda y: y.t == "g"):
                    pass
                continue
            k += 1
            v = r.e.freeze(x, status[1])
            if v is not TARGET:
                if v.t == "op" and contains(v, lambda y: y is TARGET) and v.a[0] in ("call:typing.cast",):
                    pass
                else:
                    R.bad(q.split(":")[1] + ":returns", q, "the decorator returns %s instead of the object it decorates (%s)" % (show(v)[:80], brief(x.conds)))
            f(R, r.e, x, q)
            twice(R, r.e, x, q)
        R.floor("paths of an applied " + q.split(".")[-1], k, 1, q)
        if n == (len(R.bads), len(R.unks)):
            R.ok(q.split(":")[1], "%d paths" % k)


def twice(R, e, x, q):
    """An argument that may be a one-shot iterable is walked through once on a path."""
    vals = [w for _, w in attrs(e, x)[0]]
    for p in ("argvalues", "ids"):
        P = mk("param", p)
        S = mk("seq", P)
        if any(v is True and k.t == "op" and k.a[0] in ("isinstance", "hasattr", "len", "call:hasattr") and contains(k, lambda y: y is P) for k, v in x.conds.items()):
            continue  # no generator
        whole = any(contains(w, lambda y: y.t == "coll" and y.a[0] is S) for w in vals)
        loops = {k.a[2] for k in x.conds if k.t == "next" and k.a[0] is S and len(k.a) > 2}
        if len(loops) + whole > 1:
            return R.bad(q.split(":")[1] + ":twice:" + p, q, "%s is walked through more than once on a path, a generator is empty the second time (%s)" % (p, brief(x.conds)))


def old(t, name):
    """t is what the object had recorded before."""
    return t.t == "op" and (t.a[0] == "." + name and t.a[1] is TARGET or t.a[0] == "getattr" and t.a[1] is TARGET and isc(t.a[2]) and cval(t.a[2]) == name)


def own(t, name):
    return t.t == "op" and contains(t, lambda y: y.t == "op" and (y.a[0] == ".__dict__" or y.a[0] in ("call:vars", "vars")) and y.a[1] is TARGET) and contains(t, lambda y: isc(y) and cval(y) == name)


def attrs(e, x):
    """Attributes set on the object, in order: [(name, value)], and whether others are touched."""
    out, other = [], []
    on = False
    for ev, _ in pyc.events(e, x.ev):
        n = ev.a[0]
        if n == "applied":
            on = True
        elif n == "setattr":
            if ev.a[1] is TARGET:
                out.append((ev.a[2], ev.a[3]))
            else:
                other.append(ev)
        elif n in ("mutate", "setglobal"):
            other.append(ev)
    return out, other


def foreign(R, x, q, other):
    for ev in other:
        what = show(ev.a[1])[:80] if len(ev.a) > 1 else ""
        R.bad(q.split(":")[1] + ":foreign", q, "decorating an object changes %s, which others may share (%s)" % (what, brief(x.conds)))


def has_old(x, name):
    """What the path knows of earlier marks: True (there are some), False (none), None."""
    res = None
    for k, b in x.conds.items():
        if k.t != "op" or not contains(k, lambda y: old(y, name) or own(y, name) or y.t == "op" and y.a[0] == "hasattr" and y.a[1] is TARGET):
            continue
        if k.a[0] == "truth" or k.a[0] == "contains":
            b2 = b
        elif k.a[0] == "hasattr":
            b2 = False if not b else None
        elif k.a[0] in ("isnone", "is_empty"):
            b2 = False if b else (True if k.a[0] == "is_empty" else None)
        else:
            b2 = None
        if b2 is False:
            return False
        res = res or b2
    return res


def cases(R, e, x, q):
    N = "__rtest_cases__"
    sets, other = attrs(e, x)
    foreign(R, x, q, other)
    extra = [n for n, _ in sets if n != N]
    for n, w in sets:
        if n in MARKS and n != N and not old(w, n):
            extra = [m for m in extra if m != n]
            R.bad("Mark.cases:other", q, "the mark %s of the object is set to %s" % (n, show(w)[:60]))
    if extra:
        R.unk("Mark.cases:attributes", "attributes %s are set" % ", ".join(map(str, extra)))
    vals = [v for n, v in sets if n == N]
    if not vals:
        R.bad("Mark.cases:lost", q, "the cases are not recorded on the object (%s)" % brief(x.conds))
        return
    v = strip(vals[-1])
    h = has_old(x, N)
    pushes, keeps, order = [], 0, []
    if v.t == "mut" and v.a[0] is VECNEW:
        ops = v.a[1:]
    elif v.t == "tup":
        ops = tuple(mk("o", "push", y) for y in v.a)
    elif v.t == "op" and v.a[0] in ("add", "concat"):
        ops = tuple(mk("o", "push", z) for z in ()) + tuple(mk("o", "extend", y) for y in v.a[1:])
    elif v.t == "mut" and (old(v.a[0], N) or contains(v.a[0], lambda y: old(y, N))) or old(v, N):
        R.bad("Mark.cases:shared", q, "the list found on the object is changed, which may be its base class's (%s)" % brief(x.conds))
        return
    else:
        R.unk("Mark.cases:list", "the list recorded is " + show(v)[:100])
        return

    def flat(ops):
        for o in ops:
            if o.a[0] == "extend":
                t = strip(o.a[1])
                if t.t == "tup":
                    for y in t.a:
                        yield "push", y
                elif t.t == "mut" and t.a[0] is VECNEW:
                    yield from flat(t.a[1:])
                elif t is VECNEW:
                    pass
                elif t.t == "op" and t.a[0] in ("add", "concat"):
                    yield from flat(tuple(mk("o", "extend", y) for y in t.a[1:]))
                else:
                    yield "extend", t
            else:
                yield o.a[0], o.a[-1]
    for k, t in flat(ops):
        if k == "extend":
            if old(t, N) or t.t == "op" and contains(t, lambda y: old(y, N)) and t.a[0] in ("call:copy.deepcopy", "or"):
                order.append("old")
            elif own(t, N):
                order.append("old")
                R.unk("Mark.cases:own", "only marks of the object itself are kept, not inherited ones")
            elif contains(t, lambda y: old(y, N)) and t.t == "op" and t.a[0] in ("pyslice", "islice"):
                R.bad("Mark.cases:part", q, "only a part of the earlier cases is kept")
                return
            else:
                R.unk("Mark.cases:list", "the list recorded holds " + show(t)[:100])
                return
        elif k == "push":
            order.append("new")
            pushes.append(t)
        elif k in ("vinsert", "push_front"):
            order.insert(0, "new")
            pushes.append(t)
        elif k in ("reverse", "sort"):
            order.append("old" if False else "sorted")
        else:
            R.unk("Mark.cases:list", "the list is changed by " + k)
            return
    if order.count("new") != 1:
        R.bad("Mark.cases:lost", q, "%d case specifications are recorded by one decorator (%s)" % (order.count("new"), brief(x.conds)))
        return
    if "sorted" in order:
        R.bad("Mark.cases:order", q, "the recorded cases are put in another order")
        return
    if "old" in order and order.index("old") > order.index("new"):
        R.bad("Mark.cases:order", q, "the newest cases come before the earlier ones")
    if "old" not in order and h is not False:
        R.bad("Mark.cases:earlier", q, "the cases recorded before are lost (%s)" % brief(x.conds))
    if order.count("old") > 1:
        R.bad("Mark.cases:repeated", q, "the cases recorded before are repeated")
    spec(R, e, x, q, pushes[0])


def recorded(t):
    """The case specifications made by the decorator in what it records."""
    return [y for y in walk(t) if y.t == "agg" and "argnames" in dict(y.a[2])]


def spec(R, e, x, q, t):
    for f in ("argnames", "argvalues", "ids"):
        v = rows.project(t, f)
        if v is None:
            R.unk("Mark.cases:spec", "a case specification " + show(t)[:100])
            return
        p = mk("param", f)
        if v is p:
            if f == "argnames" and any(k.t == "op" and k.a[0] == "isinstance" and k.a[1] is p and b is True for k, b in x.conds.items()):
                continue
            R.bad("Mark.cases:unread:" + f, q, "%s is kept as given: a one-shot iterable would be empty at its second use" % f)
            continue
        w = strip(v)
        if w is p:
            # read when the decorator is made, not each time it is applied
            ev = list(x.ev)
            before = ev[:[i for i, y in enumerate(ev) if y.a[0] == "applied"][0]]
            if not made_before(e, x, v):
                R.bad("Mark.cases:read:" + f, q, "%s is read each time the decorator is applied: a one-shot iterable would be empty at its second use" % f)
            continue
        if isc(w) and cval(w) is None:
            if f == "ids" and any(k.t == "op" and k.a[0] in ("isnone",) and k.a[1] is p and b is True for k, b in x.conds.items()):
                continue
            if f == "ids" and any(k.t == "op" and contains(k, lambda y: y is p) for k in x.conds):
                continue
            R.bad("Mark.cases:dropped:" + f, q, "%s is not recorded (%s)" % (f, brief(x.conds)))
            continue
        if not contains_src(e, w, p):
            R.bad("Mark.cases:dropped:" + f, q, "%s of a case specification is %s" % (f, show(w)[:80]))
        elif f == "argvalues" and contains(w, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice", "call:itertools.islice", "call:set", "call:frozenset", "call:dict.fromkeys")):
            R.bad("Mark.cases:part", q, "only a part of the values is recorded: " + show(w)[:80])
        elif f == "argvalues":
            try:
                b = rows.base(e, w)
                if b is not p and not (b.t == "op" and contains(b, lambda y: y is p)):
                    R.unk("Mark.cases:values", "the values recorded are " + show(w)[:80])
            except rows.Bad as m:
                R.bad("Mark.cases:part", q, "only a part of the values is recorded: " + str(m))
            except Unk as m:
                R.unk("Mark.cases:values", str(m))


def contains_src(e, t, p):
    if contains(t, lambda y: y is p):
        return True
    for y in walk(t):
        if y.t == "o" and y.a[0] == "loop":
            s, _ = pyc.nextkey(e, y.a[1])
            if s is not None and contains(s, lambda z: z is p):
                return True
            for c in e.loops[y.a[1]].conts:
                if any(contains(u, lambda z: z is p) for u in c.upd.values()):
                    return True
    return False


def made_before(e, x, v):
    """The materialised value is held by a variable of the factory (or in an object such a variable holds)."""
    depth = {}
    for (fid, name), val in x.env.items():
        if not isinstance(val, N) or not isinstance(name, str):
            continue
        fr = fid
        t = e.freeze(x, val)
        if t is TARGET:
            continue
        depth.setdefault(fid, []).append((name, t))
    inner = {fid for fid, vs in depth.items() if any(False for _ in vs)}
    # frames that see the decorated object are those of the application
    app = {fid for (fid, name), val in x.env.items() if isinstance(val, N) and val is TARGET}
    for fid, vs in depth.items():
        if fid in app:
            continue
        if any(contains(t, lambda y: y is v) for _, t in vs):
            return True
    return False


def skip(R, e, x, q):
    sets, other = attrs(e, x)
    foreign(R, x, q, other)
    d = dict(sets)
    f = d.get("__rtest_skip__")
    if f is None:
        R.bad("Mark.skip:flag", q, "the skip flag is not set on the object (%s)" % brief(x.conds))
    elif not (isc(f) and bool(cval(f))):
        R.bad("Mark.skip:flag", q, "the skip flag is set to " + show(f)[:60])
    w = d.get("__rtest_skip_reason__")
    if w is not None and contains(w, lambda y: y.t == "op" and y.a[0] in ("pyslice", "m:strip", "m:lower", "m:upper", "m:replace", "m:split", "m:splitlines", "m:title", "m:capitalize", "m:rstrip", "m:lstrip", "call:textwrap.shorten")):
        R.bad("Mark.skip:reason", q, "the reason recorded is " + show(w)[:60])
    elif w is None or not contains(w, lambda y: y.t == "param" and y.a[0] == "reason"):
        if w is not None and any(k.t == "op" and contains(k, lambda y: y.t == "param" and y.a[0] == "reason") for k in x.conds):
            R.unk("Mark.skip:reason", "the reason recorded is " + show(w)[:60])
        else:
            R.bad("Mark.skip:reason", q, "the reason of a skip is not recorded (%s)" % brief(x.conds))
    for n in d:
        if n == "__rtest_cases__":
            if not old(strip(d[n]), n):
                R.bad("Mark.skip:other", q, "the cases of the object are set to " + show(d[n])[:60])
        elif n not in MARKS:
            R.unk("Mark.skip:attributes", "the attribute %s is set" % n)
