"""C15: one run per combination of the case lists, with the arguments of its combination."""
from .. import pyc, pycases, rows
from ..mir import dnf
from ..pyc import Unk, Sources, brief, strip
from ..rows import Bad
from ..pyx import VECNEW
from ..terms import *
from . import c30

EXP = pyc.MARK + "expand_parametrize"
ONE = pyc.MARK + "_expand_single_spec"
GET = pyc.MARK + "_get_parametrize_specs"


def is_call(t, name):
    return t.t == "op" and t.a[0] == "py:" + name


def check(R):
    R.rule("The lists of cases are followed through the loops that build them: one expanded case per element of the product of all expanded decorators, one entry per value of a decorator, arguments bound by name only where the lengths are known equal, one test per expanded case.")
    for fn, f in ((EXP, expand), (ONE, single), (GET, specs)):
        r = pyc.analyse(R, fn, must=False)
        if r is None:
            continue
        n = len(R.bads), len(R.unks)
        f(R, r)
        if n == (len(R.bads), len(R.unks)):
            R.ok(fn.split(":")[1], "%d paths" % len(r.rets))
    r, out = c30.applied(R, pyc.MARK + "Mark.cases")
    n = len(R.bads), len(R.unks)
    for status, x in out:
        if status[0] == "ret":
            c30.cases(R, r.e, x, pyc.MARK + "Mark.cases")
            for _, w in c30.attrs(r.e, x)[0]:
                for term in c30.recorded(w):
                    guard(R, pyc.MARK + "Mark.cases", names, r.e, term, None)
    if r is not None and n == (len(R.bads), len(R.unks)):
        R.ok("decorator", "every decorator records its cases after the earlier ones")
    n = len(R.bads), len(R.unks)
    tests(R)
    if n == (len(R.bads), len(R.unks)):
        R.ok("tests", "one test per expanded case")


def guard(R, fn, f, *a):
    try:
        return f(*a)
    except Bad as b:
        R.bad(fn.split(":")[1] + ":" + b.key, fn, str(b))
    except Unk as u:
        R.unk(fn.split(":")[1], str(u))
    return None


# ---- expand_parametrize ----
def expand(R, r):
    none = 0
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        v = r.e.freeze(x, status[1])
        for conds in dnf(x.conds, x.groups, 64):
            k = guard(R, EXP, expand_path, R, r.e, x, v, conds)
            none += k == "none"
    R.floor("paths for a test without cases", none, 1, EXP)


def spec_list(e, t, conds):
    """The collections of specs that a list holds."""
    t = strip(t)
    if is_call(t, "_get_parametrize_specs"):
        return [t]
    if t is VECNEW:
        return []
    if t.t == "mut" and t.a[0] is VECNEW:
        out = []
        for o in t.a[1:]:
            if o.a[0] in ("sort", "reverse"):
                continue
            if o.a[0] == "extend":
                out += spec_list(e, o.a[1], conds)
            elif o.a[0] == "loop":
                r = rows.rowlist(e, mk("mut", VECNEW, o))
                if all(v.t == "elem" and v.a[1] == r.L for _, v in r.rows):
                    out += spec_list(e, rows.unseq(r.src), conds)
                else:
                    raise Unk("specs changed in a loop")
            else:
                raise Unk("specs changed by " + o.a[0])
        return out
    if t.t == "op" and t.a[0] in ("add", "call:itertools.chain", "concat"):
        return [s for y in t.a[1:] for s in spec_list(e, y, conds)]
    if t.t == "op" and t.a[0] in ("pyslice", "islice"):
        raise Bad("part", "only a part of the decorators is used: " + show(t)[:80])
    if t.t == "tup" and not t.a:
        return []
    raise Unk("specs " + show(t)[:100])


def expand_path(R, e, x, v, conds):
    cls = None
    for k, b in conds.items():
        if k.t == "op" and k.a[0] == "isnone" and k.a[1].t == "param" and "class" in str(k.a[1].a[0]):
            cls = not b
        elif k.t == "op" and k.a[0] == "truth" and k.a[1].t == "param" and "class" in str(k.a[1].a[0]):
            cls = b
    v = strip(v)
    ops = v.a[1:] if v.t == "mut" and v.a[0] is VECNEW else None
    if ops is None and v is not VECNEW:
        raise Unk("the result " + show(v)[:100])
    if v is VECNEW or all(o.a[0] == "push" for o in ops):
        # no loop: the cases of a test without decorators
        n = 0 if v is VECNEW else len(ops)
        gone = set()
        for k, b in conds.items():
            t = None
            if k.t == "op" and (k.a[0] == "is_empty" and b is True or k.a[0] == "truth" and b is False):
                t = k.a[1]
            elif k.t == "op" and (k.a[0] == "eq" and b is True or k.a[0] == "lt" and b is (k.a[1].t != "op" and cval(k.a[1]) != 0)) and any(isc(y) and cval(y) in (0, 1) for y in k.a[1:]):
                t = next((y.a[1] for y in k.a[1:] if y.t == "op" and y.a[0] == "len"), None)
            elif k.t == "next" and b is False:
                t = strip(k.a[0])
                t = t.a[0] if t.t == "seq" else t
            if t is None:
                continue
            try:
                gone |= {str(c.a[1].a[0]) for c in spec_list(e, t, conds) if c.a[1].t == "param"}
            except Unk:
                pass
        empty = any("class" not in g for g in gone) and (cls is not True or any("class" in g for g in gone))
        if not empty:
            raise Bad("constant", "a fixed list of %d cases is returned although there may be decorators (%s)" % (n, brief(conds)))
        if n != 1:
            raise Bad("none:count", "a test without cases is expanded to %d runs" % n)
        kw = rows.project(ops[0].a[-1], "kwargs") or rows.project(ops[0].a[-1], "1")
        if kw is None:
            raise Unk("the case of a test without decorators: " + show(ops[0].a[-1])[:80])
        if not (kw.t == "op" and kw.a[0] == "map_new"):
            raise Bad("none:arguments", "a test without cases gets the arguments " + show(kw)[:80])
        return "none"
    loops = []
    b = rows.base(e, v, loops)
    if not rows.exhausts(x, loops):
        raise Bad("early", "the expansion stops early (%s)" % brief(conds))
    lst = product_of(e, b)
    r = rows.rowlist(e, lst)
    if r is None:
        raise Unk("the product is taken over " + show(lst)[:100])
    for c, w in r.rows:
        if not (is_call(w, "_expand_single_spec") and len(w.a) == 2 and w.a[1].t == "elem" and w.a[1].a[1] == r.L):
            raise Unk("the product is taken over " + show(w)[:100])
    sb = rows.base(e, lst, loops)
    if not rows.exhausts(x, loops):
        raise Bad("early", "the expansion stops early (%s)" % brief(conds))
    calls = spec_list(e, sb, conds)
    args = [c.a[1] for c in calls]
    params = [str(a.a[0]) for a in args if a.t == "param"]
    if len(params) != len(args):
        raise Unk("specs of " + show(args)[:100])
    if not any("class" not in p for p in params):
        raise Bad("specs:function", "the decorators of the test itself are not used (%s)" % brief(conds))
    if cls is True and not any("class" in p for p in params):
        raise Bad("specs:class", "the decorators of the class are not used (%s)" % brief(conds))
    if len(set(params)) != len(params):
        raise Bad("specs:twice", "the decorators of one object are used twice")
    # the arguments of each case
    top = rows.rowlist(e, v)
    for c, w in top.rows:
        kw = rows.project(w, "kwargs") or rows.project(w, "1")
        if kw is None:
            raise Unk("an expanded case " + show(w)[:80])
        for chain, k in rows.resolve(e, kw):
            merged(e, k, b)
    return "cases"


def product_of(e, b):
    if b.t == "product":
        if len(b.a) == 1 and b.a[0].t == "star":
            return b.a[0].a[0]
        raise Unk("a product of " + show(b)[:100])
    if b.t == "zip" or b.t == "op" and b.a[0] in ("zip", "call:zip", "call:itertools.zip_longest"):
        raise Bad("product", "the decorators are paired up instead of combined: " + show(b)[:80])
    if b.t == "op" and b.a[0] in ("call:itertools.chain", "call:itertools.combinations", "call:itertools.permutations", "call:itertools.chain.from_iterable"):
        raise Bad("product", "the decorators are not combined: " + show(b)[:80])
    if b.t == "op" and b.a[0] in ("pyslice", "islice", "call:itertools.islice"):
        raise Bad("part", "only a part of the combinations is used: " + show(b)[:80])
    if is_call(b, "_get_parametrize_specs") or is_call(b, "_expand_single_spec"):
        raise Bad("product", "the decorators are not combined")
    raise Unk("cases made from " + show(b)[:100])


def combo_elem(t, b):
    """t is the current combination: an element of the product b."""
    return t.t == "elem" and (rows.unseq(t.a[0]) is b or t.a[0] is b)


def merged(e, k, b):
    """The arguments k are those of all cases of the combination and nothing else."""
    if k.t != "mut":
        if k.t == "op" and k.a[0] == "map_new":
            raise Bad("arguments", "a case is given no arguments")
        raise Unk("the arguments of a case: " + show(k)[:100])
    if not (k.a[0].t == "op" and k.a[0].a[0] == "map_new"):
        raise Bad("arguments:shared", "the arguments of one combination reach the next: " + show(k)[:100])
    got = 0
    for o in k.a[1:]:
        if o.a[0] != "loop":
            raise Unk("the arguments of a case are changed by " + o.a[0])
        rec = e.loops[o.a[1]]
        src, stages = pyc.nextkey(e, o.a[1])
        if src is None or stages:
            raise Unk("the arguments of a case: " + show(k)[:100])
        s = src.a[0] if src.t == "seq" else src
        if not combo_elem(s, b):
            if s.t == "op" and s.a[0] in ("pyslice", "islice") and combo_elem(s.a[1], b):
                raise Bad("arguments:part", "only the arguments of some decorators are used")
            raise Unk("arguments collected over " + show(s)[:100])
        if any(x[0][0] == "exit" and x[0][1] != 0 for x in rec.exits):
            raise Bad("arguments:part", "the arguments of some decorators are left out")
        for c in rec.conts:
            u = c.upd.get(o.a[2])
            lv = rec.lv[o.a[2]]
            if u is None or u is lv:
                raise Bad("arguments:part", "the arguments of a decorator are left out (%s)" % brief(c.conds))
            if u.t != "mut" or u.a[0] is not lv:
                if not contains(u, lambda y: y is lv):
                    raise Bad("arguments:part", "the arguments of one decorator replace those of another")
                raise Unk("the arguments of a case are rebuilt: " + show(u)[:100])
            for p in u.a[1:]:
                if p.a[0] == "extend":
                    kwargs_of(p.a[1], o.a[1])
                elif p.a[0] == "loop":
                    inner(e, p, o.a[1])
                elif p.a[0] in ("insert", "set"):
                    raise Unk("an argument of its own: " + show(p)[:80])
                else:
                    raise Unk("the arguments of a case are changed by " + p.a[0])
            got += 1
    if not got:
        raise Bad("arguments", "a case is given no arguments")


def kwargs_of(t, L):
    if t.t in ("map_items", "map_iter"):
        t = t.a[0]
    if t.t == "op" and t.a[0] in ("m:items", "items", "m:copy", "call:dict"):
        t = t.a[1]
    if not (t.t == "op" and t.a[0] in (".kwargs", ".1") and t.a[1].t == "elem" and t.a[1].a[1] == L):
        raise Unk("arguments taken from " + show(t)[:80])


def inner(e, o, L):
    rec = e.loops[o.a[1]]
    src, stages = pyc.nextkey(e, o.a[1])
    if src is None or stages:
        raise Unk("arguments collected in a loop")
    s = src.a[0] if src.t in ("seq", "map_iter") else src
    kwargs_of(s, L)
    for c in rec.conts:
        u = c.upd.get(o.a[2])
        lv = rec.lv[o.a[2]]
        if any(k.t == "op" and k.a[0] == "contains" and b is True and contains(k.a[1], lambda y: y is lv) for k, b in c.conds.items()):
            continue            # two decorators declare the same name
        if u is None or u is lv:
            raise Bad("arguments:part", "an argument is left out (%s)" % brief(c.conds))
        if u.t != "mut" or u.a[0] is not lv or any(x.a[0] not in ("insert", "set") for x in u.a[1:]):
            raise Unk("arguments collected by " + show(u)[:80])
        item = mk("elem", src, o.a[1])
        own = [op(f, x) for x in {y for y in walk(u) if y.t == "elem" and y.a[1] == o.a[1]} | {item} for f in (".1",)]
        for x in u.a[1:]:
            v = x.a[2]
            if v in own or v.t == "op" and v.a[0] == "index":
                continue
            if not any(contains(v, lambda y: y is z) for z in own):
                if isc(v):
                    raise Bad("arguments:value", "an argument is given the value %s" % show(v)[:60])
                raise Unk("an argument is " + show(v)[:80])
            if v.t == "mut" and any(y.t == "o" and y.a[0] in ("insert", "set", "push") and len(y.a) > 1 and isc(y.a[1]) for y in v.a[1:]):
                raise Bad("arguments:value", "a value is given to the test with something added: " + show(v)[:80])
            raise Unk("an argument is " + show(v)[:80])


# ---- _expand_single_spec ----
def single(R, r):
    n = raises = 0
    for status, x in r.rets:
        if status[0] == "raise":
            raises += 1
            continue
        if status[0] == "ret":
            n += bool(guard(R, ONE, single_path, R, r.e, x, r.e.freeze(x, status[1])))
    R.count("returning paths of _expand_single_spec", n)


def single_path(R, e, x, v):
    loops = []
    if strip(v) is VECNEW:
        raise Bad("none", "a decorator is expanded to nothing (%s)" % brief(x.conds))
    b = rows.base(e, v, loops)
    if not rows.exhausts(x, loops):
        raise Bad("early", "the values are not all used (%s)" % brief(x.conds))
    if not (b.t == "op" and b.a[0] == ".argvalues" and b.a[1].t == "param"):
        if b.t == "op" and b.a[0] in ("pyslice", "islice", "call:itertools.islice"):
            raise Bad("part", "only a part of the values is used")
        if b.t == "zip" or b.t == "op" and b.a[0] in ("zip", "call:zip", "call:set", "call:dict.fromkeys"):
            raise Bad("part", "the values are cut to the shorter list, or merged: " + show(b)[:80])
        if b.t == "op" and b.a[0] == ".ids":
            raise Bad("part", "there is one case per id instead of one per value")
        raise Unk("cases made from " + show(b)[:100])
    top = rows.rowlist(e, v)
    for st in top.stages:
        if st.t == "zip":
            # the list zipped with must be as long as the values
            for y in st.a[0].a[:1] if st.a and isinstance(st.a[0], N) else ():
                t = rows.unseq(y)
                if contains(t, lambda z: z.t == "op" and z.a[0] == ".ids") and not is_call(t, "_deduplicate_ids"):
                    raise Bad("part", "the values are cut to the number of ids")
    spec = b.a[1]
    names = op(".argnames", spec)
    seen = set()
    for c, w in top.rows:
        kw = rows.project(w, "kwargs") or rows.project(w, "1")
        if kw is None:
            raise Unk("an expanded case " + show(w)[:80])
        for chain, k in rows.resolve(e, kw):
            for d in dnf(c.conds, c.groups, 64):
                seen.add(bound(R, e, k, names, b, dict(d)))
    if "one" not in seen:
        raise Unk("no case for a single argument")
    return True


def value_elem(t, b):
    return t.t == "elem" and rows.unseq(t.a[0]) is b or t.t == "op" and t.a[0] == "index" and t.a[1] is b and t.a[2].t == "idx"


def bound(R, e, k, names, b, conds):
    """The arguments k of one value bind each name to its value."""
    if k.t == "op" and k.a[0] == "map_new":
        raise Bad("arguments", "a case is given no arguments (%s)" % brief(conds))
    if k.t == "op" and k.a[0] == "call:dict" and len(k.a) == 2 and isinstance(k.a[1], N) and k.a[1].t == "zip":
        k = mk("mut", op("map_new"), mk("o", "extend", k.a[1]))
    if k.t != "mut" or len(k.a) != 2:
        if k.t == "mut" and len(k.a) > 2 and k.a[0].t == "op" and k.a[0].a[0] == "map_new":
            raise Unk("the arguments of a value: " + show(k)[:100])
        raise Unk("the arguments of a value: " + show(k)[:100])
    if not (k.a[0].t == "op" and k.a[0].a[0] == "map_new"):
        raise Bad("arguments:shared", "the arguments of one value reach the next: " + show(k)[:100])
    o = k.a[1]
    if o.a[0] in ("insert", "set"):
        key, val = o.a[1], o.a[2]
        if not (key.t == "op" and key.a[0] in ("index", ".0") and key.a[1] is names):
            raise Unk("an argument named " + show(key)[:80])
        if not value_elem(val, b):
            if val.t == "op" and val.a[0] == "index" and value_elem(val.a[1], b):
                raise Bad("arguments:value", "a single argument is given a part of its value")
            raise Unk("a single argument is given " + show(val)[:80])
        n = known_len(conds, names)
        if n is not None and n != 1:
            raise Bad("arguments:names", "one of %s names is given the whole value" % n)
        if n is None and not any(k2.t == "op" and contains(k2, lambda y: y is names) and b2 is not None for k2, b2 in conds.items()):
            raise Bad("arguments:names", "one name is bound whatever the number of names")
        return "one"
    z = None
    if o.a[0] == "extend":
        z = o.a[1]
    elif o.a[0] == "loop":
        rec = e.loops[o.a[1]]
        src, stages = pyc.nextkey(e, o.a[1])
        zs = [s for s in stages if s.t == "zip"]
        if src is None or len(zs) != 1 or len(stages) != 1:
            raise Unk("arguments bound in a loop: " + show(src)[:80])
        for c in rec.conts:
            u = c.upd.get(o.a[2])
            if u is None or u is rec.lv[o.a[2]]:
                raise Bad("arguments:part", "an argument is left out (%s)" % brief(c.conds))
            if u.t != "mut" or len(u.a) != 2 or u.a[1].a[0] not in ("insert", "set"):
                raise Unk("arguments bound by " + show(u)[:80])
            a, d = u.a[1].a[1:3]
            if a.t != "elem" or d.t != "elem":
                raise Unk("arguments bound by " + show(u)[:80])
            z = mk("zip", rows.unseq(a.a[0]), rows.unseq(d.a[0]))
            if contains(zs[0], lambda y: isc(y) and cval(y) is True):
                return "many"
        if z is None:
            raise Unk("arguments bound in a loop")
    if z is None or z.t != "zip" and not (z.t == "op" and z.a[0] in ("zip", "call:zip")):
        raise Unk("the arguments of a value: " + show(k)[:100])
    parts = [a for a in (z.a if z.t == "zip" else z.a[1:])]
    strict = any(not isinstance(p, N) and p for p in parts) or contains(z, lambda y: y.t == "c" and cval(y) is True) or "strict" in show(z)
    parts = [rows.unseq(p) for p in parts if isinstance(p, N)]
    if len(parts) < 2 or parts[0] is not names:
        raise Unk("arguments bound by " + show(z)[:100])
    if not value_elem(parts[1], b):
        raise Unk("arguments bound to " + show(parts[1])[:100])
    val = parts[1]
    eqs = [(k2, v2) for k2, v2 in conds.items() if k2.t == "op" and k2.a[0] == "eq" and contains(k2, lambda y: y is val)]
    if not strict and not any(v2 is True and length_eq(k2, val, names, conds) for k2, v2 in eqs):
        raise Bad("arguments:length", "a value is cut to the number of names, or the names to the value: the lengths are not known to be equal (%s)" % brief(conds))
    ty = [v2 for k2, v2 in conds.items() if k2.t == "op" and k2.a[0] == "isinstance" and k2.a[1] is val]
    if True not in ty:
        raise Bad("arguments:type", "a value that need not be a tuple or a list is taken apart (%s)" % brief(conds))
    return "many"


def length_eq(k, val, names, conds):
    a, b = k.a[1], k.a[2]
    def ln(t, of):
        return t.t == "op" and t.a[0] == "len" and t.a[1] is of
    if ln(a, val) and ln(b, names) or ln(a, names) and ln(b, val):
        return True
    # compared with a constant that the number of names is known to be
    for p, q in ((a, b), (b, a)):
        if ln(p, val) and isc(q) and known_len(conds, names) == cval(q):
            return True
    return False


def known_len(conds, t):
    for k, v in conds.items():
        if k.t == "op" and k.a[0] == "eq" and v is True:
            for p, q in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if p.t == "op" and p.a[0] == "len" and p.a[1] is t and isc(q):
                    return cval(q)
    return None


# ---- _get_parametrize_specs ----
def own_marks(t):
    return t.t == "op" and (t.a[0] == ".__rtest_cases__" or t.a[0] == "getattr" and len(t.a) > 2 and isc(t.a[2]) and cval(t.a[2]) == "__rtest_cases__")


def specs(R, r):
    own = pm = 0
    for status, x in r.rets:
        if status[0] != "ret":
            continue
        v = r.e.freeze(x, status[1])
        res = guard(R, GET, specs_path, R, r.e, x, v)
        own += res == "own"
        pm += res == "pytest"
    if not own and not any(k.startswith("_get_parametrize_specs") for k in [u for u, _ in R.unks]):
        R.bad("_get_parametrize_specs:own", GET, "the cases recorded by rtest's decorator are never returned")


def specs_path(R, e, x, v):
    has = None
    for k, b in x.conds.items():
        if k.t == "op" and k.a[0] in ("truth", "is_empty") and (own_marks(k.a[1]) or contains(k.a[1], own_marks)):
            has = b if k.a[0] == "truth" else not b
        if k.t == "op" and k.a[0] == "hasattr" and isc(k.a[2]) and cval(k.a[2]) == "__rtest_cases__" and not b:
            has = False
    t = strip(v)
    if own_marks(t):
        return "own"
    if contains(t, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice") and contains(y, own_marks)):
        raise Bad("part", "only a part of the decorators is used")
    if has is True:
        if contains(t, own_marks):
            for term, nest in Sources(e).of(t):
                if term.t == "each" and own_marks(strip(term.a[0])) and not nest:
                    return "own"
        raise Bad("own", "the cases recorded by rtest's decorator are not returned (%s)" % brief(x.conds))
    src = Sources(e)
    for term, nest in src.of(t):
        if term.t == "each" and own_marks(strip(term.a[0])):
            continue
        if term.t in ("each", "part"):
            raise Unk("specs " + show(term)[:80])
        for f in ("argnames", "argvalues"):
            if rows.project(term, f) is None:
                raise Unk("a spec " + show(term)[:80])
    # one spec per parametrize mark
    for L in set(src.loops) | {k.a[0] for k, b in x.conds.items() if k.t == "exit" and b != 0}:
        rec = e.loops[L]
        s, stages = pyc.nextkey(e, L)
        if s is None or not contains(s, lambda y: y.t == "op" and (y.a[0] == ".pytestmark" or y.a[0] == "getattr" and isc(y.a[2]) and cval(y.a[2]) == "pytestmark")):
            continue
        for k, b in x.conds.items():
            if k.t == "exit" and k.a[0] == L and b != 0:
                raise Bad("marks:early", "the parametrize marks after the first are not used (%s)" % brief(x.conds))
        for i, c in enumerate(rec.conts):
            n = src.level.get((L, i), 0)
            for d in dnf(c.conds, c.groups, 64):
                name = None
                for k, b in d.items():
                    if k.t == "op" and k.a[0] == "eq" and any(isc(y) and cval(y) == "parametrize" for y in k.a[1:]):
                        name = b
                if name is True and n == 0:
                    raise Bad("marks:dropped", "a parametrize mark is passed over (%s)" % brief(d))
                if name is True and n > 1:
                    raise Bad("marks:repeated", "a parametrize mark gives %d specs" % n)
                if name is False and n:
                    raise Bad("marks:other", "another mark than parametrize gives cases")
    pushed(e, t)
    return "pytest"


def names(e, term, conds):
    """Argument names given as one string lose the spaces around them."""
    a = rows.project(term, "argnames")
    if a is None:
        return
    r = rows.rowlist(e, a)
    src = rows.unseq(r.src if r is not None else a)
    if not (src.t == "op" and src.a[0] == "m:split" and len(src.a) > 2 and isc(src.a[2])):
        return
    if cval(src.a[2]) != ",":
        raise Bad("names", "argument names are split at %r" % (cval(src.a[2]),))
    for w in [w for c, w in r.rows] if r is not None else [mk("elem", src, 0)]:
        if w.t == "elem" and not contains(src.a[1], lambda y: y.t == "op" and y.a[0] in ("m:replace", "call:re.sub", "m:translate")):
            raise Bad("names", "the spaces round the argument names of a string are not removed")


def pushed(e, t):
    """The values of a mark reach its spec whole."""
    for term, nest in Sources(e).of(t):
        names(e, term, None)
        a = rows.project(term, "argvalues")
        if a is None:
            continue
        conds = {}
        for L, i in nest:
            conds.update(e.loops[L].conts[i].conds)
        w = strip(a)
        if w is VECNEW or w.t == "tup" and not w.a:
            # only where the mark has no values
            if any(k.t == "op" and k.a[0] == "isinstance" for k in conds) and not any(k.t == "op" and k.a[0] in ("hasattr",) for k in conds):
                raise Bad("marks:values", "the values of a mark are dropped unless they are of a certain type (%s)" % brief(conds))
            continue
        if contains(w, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice", "call:itertools.islice", "call:set", "call:frozenset")):
            raise Bad("marks:values", "only a part of the values of a mark is used: " + show(w)[:80])


# ---- the tests ----
def tests(R):
    cs = pycases.cases(R)
    if cs is None:
        return
    loops = {}
    for c in cs:
        if c.expand is None:
            part = [k for L, i in c.nest for k in [pyc.nextkey(c.e, L)[0]] if k is not None and contains(k, lambda y: y.t == "op" and y.a[0] in ("pyslice", "islice", "call:itertools.islice") and contains(y, lambda z: is_call(z, "expand_parametrize")))]
            if part:
                R.bad("tests:part", pycases.FN, "only a part of the expanded cases of a test is run: " + show(part[0])[:80])
                continue
            R.unk("tests", "a test that no expanded case is for: " + show(c.f.get("nodeid", c.f["func"]))[:80])
            continue
        call, L = c.expand
        kw = c.f.get("kwargs")
        if kw is None or kw.t == "op" and kw.a[0] == "map_new":
            R.bad("tests:arguments", pycases.FN, "a test is not given the arguments of its case")
        elif not (kw.t == "op" and kw.a[0] in (".kwargs", ".1") and kw.a[1].t == "elem" and kw.a[1].a[1] == L):
            k2 = strip(kw)
            if kw.t == "op" and kw.a[0] in ("call:dict", "m:copy") and contains(kw, lambda y: y.t == "op" and y.a[0] in (".kwargs", ".1") and y.a[1].t == "elem" and y.a[1].a[1] == L):
                pass
            elif kw.t == "mut" and len(kw.a) == 2 and kw.a[1].a[0] == "extend" and kw.a[0].t == "op" and contains(kw.a[1], lambda y: y.t == "op" and y.a[0] in (".kwargs", ".1")):
                pass
            else:
                R.unk("tests:arguments", "the arguments of a test: " + show(kw)[:80])
        if call.a[1] is not c.f["func"]:
            R.bad("tests:function", pycases.FN, "a test runs %s with the cases of %s" % (show(c.f["func"])[:60], show(call.a[1])[:60]))
        if c.cls is not None and (len(call.a) < 3 or call.a[2] is not c.cls):
            R.bad("tests:class", pycases.FN, "the cases of the class are not used for its methods")
        loops.setdefault(L, []).append(c)
    for L, xs in loops.items():
        rec = xs[0].e.loops[L]
        for i, cont in enumerate(rec.conts):
            n = xs[0].level.get((L, i), 0)
            if n != 1:
                R.bad("tests:count", pycases.FN, "%d tests are made for an expanded case (%s)" % (n, brief(cont.conds)))
        for kind, conds, ev, groups in rec.exits:
            if kind[0] == "exit" and kind[1] != 0:
                R.bad("tests:early", pycases.FN, "the cases of a test are not all used (%s)" % brief(conds))
    R.count("tests made in discovery", len(cs))
