"""Where the Rust code can panic, and whether the conditions that hold there exclude it."""
import itertools, json, re
from . import ctx, mir
from .numbers import NoValue
from .terms import *

BIG = 1 << 62
ARITH = {"add", "sub", "mul", "div", "rem", "min", "max", "saturating_sub", "div_ceil", "cast", "as", "widen", "saturating_add", "saturating_mul", "clamp"}
BOOL = {"lt", "le", "eq", "not"}
DIV_CEIL = re.compile(r"^call:core::num::<impl \w+>::(div_ceil|clamp|saturating_add|saturating_sub|saturating_mul)$")


class Odd(Exception):
    """A number this analysis does not read."""


def fn_of(t):
    """The function of a call term, without its generic arguments."""
    n = t.a[0] if t.t == "op" else ""
    return n[5:] if n.startswith("call:") else None


def last(t):
    p = fn_of(t)
    return p.split("::")[-1] if p else t.a[0] if t.t == "op" else None


def text(t):
    return cval(t) if isinstance(t, N) and isc(t) and isinstance(cval(t), str) else None


def glob_ok(s):
    """A pattern the glob crate accepts for certain."""
    return "[" not in s and "**" not in s


class View:
    """The numbers of one analysed function."""

    def __init__(self, e):
        self.e = e

    # ---- lengths ----
    def length(self, v, depth=0):
        """The length of a sequence or text, as a number term."""
        e = self.e
        if depth > 12:
            return op("len", v)
        go = lambda x: self.length(x, depth + 1)
        if isc(v) and isinstance(cval(v), str):
            return C(len(cval(v).encode()))
        if v.t == "seq" and len(v.a) == 1:
            return go(v.a[0])
        if v.t == "range":
            return self.norm(op("saturating_sub", v.a[1], v.a[0]))
        if v.t in ("arr", "array", "tup"):
            return C(len(v.a))
        if v.t == "op":
            o = v.a[0]
            if o == "seq_new" or o == "default":
                return C(len(v.a) - 1 if o == "seq_new" else 0)
            if o == "repeat" and len(v.a) == 3:
                return self.norm(v.a[2])
            if o == "slice" and len(v.a) == 3:
                a, b = self.range(v.a[2], go(v.a[1]))
                return self.norm(op("saturating_sub", b, a))
            if o in ("clone", "rev", "sorted"):
                return go(v.a[1])
            if o == "coll" and len(v.a) == 2 and v.a[1].t == "seq":
                return go(v.a[1])
        if v.t == "coll" and len(v.a) == 1:
            return go(v.a[0])
        if v.t in ("map_values", "map_keys", "map_items", "mvals"):
            return op("len", mk("map_items", *v.a))
        if v.t == "mut":
            n = go(v.a[0])
            for x in v.a[1:]:
                d = self.grown(x)
                if d is None:
                    return op("len", v)
                n = d if isc(n) and cval(n) == 0 else op("add", n, d) if not (isc(d) and cval(d) == 0) else n
            return n
        if v.t == "lv":
            rec = e.loops.get(v.a[0])
            pk = v.a[1]
            if rec is not None and rec.ops.get(pk) is not None and all(all(self.inner(x) for x in ops) for ops in rec.ops[pk]):
                return go(rec.init[pk])
        return op("len", v)

    def inner(self, x):
        """The change leaves the number of elements as it was."""
        if x.t != "o":
            return False
        if x.a[0] in ("sort", "reverse", "swap"):
            return True
        if x.a[0] in ("at", "in", "idx", "elem") or isinstance(x.a[0], tuple):
            return True
        if x.a[0] == "loop":
            rec = self.e.loops.get(x.a[1])
            ops = rec and rec.ops.get(x.a[2])
            return bool(ops) and all(all(self.inner(y) for y in o) for o in ops)
        return False

    def grown(self, x):
        """By how much a change makes a sequence longer."""
        if self.inner(x):
            return C(0)
        if x.t == "o" and x.a[0] in ("push", "push_back"):
            return C(1)
        if x.t == "o" and x.a[0] == "loop":
            rec = self.e.loops.get(x.a[1])
            ops = rec and rec.ops.get(x.a[2])
            if ops and all(len([y for y in o if not self.inner(y)]) == 1 and any(y.t == "o" and y.a[0] in ("push", "push_back") for y in o) for o in ops) and not [q for q in rec.exits if q[0] != "done" and False]:
                s = self.steps(rec)
                if s is not None:
                    return s
        return None

    def steps(self, rec):
        """How often a loop runs, when it runs over a whole sequence."""
        try:
            src, stages = ctx.sources(rec)
        except Exception:
            return None
        if src is None or any(st.t not in ("map", "enumerate", "cloned", "copied", "rev", "inspect") for st in stages or ()):
            return None
        if len(rec.exits) > 1:
            return None
        return self.length(src)

    def range(self, r, n):
        """The two ends of a range used as an index into something of length n."""
        if r.t == "range" and len(r.a) >= 2:
            return r.a[0], r.a[1]
        if r.t == "agg":
            f = dict(r.a[2])
            k = r.a[0].split("::")[-1].split("<")[0]
            if k == "Range":
                return f["start"], f["end"]
            if k == "RangeFrom":
                return f["start"], n
            if k == "RangeTo":
                return C(0), f["end"]
            if k == "RangeFull":
                return C(0), n
            if k == "RangeToInclusive":
                return C(0), op("add", f["end"], C(1))
            if k == "RangeInclusive" and "start" in f:
                return f["start"], op("add", f["end"], C(1))
        raise Odd(show(r)[:60])

    # ---- numbers ----
    def norm(self, t):
        """The number with the lengths in it worked out."""
        if t.t != "op":
            return t
        o = t.a[0]
        m = DIV_CEIL.match(o) if isinstance(o, str) else None
        if m:
            return op(m.group(1), *[self.norm(x) for x in t.a[1:]])
        if o == "len" and len(t.a) == 2:
            return self.length(t.a[1])
        if o == "is_empty" and len(t.a) == 2:
            return op("eq", self.length(t.a[1]), C(0))
        if o in ARITH or o in BOOL:
            return op(o, *[self.norm(x) if isinstance(x, N) else x for x in t.a[1:]])
        return t

    def fact(self, k, b):
        """[(number condition, value)] a condition stands for; None when it says something this analysis does not read; [] when it says nothing of use."""
        if k.t == "exit":
            rec = self.e.loops.get(k.a[0])
            return None if rec is not None and len(rec.exits) > 1 else []
        if k.t == "next":
            if not b:
                return []
            src = k.a[0]
            return [(op("lt", C(0), self.length(src)), True)]
        if k.t == "has" and len(k.a) == 2:
            src, i = k.a
            if src.t in ("seq", "range"):
                return [(op("lt", i if isinstance(i, N) else C(i), self.length(src)), b)]
            if src.t == "of:str::chars":
                s = src.a[-1]
                if (cval(i) if isinstance(i, N) and isc(i) else i) == 0:
                    return [(op("lt", C(0), self.length(s)), b)]
                return [(op("lt", i if isinstance(i, N) else C(i), self.length(s)), True)] if b else None
            return None
        if k.t == "op":
            o = k.a[0]
            if o in BOOL or o == "is_empty":
                if o == "eq":
                    for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                        s = text(y)
                        if s is not None:
                            return [(op("eq", self.length(x), C(len(s.encode()))), True)] if b else [(op("eq", self.length(x), C(0)), False)] if s == "" else []
                n = self.norm(k)
                return [(n, b)] if readable(n) else None
            l = last(k)
            if l in ("starts_with", "ends_with", "has_sep", "contains") and len(k.a) == 3:
                s = text(k.a[2])
                if s is not None and b:
                    return [(op("le", C(len(s.encode())), self.length(k.a[1])), True)]
                if l == "contains" and b:
                    return [(op("lt", C(0), self.length(k.a[1])), True)]
                return None
        return None

    def own(self, a):
        """What always holds of an unknown number."""
        if a.t == "idx":
            return [op("lt", a, self.length(a.a[0]))]
        if a.t == "op" and a.a[0] == "len" and a.a[1].t in ("split", "rsplit"):
            return [op("le", C(1), a)]
        if a.t == "elem" and a.a[0].t == "range":
            return [op("le", self.norm(a.a[0].a[0]), a), op("lt", a, self.norm(a.a[0].a[1]))]
        if a.t == "op" and a.a[0] in ("find", "rfind") and len(a.a) == 3:
            s = text(a.a[2])
            return [op("le", op("add", a, C(len(s.encode()) if s else 0 if s == "" else 1)), self.length(a.a[1]))]
        return []


def readable(n):
    """A condition over numbers only."""
    if n.t != "op" or n.a[0] not in BOOL:
        return False
    return all(number(x) for x in n.a[1:])


def number(x):
    if isc(x):
        return isinstance(cval(x), int)
    if x.t == "op" and (x.a[0] in ARITH):
        return all(number(y) for y in x.a[1:] if isinstance(y, N))
    if x.t == "op" and x.a[0] in BOOL:
        return readable(x)
    return True


def atoms_of(n, out):
    if isc(n):
        return out
    if n.t == "op" and (n.a[0] in ARITH or n.a[0] in BOOL):
        for x in n.a[1:]:
            if isinstance(x, N):
                atoms_of(x, out)
    elif n not in out:
        out.append(n)
    return out


def value(t, env):
    if t in env:
        return env[t]
    if isc(t):
        return cval(t)
    if t.t == "op":
        o, xs = t.a[0], t.a[1:]
        if o == "not":
            return not value(xs[0], env)
        if o in ("cast", "as", "widen"):
            return value(xs[0], env)
        v = [value(x, env) for x in xs]
        if o in ("min", "max"):
            return (min if o == "min" else max)(v)
        if o == "clamp":
            return max(v[1], min(v[0], v[2]))
        a, b = v
        if o in ("div", "rem", "div_ceil") and b == 0 or o == "sub" and a < b:
            raise NoValue(o)
        return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a // b, "rem": lambda: a % b, "lt": lambda: a < b, "eq": lambda: a == b, "le": lambda: a <= b,
                "saturating_sub": lambda: max(0, a - b), "saturating_add": lambda: a + b, "saturating_mul": lambda: a * b, "div_ceil": lambda: -(-a // b)}[o]()
    raise Odd(show(t)[:60])


WEAKT = {"fold", "lv", "mut", "after", "popped", "nth"}


def base_of(a):
    """What a number is about."""
    return a.a[1] if a.t == "op" and a.a[0] in ("len", "find", "rfind") else a.a[0] if a.t in ("idx", "elem") else a


# results that hold whatever the outside world has there
OUT = re.compile(r"^(std::fs::(read_to_string|read|read_dir|canonicalize|read_link|File::open|DirEntry::\w+|ReadDir::\w+)|std::io::\w+::read_to_string|toml::(\w+::)*(from_str|Value::get|Value::as_\w+|Map::get|Map<.*>::get|map::Map::get)"
                 r"|serde_json::(\w+::)*(from_str|from_slice|from_reader|Value::get|Value::as_\w+)|std::env::(var|var_os|args|current_dir|current_exe)|std::process::Command::(output|status|spawn)|std::process::Child::\w+"
                 r"|clap::Parser::(try_)?parse(_from)?|std::path::Path::(canonicalize|read_dir|read_link)|walkdir::WalkDir::\w+|std::process::ExitStatus::\w+)$")
GIVEN = {"ran", "tempdir", "joined"}
STEP = re.compile(r"^(\.|pl:|f:|field)")
CUR = STATE = None


def step(x):
    """The value a part of x is taken from."""
    if x.t == "op" and isinstance(x.a[0], str) and STEP.match(x.a[0]) and len(x.a) == 2 and isinstance(x.a[1], N):
        return x.a[1]
    if x.t in ("f", "field", "var"):
        return x.a[0]
    return None


def inner(src):
    """What a source goes through as it is."""
    while isinstance(src, N) and (src.t in ("seq", "coll", "iolines", "lines", "map_items", "map_values", "rev") or src.t == "op" and src.a[0] in ("lines", "iolines", "iter")):
        if src.t == "coll" and src.a[0].t != "seq":
            return None
        src = src.a[1] if src.t == "op" else src.a[0]
    return src


def followed(x, d=0):
    """What a value is, followed through the lists it was gathered in: [(term, facts)]."""
    if d > 20 or CUR is None:
        return [(x, ())]
    memo = CUR.__dict__.setdefault("followed", {})
    if x not in memo:
        memo[x] = [(x, ())]
        memo[x] = follow(x, d)
    return memo[x]


def follow(x, d):
    y = step(x)
    if y is not None:
        out = []
        for w, f in followed(y, d + 1):
            if w.t == "agg":
                name = str(x.a[0])
                v = dict(w.a[2]).get(name[1:]) if name.startswith(".") else None
                out.append((v if v is not None else op(name, w), f))
            elif w is y:
                out.append((x, f))
            else:
                out.append((rebuild(x.t, tuple(w if z is y else z for z in x.a)), f))
        return out
    if x.t != "elem":
        return [(x, ())]
    i = inner(x.a[0])
    if i is None:
        return [(x, ())]
    out = []
    from . import lists
    for w, f in followed(i, d + 1):
        w = inner(w)
        if w is None or w.t != "mut":
            out.append((x if w is i else mk("elem", w, x.a[1]) if w is not None else x, f))
            continue
        try:
            ls, ops = lists.leaves(CUR.e, w)
        except Exception:
            return [(x, ())]
        if any(o.a[0] not in ("sort", "reverse") for o in ops):
            return [(x, ())]
        for v, chain in ls:
            for u, g in followed(v, d + 1):
                out.append((u, f + g + tuple(k for _, c in chain for k in dict(c).items())))
        if len(out) > 64:
            return [(x, ())]
    return out or [(x, ())]


def given_from_outside(x):
    while True:
        if x.t == "param" or x.t == "op" and (fn_of(x) and OUT.match(fn_of(x)) or x.a[0] in GIVEN):
            return True
        y = step(x)
        if y is None and x.t == "elem":
            y = inner(x.a[0])
        if y is None or y is x:
            return False
        x = y


def outside(x):
    """What a value from outside is, followed through the lists it was gathered in: [(term, facts)], or None."""
    return [(w, f) for w, f in followed(x) if given_from_outside(w)] or None


def above(x):
    """A value and all it is a part of."""
    out = [x]
    while True:
        y = step(x)
        if y is None and x.t == "elem":
            y = inner(x.a[0])
        if y is None:
            return out
        out.append(y)
        x = y


def subjects(t):
    """The outside values a term is about, each as far as it is followed."""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            ways = outside(x)
            if ways:
                out.add(x)
            else:
                todo += list(x.a)
    return out


def structural(k, b, given):
    """Conditions that only say how a value was reached."""
    if k.t == "next":
        return True
    if k.t == "discr":
        return b in ("Ok", "Some") and k.a[0] in given or any(op("pl:%s" % b, k.a[0]) is g for g in given)
    if k.t == "exit" and CUR is not None:
        rec = CUR.e.loops.get(k.a[0])
        if rec is None:
            return False
        if len(rec.exits) == 1:
            return True
        # left from within, under conditions that are given on their own
        return isinstance(b, int) and b < len(rec.exits) and STATE is not None and any(q.t == "next" and q.a[2] == k.a[0] and v is True for q, v in rec.exits[b][1].items()) \
            and all(STATE.get(q) == v for q, v in rec.exits[b][1].items() if q.t != "next")
    return False


def touch(k, xs, given):
    """Whether a condition is about one of the outside values."""
    ks = subjects(k)
    if k.t == "exit" and CUR is not None and k.a[0] in CUR.e.loops:
        try:
            ks = subjects(ctx.sources(CUR.e.loops[k.a[0]])[0])
        except Exception:
            return True
    for x in xs:
        up = above(x)
        if any(y in up or x in above(y) for y in ks):
            return True
    return False


def free(x):
    """An outside value that no loop it went through restricts."""
    for w, facts in outside(x) or ():
        ws = set(above(w))
        if not any(touch(k, [w], ws) for k, b in facts if not structural(k, b, ws)):
            return True
    return False


def source(L):
    try:
        return ctx.sources(CUR.e.loops[L])[0]
    except Exception:
        return None


def may_be_empty(src, d=0):
    """Whether nothing excludes that a source has no elements."""
    i = inner(src) if isinstance(src, N) else None
    if i is None or d > 8:
        return False
    for w, _ in followed(i):
        w = inner(w)
        if w is None:
            continue
        if w.t == "mut":
            if w.a[0].t == "op" and w.a[0].a[0] in ("seq_new", "map_new", "set_new") and all(o.a[0] in ("sort", "reverse") or o.a[0] == "loop" and adds_nothing(o.a[1], o.a[2], d) for o in w.a[1:]):
                return True
            continue
        if given_from_outside(w) and free(w) and not any(any(y is w or y is i for y in walk(k)) and not structural(k, b, ()) and k.t not in ("next", "exit") for k, b in (STATE or {}).items()):
            return True
    return False


def adds_nothing(L, pk, d):
    if may_be_empty(source(L), d + 1):
        return True
    from .props.c24 import external
    for c in CUR.e.loops[L].conts:
        u = c.upd.get(pk)
        if u is not None and u.t != "lv" and not any(external(k) for k in c.conds):
            return False
    return True


def may_keep(L, pk, d=0):
    """Whether a loop can leave a value as it was."""
    if d > 6 or CUR is None or L not in CUR.e.loops:
        return False
    if may_be_empty(source(L)):
        return True
    for c in CUR.e.loops[L].conts:
        u = c.upd.get(pk)
        if u is None or u.t == "lv":
            return True
        if u.t == "fold" and may_keep(u.a[0], u.a[1], d + 1):
            i = CUR.e.loops[u.a[0]].init.get(u.a[1])
            if i is not None and i.t == "lv" and i.a[0] == L:
                return True
    return False


def starts_as(a):
    """The number a counter starts with, when its loop can leave it there."""
    if a.t != "fold" or CUR is None or a.a[0] not in CUR.e.loops or not may_keep(a.a[0], a.a[1]):
        return None
    i = CUR.e.loops[a.a[0]].init.get(a.a[1])
    return cval(i) if i is not None and isc(i) else None


def grouped(m):
    """Whether a map holds one entry for each different key of a list from outside."""
    if m.t != "mut" or CUR is None or len(m.a) != 2 or m.a[1].a[0] != "loop" or not (m.a[0].t == "op" and m.a[0].a[0] == "map_new"):
        return False
    L, pk = m.a[1].a[1], m.a[1].a[2]
    src = source(L)
    i = inner(src) if src is not None else None
    if i is None or not given_from_outside(i) or not free(i):
        return False
    us = [c.upd.get(pk) for c in CUR.e.loops[L].conts]
    return all(u is not None and u.t == "mut" and any(y.t == "elem" and y.a[1] == L for o in u.a[1:] for y in walk(o)) for u in us)


def settled(a, v):
    """Whether a number of the state can have this value whatever else holds."""
    if not weak(a):
        return True
    return starts_as(a) == v and v is not None


def gathered(x):
    """What a map holds under one of its keys, put there by a loop."""
    while x.t == "mut" or x.t == "op" and x.a[0] in ("deref", ".1"):
        x = x.a[0] if x.t == "mut" else x.a[1]
    return x.t == "elem" and contains(x.a[0], lambda y: y.t in ("map_values", "map_items") and y.a[0].t == "mut")


def weak(a):
    """A number that depends on more than what was given from outside."""
    if any(y.t == "op" and y.a[0] in ("len", "is_empty") and gathered(y.a[1]) for y in walk(a)):
        return True
    todo = [a]
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo += y
            continue
        if not isinstance(y, N) or fn_of(y) == "clap::Parser::parse_from":
            continue
        if y.t in ("elem", "param") or step(y) is not None or y.t == "op" and (fn_of(y) and OUT.match(fn_of(y)) or y.a[0] in GIVEN):
            if free(y):
                continue
        if y.t in ("map_values", "map_items", "map_keys") and grouped(y.a[0]):
            continue
        todo += y.a
        if y.t in ("fold", "lv", "mut"):
            return True
        p = fn_of(y) if y.t == "op" else None
        if p and not any(p.startswith(q) for q in ("core::str::", "std::path::", "std::str::", "alloc::str", "std::string", "std::ffi::", "walkdir::DirEntry::")):
            return True
    return False


def roots(t):
    """The outside values something is about."""
    return {y for y in walk(t) if y.t in ("param",)} or {t}


MAXENV = 60000


class Site:
    """One construct reached in one state: can it panic there?"""

    def __init__(self, view, conds):
        self.v = view
        self.facts, self.unread = [], []
        for k, b in conds.items():
            r = view.fact(k, b)
            if r is None:
                self.unread.append((k, b))
            else:
                self.facts += r

    def envs(self, *terms, big=False):
        """Every order the numbers in the terms and in the conditions about them can have."""
        atoms = []
        for t in terms:
            atoms_of(t, atoms)
        facts = list(self.facts)
        used, own = [], []
        for _ in range(4):
            n = len(atoms)
            for a in list(atoms):
                for f in self.v.own(a):
                    if (f, True) not in own:
                        own.append((f, True))
                        atoms_of(f, atoms)
            for f in facts:
                if f not in used:
                    ats = atoms_of(f[0], [])
                    if any(a in atoms for a in ats):
                        used.append(f)
                        for a in ats:
                            if a not in atoms:
                                atoms.append(a)
            if len(atoms) == n:
                break
        if not all(number(t) for t in terms):
            raise Odd("a number")
        used += own
        self.atoms = atoms
        cs = {0, 1, 2, 3, 7}
        for t in list(terms) + [u[0] for u in used]:
            for y in walk(t):
                if isc(y) and isinstance(cval(y), int) and not isinstance(cval(y), bool) and 0 <= cval(y) < 1 << 40:
                    cs |= {max(0, cval(y) - 1), cval(y), cval(y) + 1}
        cs = sorted(cs)
        cs.append(2 * cs[-1] + 5)
        if big:
            cs = sorted({0, 1, 2, 3, cs[-1]})
            cs.append(BIG)
        while len(cs) ** len(atoms) > MAXENV and len(cs) > 4:
            cs.pop(len(cs) // 2)
        if len(cs) ** len(atoms) > MAXENV:
            raise Odd("too many numbers")
        for vals in itertools.product(cs, repeat=len(atoms)):
            env = dict(zip(atoms, vals))
            try:
                if all(value(t, env) == b for t, b in used):
                    yield env
            except NoValue:
                continue

    def related(self, bases):
        """Conditions this analysis does not read that are about one of the values."""
        rs = set()
        for x in bases:
            rs |= roots(x)
        return [k for k, _ in self.unread if any(y in rs for y in walk(k))]

    def exact(self, s, n):
        """The text s when it has length n, if a condition gives it away."""
        for k, b in self.unread_all():
            if b is True and k.t == "op" and last(k) in ("starts_with", "ends_with", "has_sep", "contains") and len(k.a) == 3 and k.a[1] is s:
                p = text(k.a[2])
                if p is not None and len(p.encode()) == n:
                    return p
        return None

    def unread_all(self):
        return self.conds.items()

    def impossible(self, env):
        """A text of this length would break a condition."""
        for a in self.atoms:
            if a.t == "op" and a.a[0] == "len" and a in env:
                s = self.exact(a.a[1], env[a])
                if s is None:
                    continue
                for k, b in self.conds.items():
                    if k.t == "discr" and k.a[0].t == "op" and (fn_of(k.a[0]) or "").endswith("glob::Pattern::new") and k.a[0].a[1] is a.a[1] and b == "Err" and glob_ok(s):
                        return True
                    if k.t == "op" and len(k.a) == 3 and k.a[1] is a.a[1] and text(k.a[2]) is not None:
                        p, l = text(k.a[2]), last(k)
                        got = {"starts_with": s.startswith(p), "ends_with": s.endswith(p), "eq": s == p, "has_sep": p in s, "contains": p in s}.get(l)
                        if got is not None and got != b:
                            return True
        return False

    def can(self, pred, *terms, big=False):
        """None: excluded; 'maybe': not known; otherwise an example."""
        unsure = False
        try:
            for env in self.envs(*terms, big=big):
                try:
                    hit = pred(env)
                except NoValue:
                    continue
                if hit and not self.impossible(env):
                    bases = [base_of(a) for a in self.atoms]
                    if not all(settled(a, env[a]) for a in self.atoms) and not self.related(bases):
                        unsure = True
                        continue
                    if self.related(bases):
                        return "maybe"
                    return ", ".join("%s = %s" % (show(a)[:60], "very large" if env[a] == BIG else env[a]) for a in self.atoms) or "always"
        except Odd:
            return "maybe"
        return "maybe" if unsure else None
