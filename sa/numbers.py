"""Terms over numbers, decided over every order the numbers in them can have."""
import itertools
from .terms import *
from .pyc import Unk


class NoValue(Exception):
    pass


def num(t, env):
    """The value of a term over numbers."""
    if t in env:
        return env[t]
    if isc(t):
        return cval(t)
    if t.t == "op":
        o = t.a[0]
        if o == "min":
            return min(num(x, env) for x in t.a[1:])
        if o == "max":
            return max(num(x, env) for x in t.a[1:])
        if o in ("add", "sub", "mul", "div", "rem", "lt", "eq", "le", "saturating_sub", "div_ceil"):
            a, b = (num(x, env) for x in t.a[1:3])
            if o in ("div", "rem", "div_ceil") and b == 0:
                raise NoValue("division by zero")
            if o == "sub" and a < b:
                raise NoValue("below zero")
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a // b, "rem": lambda: a % b, "lt": lambda: a < b, "eq": lambda: a == b,
                    "le": lambda: a <= b, "saturating_sub": lambda: max(0, a - b), "div_ceil": lambda: -(-a // b)}[o]()
        if o == "not":
            return not num(t.a[1], env)
        if o in ("cast", "as", "widen"):
            v = num(t.a[1], env)
            bits = {"u8": 8, "u16": 16}.get(t.a[-1])
            return v % (1 << bits) if bits and type(v) is int else v
        if o.startswith("call:") and o.endswith("::div_ceil") and len(t.a) == 3:
            return num(op("div_ceil", *t.a[1:]), env)
    raise Unk("a number is " + show(t)[:80])


def consts(*ts):
    out = set()
    for t in ts:
        for y in walk(t):
            if isc(y) and isinstance(cval(y), int) and not isinstance(cval(y), bool):
                out |= {max(0, cval(y) - 1), cval(y), cval(y) + 1}
    return out


def grid(atoms, p, t):
    """Every order the atoms can have among themselves and the constants used."""
    seen = {c for c in consts(t, *p) if c < 1 << 40}
    cs = sorted({0, 1, 2, 3, 8, 100} | seen | {3 * c for c in seen})
    cs += [cs[-1] + 7, 40 * cs[-1] + 11]
    for vals in itertools.product(cs, repeat=len(atoms)):
        yield dict(zip(atoms, vals))


def consistent(p, env):
    """The conditions on numbers hold (others are not looked at)."""
    for k, b in p.items():
        if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0].endswith("::cmp") and len(k.a[0].a) == 3:
            try:
                x, y = num(k.a[0].a[1], env), num(k.a[0].a[2], env)
            except (Unk, NoValue):
                continue
            if ("Less" if x < y else "Equal" if x == y else "Greater") != b:
                return False
            continue
        if k.t != "op" or k.a[0] not in ("eq", "lt", "le"):
            continue
        if not all(any(y in env for y in walk(x)) or isc(x) for x in k.a[1:]) or not any(y in env for x in k.a[1:] for y in walk(x)):
            continue
        try:
            if num(k, env) != b:
                return False
        except Unk:
            continue
        except NoValue:
            return False
    return True


def bounded(b, n, p):
    """On path p, does b stay within n (or one)? True, False (some order of the numbers has more), or None (a condition on b is not read)."""
    def inner(t):
        return [y for y in walk(t) if y is not t]
    atoms = [n] + [y for y in walk(b) if y.t == "op" and y.a[0] == "len"]
    if len(atoms) == 1:
        atoms.append(b)
    atoms = list(dict.fromkeys(atoms))
    for k, v in p.items():
        if k.t == "op" and k.a[0] in ("eq", "lt", "le") and any(x in atoms[1:] for y in k.a[1:] for x in walk(y)):
            atoms += [y for x in k.a[1:] for y in walk(x) if y.t == "op" and y.a[0] == "len" and y not in atoms]
    for env in grid(atoms[:4], p, b):
        if not consistent(p, env):
            continue
        try:
            if num(b, env) > max(1, env[n]):
                return False
        except NoValue:
            continue
        except Unk:
            return None
    return True


ARITH = ("min", "max", "add", "sub", "mul", "div", "rem", "lt", "eq", "le", "saturating_sub", "div_ceil", "not", "cast", "as", "widen")


def leaves(t, out):
    if t.t == "op" and t.a[0] in ARITH:
        for x in t.a[1:]:
            if isinstance(x, N):
                leaves(x, out)
    elif not isc(t):
        out.append(t)
    return out


def feasible(p):
    """Some numbers satisfy the path's conditions on numbers (False: none do)."""
    ks = [k for k in p if k.t == "op" and k.a[0] in ("eq", "lt", "le") and any(y.t == "op" and y.a[0] in ("min", "max", "len") for x in k.a[1:] for y in walk(x))
          and all(isc(y) is False or isinstance(cval(y), int) for y in leaves_c(k))]
    if not ks:
        return True
    atoms = list(dict.fromkeys(y for k in ks for y in leaves(k, [])))
    if not atoms or len(atoms) > 4:
        return True
    q = {k: p[k] for k in ks}
    none = {y for k, v in p.items() if k.t == "op" and k.a[0] == "is_empty" and isinstance(v, bool) for y in k.a[1:2]}
    for env in grid(atoms, q, ks[0]):
        if any(mk("op", "len", x) in env and (env[mk("op", "len", x)] == 0) != p[op("is_empty", x)] for x in none if op("is_empty", x) in p):
            continue
        try:
            if all(num(k, env) == v for k, v in q.items()):
                return True
        except NoValue:
            continue
        except Unk:
            return True
    return False


def leaves_c(t):
    return [y for y in walk(t) if isc(y)]
