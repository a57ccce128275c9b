"""Texts and numbers that satisfy the conditions of one state, and what a construct does with them there."""
import itertools, re
from . import ctx, panics
from .panics import fn_of, last, step, subjects, structural, touch, free, above
from .terms import *


class NoAnswer(Exception):
    """A term this evaluation does not read."""


class Fails(Exception):
    """A value that does not exist for this input (the state is not reached)."""


def some(v):
    return ("Some", v)


NONE = ("None",)


def byte(s):
    return s.encode("utf-8", "surrogateescape")


def valid(s):
    return not any(0xDC80 <= ord(c) <= 0xDCFF for c in s)


def need(v, *ts):
    if isinstance(v, bool) and int in ts and bool not in ts or not isinstance(v, ts):
        raise NoAnswer("another kind of value")
    return v


class Eval:
    def __init__(self, e, env):
        self.e, self.env = e, env

    def ev(self, t, d=0):
        if t in self.env:
            return self.env[t]
        if d > 40:
            raise NoAnswer("deep")
        go = lambda x: self.ev(x, d + 1)
        if isc(t):
            return cval(t)
        if t.t == "agg":
            if t.a[1] in ("Some", "None", "Ok", "Err"):
                return (t.a[1],) + tuple(go(v) for _, v in t.a[2])
            raise NoAnswer(t.a[1])
        if t.t == "nth" and t.a[0].t == "split" and isinstance(t.a[1], int):
            parts = go(t.a[0])
            if not -len(parts) <= t.a[1] < len(parts):
                raise Fails
            return parts[t.a[1]]
        if t.t == "split":
            x, sep = need(go(t.a[0]), str), go(t.a[1])
            if not isinstance(sep, str) or not sep or len(t.a) > 2:
                raise NoAnswer("split")
            return x.split(sep)
        if t.t in ("seq", "coll") and t.a[0].t in ("split", "seq", "coll"):
            return go(t.a[0])
        if t.t == "discr":
            v = go(t.a[0])
            return need(v, tuple)[0]
        if t.t != "op":
            raise NoAnswer(t.t)
        o, xs = t.a[0], t.a[1:]
        if o.startswith("pl:"):
            v = go(xs[0])
            if not isinstance(v, tuple):
                if t.a[1] in self.env:
                    raise NoAnswer("payload")
                raise NoAnswer("payload")
            if v[0] != o[3:] or len(v) < 2:
                raise Fails
            return v[1]
        if o in ("add", "sub", "mul", "div", "rem", "min", "max", "saturating_sub", "lt", "le"):
            a, b = need(go(xs[0]), int), need(go(xs[1]), int)
            if o == "sub" and a < b or o in ("div", "rem") and b == 0:
                raise Fails
            return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a // b, "rem": lambda: a % b, "min": lambda: min(a, b),
                    "max": lambda: max(a, b), "saturating_sub": lambda: max(0, a - b), "lt": lambda: a < b, "le": lambda: a <= b}[o]()
        if o == "not":
            return not need(go(xs[0]), bool)
        if o == "eq":
            a, b = go(xs[0]), go(xs[1])
            return a == b
        if o == "len":
            v = go(xs[0])
            return len(byte(v)) if isinstance(v, str) else len(need(v, list))
        if o == "is_empty":
            return len(need(go(xs[0]), str, list)) == 0
        if o in ("cast", "as", "widen", "deref", "to_string", "clone", "lossy") and len(xs) >= 1:
            return go(xs[0])
        if o in ("has_sep", "contains"):
            x = need(go(xs[0]), str)
            return self.where(x, xs[1], d) is not None
        if o in ("find", "rfind"):
            x = need(go(xs[0]), str)
            i = self.where(x, xs[1], d, o == "rfind")
            if i is None:
                raise Fails
            return i
        if o in ("after1", "rafter1", "rbefore1", "before1"):
            x, s = need(go(xs[0]), str), need(go(xs[1]), str)
            if not s or s not in x:
                raise Fails
            return {"after1": lambda: x.split(s, 1)[1], "rafter1": lambda: x.rsplit(s, 1)[1], "rbefore1": lambda: x.rsplit(s, 1)[0], "before1": lambda: x.split(s, 1)[0]}[o]()
        if o == "parse":
            return self.parse(need(go(xs[0]), str), xs[1] if len(xs) > 1 else None)
        p = fn_of(t)
        if p:
            return self.call(p, last(t), xs, go, d)
        raise NoAnswer(o)

    def where(self, x, pat, d, right=False):
        """The byte position of the first (or last) match of a pattern."""
        if isc(pat) and isinstance(cval(pat), str):
            i = x.rfind(cval(pat)) if right else x.find(cval(pat))
            return None if i < 0 else len(byte(x[:i]))
        if pat.t == "clo" or pat.t == "fn":
            for i in range(len(x) - 1, -1, -1) if right else range(len(x)):
                if self.char(pat, x[i]):
                    return len(byte(x[:i]))
            return None
        raise NoAnswer("pattern")

    def char(self, f, c):
        """What a closure or function says about a character."""
        if f.t == "fn":
            return char_is(str(f.a[0]).split("::")[-1], c)
        memo = self.e.__dict__.setdefault("char_closures", {})
        if f.a[0] not in memo:
            try:
                r = ctx.Run(f.a[0])
                memo[f.a[0]] = r.e, [(s.conds, s.groups, v) for s, v in r.rets]
            except Exception:
                memo[f.a[0]] = None
        if memo[f.a[0]] is None:
            raise NoAnswer("closure")
        e, rets = memo[f.a[0]]
        ps = {y for conds, _, v in rets for k in list(conds) + [v] for y in walk(k) if y.t == "param"}
        if len(ps) > 1:
            raise NoAnswer("closure")
        sub = Chars(e, {p: c for p in ps})
        for conds, groups, v in rets:
            for alt in panics.mir.dnf(conds, groups, 16):
                if all(sub.holds(k, b) for k, b in alt.items()):
                    return need(sub.ev(v), bool)
        raise NoAnswer("closure")

    def parse(self, x, ty):
        n = ty if isinstance(ty, str) else cval(ty) if isinstance(ty, N) and isc(ty) else str(ty.a[0]) if isinstance(ty, N) and ty.a else ""
        m = re.fullmatch(r"[ui](8|16|32|64|128|size)", n)
        if not m:
            raise NoAnswer("parse")
        bits = 64 if m.group(1) == "size" else int(m.group(1))
        if not re.fullmatch(r"[+-]?[0-9]+" if n[0] == "i" else r"\+?[0-9]+", x):
            return ("Err", None)
        v = int(x)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if n[0] == "i" else (0, (1 << bits) - 1)
        return ("Ok", v) if lo <= v <= hi else ("Err", None)

    def call(self, p, n, xs, go, d):
        if p.startswith("walkdir::DirEntry::"):
            v = go(xs[0])
            v = need(v[1] if isinstance(v, tuple) and v[0] == "Ok" else v, str)
            if n in ("path", "into_path"):
                return v
            if n == "file_name":
                return v.rsplit("/", 1)[-1]
            if n == "depth":
                return 1
            raise NoAnswer(n)
        if re.search(r"(path::(Path|PathBuf)|ffi::(os_str::)?(OsStr|OsString))::", p):
            v = need(go(xs[0]), str)
            name = v.rstrip("/").rsplit("/", 1)[-1]
            name = None if name in ("", ".", "..") else name
            if n == "file_name":
                return some(name) if name else NONE
            if n in ("extension", "file_stem"):
                if not name or "." not in name[1:]:
                    return (some(name) if name else NONE) if n == "file_stem" else NONE
                return some(name.rsplit(".", 1)[1 if n == "extension" else 0])
            if n == "parent":
                s = v.rstrip("/")
                return NONE if not s else some(s.rsplit("/", 1)[0] if "/" in s[1:] else "/" if s[0] == "/" else "")
            if n in ("to_str", "into_string"):
                return some(v) if valid(v) else NONE
            if n in ("as_path", "as_os_str", "new", "to_path_buf", "as_ref", "to_os_string", "from"):
                return v
            if n == "is_absolute":
                return v.startswith("/")
            raise NoAnswer(n)
        if n == "from_utf8":
            v = need(go(xs[0]), str)
            return ("Ok", v) if valid(v) else ("Err", None)
        if re.search(r"(str>|str|String)::\w+$", p):
            v = go(xs[0])
            if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix"):
                if xs[1].t in ("clo", "fn"):
                    c = v[:1] if "s_with" in n and n[0] == "s" or n == "strip_prefix" else v[-1:]
                    hit = bool(c) and self.char(xs[1], c)
                    w = c
                else:
                    w = need(go(xs[1]), str)
                    hit = v.startswith(w) if n in ("starts_with", "strip_prefix") else v.endswith(w)
                if n.startswith("strip"):
                    return some(v[len(w):] if n == "strip_prefix" else v[:len(v) - len(w)]) if hit else NONE
                return hit
            if n in ("trim", "trim_start", "trim_end") and isinstance(v, str):
                return {"trim": v.strip, "trim_start": v.lstrip, "trim_end": v.rstrip}[n]()
            if n in ("to_lowercase", "to_ascii_lowercase"):
                return need(v, str).lower()
            if n == "is_ascii":
                return need(v, str).isascii()
            if n == "is_char_boundary":
                return boundary(need(v, str), need(go(xs[1]), int))
            if n in ("as_str", "as_bytes", "to_owned", "to_string", "clone", "as_ref"):
                return v
            if n in ("find", "rfind"):
                i = self.where(need(v, str), xs[1], d, n == "rfind")
                return NONE if i is None else some(i)
            if n == "contains":
                return self.where(need(v, str), xs[1], d) is not None
            if n == "get" and xs[1].t == "agg":
                try:
                    a, b = self.span(v, xs[1])
                except NoAnswer:
                    raise
                return some(cutout(v, a, b)) if a <= b <= len(byte(v)) and boundary(v, a) and boundary(v, b) else NONE
        raise NoAnswer(p)

    def span(self, v, r):
        """The byte range of a text a range value stands for."""
        if r.t != "agg":
            raise NoAnswer("range")
        f = {k: self.ev(x) for k, x in r.a[2] if k in ("start", "end")}
        n = len(byte(v)) if isinstance(v, str) else len(v)
        a, b = need(f.get("start", 0), int), need(f.get("end", n), int)
        return a, b + (1 if "Inclusive" in str(r.a[0]) + str(r.a[1]) else 0)

    def holds(self, k, b):
        if k.t in ("next",):
            return True
        if k.t == "exit":
            return self.loop(k.a[0], b)
        v = self.ev(k)
        return v == b

    def loop(self, L, want):
        """Whether a loop over the characters (or pieces) of a text ends in one way."""
        rec = self.e.loops[L]
        src, stages = ctx.sources(rec)
        if stages or src is None:
            raise NoAnswer("loop")
        if src.t.startswith("of:") and src.t.endswith("chars"):
            items = list(need(self.ev(src.a[0]), str))
        elif src.t.startswith("of:") and src.t.endswith("bytes"):
            items = [chr(c) if c < 128 else chr(0xFFFD) for c in byte(need(self.ev(src.a[0]), str))]
        elif src.t == "split":
            items = self.ev(src)
        else:
            raise NoAnswer("loop over " + src.t)
        if any(u is not None and u.t != "lv" for c in rec.conts for u in c.upd.values()):
            raise NoAnswer("a loop that counts")
        def fits(conds, env, first):
            sub = Chars(self.e, env)
            return all(b is first if k.t == "next" and k.a[2] == L else sub.holds(k, b) for k, b in conds.items())
        def took(conds, groups, env, first):
            return any(fits(a, env, first) for a in panics.mir.dnf(conds, groups, 16))
        for c in items:
            env = dict(self.env)
            el = mk("elem", src, L)
            env[el] = c
            if any(took(x.conds, x.groups, env, True) for x in rec.conts):
                continue
            for i, (kind, conds, ev, groups) in enumerate(rec.exits):
                if took(conds, groups, env, True):
                    return i == want
            raise NoAnswer("loop")
        for i, (kind, conds, ev, groups) in enumerate(rec.exits):
            if took(conds, groups, self.env, False):
                return i == want
        raise NoAnswer("loop")


def char_is(n, c):
    a = c.isascii()
    t = {"is_ascii_digit": a and c.isdigit(), "is_ascii_alphabetic": a and c.isalpha(), "is_ascii_alphanumeric": a and c.isalnum(), "is_ascii": a, "is_alphanumeric": c.isalnum(),
         "is_alphabetic": c.isalpha(), "is_whitespace": c.isspace(), "is_numeric": c.isnumeric(), "is_ascii_whitespace": c in " \t\n\r\f", "is_ascii_lowercase": a and c.islower(),
         "is_ascii_uppercase": a and c.isupper(), "is_uppercase": c.isupper(), "is_lowercase": c.islower(), "is_control": ord(c) < 32}
    if n not in t:
        raise NoAnswer(n)
    return t[n]


class Chars(Eval):
    """With characters among the values."""

    def call(self, p, n, xs, go, d):
        if n.startswith("is_") and "char" in p and len(xs) == 1 or p.startswith("core::num::<impl u8>::is_"):
            v = go(xs[0])
            if isinstance(v, str) and len(v) == 1:
                return char_is(n, v)
        return super().call(p, n, xs, go, d)


def cutout(v, a, b):
    return byte(v)[a:b].decode("utf-8", "surrogateescape")


def boundary(s, i):
    b = byte(s)
    return i == len(b) or 0 <= i < len(b) and b[i] & 0xC0 != 0x80


BASIC = ["", "a", "é", "日", "a.py", "test_a.py", "x::y", "x::C::y", "x::y[p]", ":", "::", "x:y", "]", "[", "x]", "-", ".", "..", "/", "a/b", "99999999999999999999999", "18446744073709551616", "0", "7", "-1", "*", "é::é",
         "a" + "é" * 3000, "é" * 3000, "aa" + "日" * 2000, "日" * 2000, " ", "\n", "x", "é.py", "test_é.py"]
RAW = ["\udcff", "a\udcff.py", "test_\udcff.py", "\udcff.py", "é\udcff"]


def texts(ts, raw):
    cs = [s for t in ts for y in walk(t) if isc(y) and isinstance(cval(y), str) for s in [cval(y)] if len(s) < 40]
    cs = list(dict.fromkeys(cs))[:8]
    out = list(BASIC)
    for a in cs:
        out += [a, a + "x", "x" + a, "x" + a + "x", a + "é", "é" + a, a + a, "x::" + a, "x::y" + a, "x::" + a + "y", "::" + a]
        out += [a + "x" + b for b in cs if b != a] + [a + b for b in cs if b != a]
    if raw:
        out += RAW + [a + "\udcff" for a in cs] + ["\udcff" + a for a in cs]
    return list(dict.fromkeys(out))


def candidates(x, conds, ts, types):
    """Values an input can have."""
    base = x
    while step(base) is not None:
        base = step(base)
    if base.t == "elem":
        i = panics.inner(base.a[0])
        if i is not None and i.t == "op" and (fn_of(i) or "").startswith("walkdir::"):
            names = [s for s in texts(ts, True) if s and "/" not in s and s not in (".", "..") and len(byte(s)) < 256]
            paths = ["r/" + s for s in names]
            return [("Ok", s) for s in paths] if x is base else paths
    if base.t == "op" and (fn_of(base) or "") == "" and base.a[0] == "ran":
        return texts(ts, True)
    ty = types.get(base, "")
    if base.t == "param" and x is base:
        if "Path" in ty or "OsStr" in ty:
            return texts(ts, True)
        if re.search(r"\b[ui](8|16|32|64|size)\b", ty) and "str" not in ty:
            ns = {0, 1, 2, 3, 50, 1000}
            for t in ts:
                ns |= {cval(y) + i for y in walk(t) if isc(y) and isinstance(cval(y), int) and not isinstance(cval(y), bool) for i in (-1, 0, 1)}
            return sorted(n for n in ns if n >= 0)
    return texts(ts, False)


def panics_with(E, kind, ops):
    """Whether the construct panics on these values: True or False."""
    if kind in ("bounds", "div0", "rem0") or kind.startswith("overflow") or kind.startswith(("bounds", "div", "rem")) and len(ops) == 2:
        if kind == "overflow Sub":
            v = ops[0]
            if v.t != "op" or len(v.a) < 4:
                raise NoAnswer(kind)
            return need(E.ev(v.a[2]), int) < need(E.ev(v.a[3]), int)
        if kind.startswith("overflow"):
            raise NoAnswer(kind)
        return E.ev(ops[0]) != ops[1]
    args = ops[0]
    if kind == "panic":
        return True
    if "unwrap" in kind or "expect" in kind:
        good = ("Err",) if kind.endswith("_err") else ("Some", "Ok")
        return need(E.ev(args[0]), tuple)[0] not in good
    if kind in ("Index::index", "IndexMut::index_mut"):
        v = need(E.ev(args[0]), str, list)
        if args[1].t == "agg":
            a, b = E.span(v, args[1])
            n = len(byte(v)) if isinstance(v, str) else len(v)
            if a > b or b > n:
                return True
            return isinstance(v, str) and not (boundary(v, a) and boundary(v, b))
        return need(E.ev(args[1]), int) >= len(need(v, list))
    if kind in ("str::split_at", "String::split_off", "String::truncate", "String::insert", "String::insert_str", "String::remove"):
        v, i = need(E.ev(args[0]), str), need(E.ev(args[1]), int)
        if kind == "String::truncate" and i >= len(byte(v)):
            return False
        return i > len(byte(v)) or not boundary(v, i)
    if kind == "Ord::clamp":
        return need(E.ev(args[1]), int) > need(E.ev(args[2]), int)
    raise NoAnswer(kind)


def search(view, kind, ops, conds, types, external):
    """Inputs that meet every condition about them and make the construct panic: a text about them, or None."""
    e = view.e
    operands = [y for x in ops[:1] for y in (x if isinstance(x, list) else [x]) if isinstance(y, N)]
    if len(ops) > 1 and isinstance(ops[1], N):
        operands.append(ops[1])
    given = {y for t in operands for y in walk(t)}
    xs = set()
    for t in operands:
        xs |= subjects(t)
    reached = [(k, b) for k, b in conds.items() if not external(k) and not structural(k, b, given)]
    explicit = kind == "panic" or len(operands) >= 1 and operands[0].t == "agg" and operands[0].a[1] in ("None", "Err")
    if explicit:
        for k, b in reached:
            xs |= subjects(k)
    # an input seen as a whole and in part is one input
    xs = {x for x in xs if not any(y is not x and y in above(x) and y.t != "param" for y in xs)}
    if not xs or len(xs) > 2 or not all(free(x) for x in xs):
        return None
    mine = [(k, b) for k, b in reached if touch(k, xs, given)]
    if explicit and len(mine) != len(reached):
        return None
    ts = [k for k, _ in mine] + operands
    lists_ = [candidates(x, conds, ts, types) for x in sorted(xs, key=repr)]
    if len(lists_) == 2:
        lists_ = [l[:60] for l in lists_]
    for vals in itertools.product(*lists_):
        env = dict(zip(sorted(xs, key=repr), vals))
        try:
            E = Eval(e, env)
            if all(E.holds(k, b) for k, b in mine) and panics_with(E, kind, ops):
                return "e.g. with " + ", ".join("%s = %s" % (show(x)[:60], ascii(v if not isinstance(v, tuple) else v[1])[:40]) for x, v in env.items())
        except Fails:
            continue
        except NoAnswer:
            return None
        except (KeyError, AttributeError, TypeError, IndexError):
            return None
    return None
