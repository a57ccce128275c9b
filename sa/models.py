"""Standard-library models for the MIR value-flow analysis: what each call does to provenance terms."""
from .terms import *

TABLE = {}


class Call:
    __slots__ = ("f", "args", "argtys", "dty", "site", "name")

    def __init__(self, f, args, argtys, dty, site, name):
        self.f, self.args, self.argtys, self.dty, self.site, self.name = f, args, argtys, dty, site, name

    @property
    def targs(self):
        return self.f.get("targs", [])


def model(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


VECNEW = op("seq_new")
EMPTYSTR = C("", "str")
OPT = ("None", "Some")
RES = ("Ok", "Err")


def some(v):
    return mk("agg", "std::option::Option", "Some", (("0", v),))


NONE = mk("agg", "std::option::Option", "None", ())


def ok(v):
    return mk("agg", "std::result::Result", "Ok", (("0", v),))


def err(v):
    return mk("agg", "std::result::Result", "Err", (("0", v),))


def val(e, st, v):
    return e.load(st, v) if v.t == "mref" else v


# ---------- arithmetic and comparison ----------
def neg(v):
    if isc(v) and isinstance(cval(v), bool):
        return FALSE if cval(v) else TRUE
    if isc(v):
        return op("bitnot", v)
    if v.t == "op" and v.a[0] == "not":
        return v.a[1]
    return op("not", v)


def binop(o, a, b):
    if o.endswith("WithOverflow"):
        r = binop(o[:-12], a, b)
        return mk("tup", r, op("overflow", o[:-12], a, b))
    if o.endswith("Unchecked"):
        o = o[:-9]
    ca, cb = isc(a), isc(b)
    if ca and cb and type(cval(a)) == type(cval(b)) and isinstance(cval(a), (int, bool)):
        x, y = cval(a), cval(b)
        try:
            if o == "Add":
                return C(x + y, a.a[2])
            if o == "Sub":
                return C(x - y, a.a[2])
            if o == "Mul":
                return C(x * y, a.a[2])
            if o == "Eq":
                return C(x == y, "bool")
            if o == "Ne":
                return C(x != y, "bool")
            if o == "Lt":
                return C(x < y, "bool")
            if o == "Le":
                return C(x <= y, "bool")
            if o == "Gt":
                return C(x > y, "bool")
            if o == "Ge":
                return C(x >= y, "bool")
            if o == "BitAnd":
                return C(x & y, a.a[2])
            if o == "BitOr":
                return C(x | y, a.a[2])
            if o == "BitXor":
                return C(x ^ y, a.a[2])
        except TypeError:
            pass
    if o == "Ne":
        return neg(binop("Eq", a, b))
    if o == "Gt":
        return binop("Lt", b, a)
    if o == "Ge":
        return neg(binop("Lt", a, b))
    if o == "Le":
        return neg(binop("Lt", b, a))
    if o == "Eq":
        if a is b:
            return TRUE
        if ca and not cb:
            a, b, ca, cb = b, a, cb, ca
        if cb and isinstance(cval(b), bool):
            return a if cval(b) else neg(a)
        if cb and cval(b) == 0 and _islen(a):
            return op("is_empty", a.a[1])
        if not cb and a.id > b.id:
            a, b = b, a
        return op("eq", a, b)
    if o == "Lt":
        if ca and cval(a) == 0 and _unsigned(a, b):
            return neg(binop("Eq", b, a))
        if cb and cval(b) == 1 and _unsigned(b, a):
            return binop("Eq", a, C(0, b.a[2]))
        if cb and cval(b) == 0 and _unsigned(b, a):
            return FALSE
        return op("lt", a, b)
    if o in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
        if o == "Add":
            if ca and cval(a) == 0:
                return b
            if cb and cval(b) == 0:
                return a
        if o == "BitOr" and (isb(a) or isb(b)):
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    return TRUE if cval(x) else y
        if o == "BitAnd" and (isb(a) or isb(b)):
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    return y if cval(x) else FALSE
        if ca or (not cb and a.id > b.id):
            a, b = b, a
        return op(o.lower(), a, b)
    return op(o.lower(), a, b)


def isb(v):
    return isc(v) and isinstance(cval(v), bool)


def _islen(v):
    return v.t == "op" and v.a[0] == "len"


def _unsigned(c, v):
    return c.a[2].startswith("u")


def length(e, v):
    s = seq_view(e, v)
    if s is not None and s.t == "arr":
        return C(len(s.a), "usize")
    if s is not None and s.t == "coll":
        v = s
    return op("len", v)


# ---------- sequences ----------
def seq_view(e, v):
    """A sequence value as arr(elements) when fully known, or coll(src) when it is one source in order; else None."""
    if v.t == "arr":
        return v
    if v.t == "coll":
        return v
    if v is VECNEW:
        return mk("arr")
    if v.t == "mut" and v.a[0] is VECNEW:
        xs = []
        for o in v.a[1:]:
            if o.a[0] == "push":
                xs.append(o.a[1])
            elif o.a[0] == "at" and isc(o.a[1]) and cval(o.a[1]) < len(xs):
                xs[cval(o.a[1])] = e.mutop(xs[cval(o.a[1])], o.a[2])
            else:
                break
        else:
            return mk("arr", *xs)
        if len(v.a) == 2:
            o = v.a[1]
            if o.a[0] == "loop":
                s = identity_loop(e, o)
                if s is not None:
                    return mk("coll", s)
            if o.a[0] == "extend":
                return seq_view(e, o.a[1]) or mk("coll", mk("seq", o.a[1]))
    return None


def identity_loop(e, o):
    """The source of a loop that pushes exactly every element, unchanged, in order; else None."""
    rec = e.loops.get(o.a[1])
    if rec is None:
        return None
    ops = rec.ops.get(o.a[2])
    if ops is None or len(ops) != 1 or len(ops[0]) != 1 or ops[0][0].a[0] != "push":
        return None
    x = ops[0][0].a[1]
    if x.t == "elem" and x.a[1] == rec.L:
        c = rec.conts[0]
        nx = [k for k in c.conds if k.t == "next"]
        if len(nx) == 1 and nx[0].a[0] is x.a[0] and not [s for s in nx[0].a[1] if s.t not in ("enumerate", "map")]:
            return x.a[0]
    return None


def known_empty(e, st, v):
    """True/False when the emptiness of a sequence is known on this path."""
    v0 = v
    if v.t == "arr":
        return not v.a
    if v.t == "c" and isinstance(v.a[1], (str, tuple)):
        return len(v.a[1]) == 0
    if v is VECNEW:
        return True
    if v.t == "mut":
        for o in v.a[1:]:
            if o.a[0] in ("push", "push_str", "insert") and not (o.a[0] == "push_str" and known_empty(e, st, o.a[1]) is not False):
                bad = [p for p in v.a[1:] if p.a[0] not in ("push", "extend", "loop", "at", "insert", "push_str", "ent", "sort", "each")]
                if not bad:
                    return False
        if v.a[0] is VECNEW and all(o.a[0] in ("sort",) for o in v.a[1:]):
            return True
        if len(v.a) == 2 and v.a[1].a[0] == "extend" and v.a[0] is VECNEW:
            return e.decide(st, op("is_empty", v.a[1].a[1]))
    s = seq_view(e, v)
    if s is not None and s.t == "coll":
        src = s.a[0]
        if src.t == "seq" and src.a[0] is not v0:
            return e.decide(st, op("is_empty", src.a[0]))
    return None


# ---------- calls that are not modelled ----------
WAITS = {"read", "lock", "recv"}
READERS = ("read_to_end", "read_to_string", "read_line", "read_until", "read", "read_exact", "bytes", "lines", "copy", "read_vectored", "fill_buf")


def waiting(e, st, path, vals, args, site):
    """Records a call that can wait: for a pipe, a lock or a channel."""
    last = path.split("::")[-1].split("<")[0]
    at = mk("site", site[0], site[1])
    if "lock" in e.events and (last == "lock" or last in ("read", "write") and "RwLock" in path) and path.startswith(("std", "<std", "parking_lot")):
        st.event("lock", path, vals[0] if vals else UNIT, at)
    elif "read" in e.events and last in READERS and ("io::" in path or "Read" in path):
        st.event("read", path, vals[0] if vals else UNIT, at)
    elif "recv" in e.events and last == "is_finished":
        st.event("poll", path, vals[0] if vals else UNIT, at)
    elif "recv" in e.events and "mpsc" in path and last in ("recv", "recv_timeout"):
        st.event("recv", path, vals[0] if vals else UNIT, at)


DROPS = ("TempDir", "MutexGuard", "JoinHandle", "RwLockReadGuard", "RwLockWriteGuard", "StdoutLock", "StderrLock", "mpsc::Sender", "mpsc::SyncSender")


def opaque_call(e, st, path, args, argtys, dty, site, is_event):
    st = st.copy()
    vals = []
    for a in args:
        vals.append(val(e, st, a))
    r = op("call:" + path, *vals)
    muts = [a for a in args if a.t == "mref"]
    if "drop" in e.events and path.split("::")[-1] in ("forget", "leak"):
        st.event("kept", path, vals[0] if vals else UNIT)
    if "files" in e.events and path.startswith(("std::fs::", "tempfile::", "std::os::unix::fs", "std::path::Path::")):
        st.event("file", path, tuple(vals), mk("site", site[0], site[1]))
    if e.events & WAITS:
        waiting(e, st, path, vals, args, site)
    if is_event:
        st.event("call", path, tuple(vals), mk("site", site[0], site[1]))
    for a in muts:
        try:
            e.mutate(st, a, mk("o", "call", path, tuple(v for v, x in zip(vals, args) if x is not a)))
        except RecursionError:
            raise
    # closures handed to unmodelled code: their captured mutable places may change
    for v in vals:
        if v.t == "clo":
            for _, c in v.a[1]:
                if c.t == "mref":
                    e.mutate(st, c, mk("o", "call", path, ()))
    if dty.startswith("&mut ") and args and args[0].t == "mref":
        return [(st, args[0])] if dty == (argtys[0] if argtys else None) else [(st, r)]
    return [(st, r)]


# ---------- transparent ----------
@model("Deref::deref", "DerefMut::deref_mut", "Clone::clone", "ToOwned::to_owned", "AsRef::as_ref", "Borrow::borrow",
       "AsMut::as_mut", "BorrowMut::borrow_mut", "String::as_str", "Vec::as_slice", "slice::to_vec", "slice::into_vec", "Path::to_path_buf", "PathBuf::as_path",
       "Path::new", "OsStr::new", "Path::as_os_str", "hint::must_use", "Box::new", "Arc::new", "Rc::new", "Cow::into_owned", "str::to_string", "Vec::into_boxed_slice",
       "String::into_boxed_str", "Path::into_os_string", "PathBuf::into_os_string", "PathBuf::into_boxed_path", "OsStr::to_os_string", "String::as_bytes", "str::as_bytes", "str::as_str", "Cow::to_mut",
       "String::into_bytes", "BufReader::new", "Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Result::as_ref", "Result::cloned",
       "Vec::as_mut_slice", "Vec::into_boxed", "Pin::new", "OsString::as_os_str", "String::as_mut_str", "BufReader::with_capacity_", "convert::identity", "str::to_owned", "Vec::leak", "array::as_slice",
       "Box::into_inner", "Rc::clone", "Arc::clone", "iter::by_ref", "Read::by_ref")
def transparent(e, st, c):
    v = c.args[0]
    if v.t == "mref" and (c.argtys and not c.argtys[0].startswith("&mut") or c.name in ("Clone::clone", "ToOwned::to_owned", "slice::to_vec")):
        v = e.load(st, v)
    return [(st, v)]


@model("From::from", "Into::into", "TryFrom::try_from_", "String::from")
def conv(e, st, c):
    v = val(e, st, c.args[0])
    t = c.f.get("targs") or []
    if len(t) >= 2:
        a, b = (t[0], t[1])
        to, frm = (a, b) if c.name == "From::from" else (b, a)
        if to == "i32" or to.startswith(("u", "i", "f")) and len(to) <= 5:
            if frm == "bool":
                if isc(v):
                    return [(st, C(int(cval(v)), to))]
                return [(st, op("b2i", v))]
            if isc(v):
                return [(st, C(cval(v), to))]
            return [(st, v)]
        if "Option<" in to and "Option<" not in frm:
            return [(st, some(v))]
        loc = (c.f.get("res") or "")
        if c.f.get("local") and loc in e.F["fns"]:
            return None
        if to.startswith(("std::collections", "std::vec::Vec")) and frm.startswith("["):
            s = seq_view(e, v)
            if s is not None and s.t == "arr":
                return [(st, rebuild("mut", (VECNEW,) + tuple(mk("o", "push", x) for x in s.a)))]
    return [(st, v)]


STRLIKE = ("str", "std::string::String", "&str", "&std::string::String", "std::borrow::Cow<'_, str>", "&&str", "char")


@model("ToString::to_string")
def to_string(e, st, c):
    v = val(e, st, c.args[0])
    t = c.targs[0] if c.targs else ""
    if t in STRLIKE or t.startswith("std::borrow::Cow") or t.endswith(("str", "String")):
        return [(st, v)]
    return [(st, op("to_string", v, t))]


@model("mem::take", "mem::replace", "Option::take", "Option::replace")
def take(e, st, c):
    st = st.copy()
    v = val(e, st, c.args[0])
    if c.args[0].t != "mref":
        return None
    if c.name in ("mem::replace", "Option::replace"):
        new = c.args[1] if c.name == "mem::replace" else some(c.args[1])
    elif c.name == "Option::take" or "Option<" in c.dty[:25]:
        new = NONE
    elif "Vec<" in c.dty:
        new = VECNEW
    elif c.dty.endswith("String"):
        new = EMPTYSTR
    else:
        new = op("default", c.dty)
    e.store(st, c.args[0], new)
    return [(st, v)]


@model("mem::swap")
def swap(e, st, c):
    st = st.copy()
    a, b = e.load(st, c.args[0]), e.load(st, c.args[1])
    e.store(st, c.args[0], b)
    e.store(st, c.args[1], a)
    return [(st, UNIT)]


@model("mem::drop")
def mdrop(e, st, c):
    if "drop" in e.events and c.targs and any(x in c.targs[0] for x in DROPS):
        st = st.copy()
        st.event("drop", c.args[0], c.targs[0])
    return [(st, UNIT)]


# ---------- strings and formatting ----------
def fmt_parts(tmpl, args):
    """Decodes the byte template of fmt::Arguments into literal and argument parts."""
    b = tmpl.encode() if isinstance(tmpl, str) else bytes(x & 0xff for x in tmpl)
    i, ai, out = 0, 0, []
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(C(b[i:i + n].decode("utf-8", "replace"), "str"))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(C(b[i:i + ln].decode("utf-8", "replace"), "str"))
            i += ln
        else:
            fl = []
            if n & 1:
                fl.append(tuple(b[i:i + 4]))
                i += 4
            if n & 2:
                i += 2
                fl.append("w")
            if n & 4:
                i += 2
                fl.append("p")
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            out.append((args[ai] if ai < len(args) else op("fmtarg?"), bool(fl)))
            ai += 1
    return out


@model("Arguments::new", "Arguments::new_v1", "Arguments::new_const")
def args_new(e, st, c):
    t = val(e, st, c.args[0])
    arr = val(e, st, c.args[1]) if len(c.args) > 1 else mk("arr")
    if isc(t) and isinstance(cval(t), (tuple, str)) and arr.t == "arr":
        parts = []
        for p in fmt_parts(cval(t), arr.a):
            if isinstance(p, tuple):
                a = p[0]
                parts.append(a.a[1] if a.t == "fa" and a.a[0] == "display" and not p[1] else a)
            else:
                parts.append(p)
        return [(st, cat(*parts))]
    return [(st, op("fmt?", t, arr))]


def cat(*parts):
    """String concatenation in normal form."""
    out = []
    for p in parts:
        xs = list(p.a) if p.t == "cat" else [p]
        for x in xs:
            if isc(x) and isinstance(cval(x), str):
                if cval(x) == "":
                    continue
                if out and isc(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = C(cval(out[-1]) + cval(x), "str")
                    continue
                x = C(cval(x), "str")
            out.append(x)
    if not out:
        return EMPTYSTR
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


@model("Arguments::from_str")
def args_from(e, st, c):
    return [(st, val(e, st, c.args[0]))]


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex")
def fmt_arg(e, st, c):
    return [(st, mk("fa", c.name.split("_")[-1], val(e, st, c.args[0])))]


@model("fmt::format")
def fmt_format(e, st, c):
    return [(st, c.args[0])]


@model("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str", "Formatter::pad")
def write_fmt(e, st, c):
    st = st.copy()
    if c.args[0].t == "mref":
        v = e.load(st, c.args[0])
        e.store(st, c.args[0], cat(norm_str(v), val(e, st, c.args[1]))) if v.t in ("c", "cat") else e.mutate(st, c.args[0], mk("o", "write", val(e, st, c.args[1])))
    if "write" in e.events:
        st.event("write", c.args[0], val(e, st, c.args[1]))
    return [(st, ok(UNIT))]


def norm_str(v):
    """A String value as concatenation parts, when it was built only by appends."""
    if v.t == "mut":
        parts = [v.a[0]]
        for o in v.a[1:]:
            if o.a[0] in ("push_str", "write"):
                parts.append(o.a[1])
            else:
                return v
        return cat(*parts)
    return v


@model("String::push_str", "String::push", "PathBuf::push_")
def push_str(e, st, c):
    st = st.copy()
    x = val(e, st, c.args[1])
    if c.args[0].t != "mref":
        return [(st, UNIT)]
    v = e.load(st, c.args[0])
    if v.t == "lv" or v.t == "mut":
        e.mutate(st, c.args[0], mk("o", "push_str", x))
    else:
        e.store(st, c.args[0], cat(v, x))
    return [(st, UNIT)]


@model("Add::add")
def add(e, st, c):
    if c.targs and c.targs[0].endswith("String"):
        return [(st, cat(val(e, st, c.args[0]), val(e, st, c.args[1])))]
    return [(st, binop("Add", c.args[0], c.args[1]))]


@model("AddAssign::add_assign")
def addassign(e, st, c):
    if c.targs and c.targs[0].endswith("String"):
        return push_str(e, st, c)
    return None


@model("slice::concat", "slice::join")
def sjoin(e, st, c):
    v = val(e, st, c.args[0])
    s = seq_view(e, v)
    sep = val(e, st, c.args[1]) if len(c.args) > 1 else EMPTYSTR
    if s is not None and s.t == "arr":
        parts = []
        for i, x in enumerate(s.a):
            if i:
                parts.append(sep)
            parts.append(x)
        return [(st, cat(*parts))]
    return [(st, op("join", v, sep))]


@model("String::new")
def string_new(e, st, c):
    return [(st, EMPTYSTR)]


@model("String::with_capacity")
def string_cap(e, st, c):
    return [(st, EMPTYSTR)]


@model("String::from_utf8_lossy")
def lossy(e, st, c):
    return [(st, op("text", val(e, st, c.args[0])))]


@model("Path::to_string_lossy", "OsStr::to_string_lossy", "Path::display")
def plossy(e, st, c):
    return [(st, op("ptext", val(e, st, c.args[0])))]


# ---------- equality and ordering ----------
@model("PartialEq::eq", "PartialEq::ne")
def peq(e, st, c):
    a, b = val(e, st, c.args[0]), val(e, st, c.args[1])
    r = eqterm(a, b)
    return [(st, r if c.name.endswith("eq") else neg(r))]


def eqterm(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return C(cval(a) == cval(b), "bool")
    if a.t == "agg" and b.t == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[2] and not b.a[2]:
            return TRUE
    if isc(a):
        a, b = b, a
    if isc(b) and cval(b) == "":
        return op("is_empty", a)
    if b.t == "agg" and not b.a[2]:
        return op("isvar", a, b.a[1])
    if a.t == "agg" and not a.a[2]:
        return op("isvar", b, a.a[1])
    if isc(b):
        return op("eq", a, b)
    if a.id > b.id:
        a, b = b, a
    return op("eq", a, b)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def pord(e, st, c):
    a, b = val(e, st, c.args[0]), val(e, st, c.args[1])
    return [(st, binop(c.name[-2:].capitalize(), a, b))]


@model("Ord::clamp")
def clamp(e, st, c):
    x, lo, hi = [val(e, st, a) for a in c.args]
    return [(st, op("min", op("max", x, lo), hi))]


@model("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def omax(e, st, c):
    n = c.name[-3:]
    a, b = val(e, st, c.args[0]), val(e, st, c.args[1])
    if isc(a) and isc(b):
        return [(st, a if (cval(a) >= cval(b)) == (n == "max") else b)]
    if isc(a):
        a, b = b, a
    return [(st, op(n, a, b))]


# ---------- Option / Result ----------
def enum_of(c, i=0):
    t = c.argtys[i] if i < len(c.argtys) else ""
    if "std::option::Option" in c.f["path"] or c.name.startswith("Option::"):
        return OPT
    if c.name.startswith("Result::"):
        return RES
    t = t.lstrip("&").replace("mut ", "")
    if t.startswith("std::option::Option"):
        return OPT
    return RES


def wrap(variant, v):
    return {"Some": some, "Ok": ok, "Err": err}[variant](v) if variant != "None" else NONE


def combin(e, st, c, good, bad):
    """good(st, payload) / bad(st, payload or None) -> [(st, value)]"""
    v = val(e, st, c.args[0])
    vs = enum_of(c)
    out = []
    for s, var in e.variant(st, v, vs):
        p = e.payload(v, var) if var != "None" else None
        out += (good if var in ("Some", "Ok") else bad)(s, p)
    return out


def _is_opt(c):
    return enum_of(c) is OPT


@model("Option::map", "Result::map")
def omap(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: [(s2, (some if o else ok)(r)) for s2, r in e.call_value(s, c.args[1], [p], c.site)],
                  lambda s, p: [(s, NONE if o else err(p))])


@model("Result::map_err")
def omaperr(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, ok(p))], lambda s, p: [(s2, err(r)) for s2, r in e.call_value(s, c.args[1], [p], c.site)])


@model("Option::and_then", "Result::and_then")
def oandthen(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: e.call_value(s, c.args[1], [p], c.site), lambda s, p: [(s, NONE if o else err(p))])


@model("Option::unwrap_or", "Result::unwrap_or")
def ounwrapor(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, p)], lambda s, p: [(s, c.args[1])])


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def ounwraporelse(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: [(s, p)], lambda s, p: e.call_value(s, c.args[1], [] if o else [p], c.site))


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def ounwrapordef(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, p)], lambda s, p: [(s, default_of(c.dty))])


def default_of(ty):
    if ty.startswith("std::vec::Vec"):
        return VECNEW
    if ty == "std::string::String":
        return EMPTYSTR
    if ty == "bool":
        return FALSE
    if ty in ("usize", "i32", "u32", "u64", "i64", "u8"):
        return C(0, ty)
    if ty.startswith("std::option::Option"):
        return NONE
    return op("default", ty)


@model("Default::default")
def mdefault(e, st, c):
    if c.f.get("local") and (c.f.get("res") in e.F["fns"]):
        return None
    return [(st, default_of(c.dty or (c.targs[0] if c.targs else "")))]


# Calls that panic for some arguments
RISKY = {
    "Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err", "Index::index", "IndexMut::index_mut",
    "Vec::remove", "Vec::swap_remove", "Vec::insert", "Vec::drain", "Vec::split_off", "Vec::splice", "Vec::extend_from_within", "Vec::with_capacity", "Vec::resize", "Vec::reserve", "vec::from_elem",
    "Vec::extract_if", "String::with_capacity", "String::reserve", "String::remove", "String::insert", "String::insert_str", "String::drain", "String::split_off", "String::replace_range",
    "String::truncate", "str::split_at", "str::split_at_mut", "str::repeat", "slice::split_at", "slice::split_at_mut", "slice::chunks", "slice::chunks_mut", "slice::chunks_exact",
    "slice::rchunks", "slice::windows", "slice::copy_from_slice", "slice::clone_from_slice", "slice::swap", "slice::rotate_left", "slice::rotate_right", "slice::select_nth_unstable",
    "slice::copy_within", "slice::repeat", "VecDeque::insert", "VecDeque::swap", "VecDeque::drain", "VecDeque::split_off", "VecDeque::with_capacity", "HashMap::with_capacity", "HashSet::with_capacity",
    "Iterator::step_by", "usize::pow", "usize::div_ceil", "usize::next_multiple_of", "usize::ilog2", "usize::ilog10", "Ord::clamp", "f64::clamp", "Duration::from_secs_f64", "Duration::from_secs_f32",
    "Duration::mul_f64", "Duration::div_f64", "RefCell::borrow", "RefCell::borrow_mut", "env::args", "env::vars", "char::from_digit", "Sub::sub", "SubAssign::sub_assign", "Div::div", "Rem::rem",
    "DivAssign::div_assign", "RemAssign::rem_assign",
}


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def ounwrap(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, p)], lambda s, p: [])


@model("Option::ok_or")
def okor(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, ok(p))], lambda s, p: [(s, err(c.args[1]))])


@model("Option::ok_or_else")
def okorelse(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, ok(p))], lambda s, p: [(s2, err(r)) for s2, r in e.call_value(s, c.args[1], [], c.site)])


@model("Result::ok")
def rok(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, some(p))], lambda s, p: [(s, NONE)])


@model("Result::err")
def rerr(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, NONE)], lambda s, p: [(s, some(p))])


@model("Option::is_some", "Result::is_ok")
def issome(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, TRUE)], lambda s, p: [(s, FALSE)])


@model("Option::is_none", "Result::is_err")
def isnone(e, st, c):
    return combin(e, st, c, lambda s, p: [(s, FALSE)], lambda s, p: [(s, TRUE)])


@model("Option::is_some_and", "Result::is_ok_and")
def issomeand(e, st, c):
    return combin(e, st, c, lambda s, p: e.call_value(s, c.args[1], [p], c.site), lambda s, p: [(s, FALSE)])


@model("Option::is_none_or")
def isnoneor(e, st, c):
    return combin(e, st, c, lambda s, p: e.call_value(s, c.args[1], [p], c.site), lambda s, p: [(s, TRUE)])


@model("Option::map_or", "Result::map_or")
def mapor(e, st, c):
    return combin(e, st, c, lambda s, p: e.call_value(s, c.args[2], [p], c.site), lambda s, p: [(s, c.args[1])])


@model("Option::map_or_else", "Result::map_or_else")
def maporelse(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: e.call_value(s, c.args[2], [p], c.site), lambda s, p: e.call_value(s, c.args[1], [] if o else [p], c.site))


@model("Option::or", "Result::or")
def oor(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: [(s, (some if o else ok)(p))], lambda s, p: [(s, c.args[1])])


@model("Option::or_else", "Result::or_else")
def oorelse(e, st, c):
    o = _is_opt(c)
    return combin(e, st, c, lambda s, p: [(s, (some if o else ok)(p))], lambda s, p: e.call_value(s, c.args[1], [] if o else [p], c.site))


@model("Option::filter")
def ofilter(e, st, c):
    def good(s, p):
        out = []
        for s2, r in e.call_value(s, c.args[1], [p], c.site):
            for s3, b in e.branch(s2, r):
                out.append((s3, some(p) if b else NONE))
        return out
    return combin(e, st, c, good, lambda s, p: [(s, NONE)])


@model("Option::inspect", "Result::inspect", "Result::inspect_err")
def oinspect(e, st, c):
    return [(st, c.args[0])]


@model("Option::get_or_insert_with_")
def _x(e, st, c):
    return None


@model("bool::then", "bool::then_some")
def bthen(e, st, c):
    out = []
    for s, b in e.branch(st, c.args[0]):
        if not b:
            out.append((s, NONE))
        elif c.name.endswith("some"):
            out.append((s, some(c.args[1])))
        else:
            out += [(s2, some(r)) for s2, r in e.call_value(s, c.args[1], [], c.site)]
    return out


@model("Try::branch")
def trybranch(e, st, c):
    v = val(e, st, c.args[0])
    o = c.argtys and c.argtys[0].startswith("std::option")
    out = []
    for s, var in e.variant(st, v, OPT if o else RES):
        if var in ("Some", "Ok"):
            out.append((s, mk("agg", "std::ops::ControlFlow", "Continue", (("0", e.payload(v, var)),))))
        else:
            out.append((s, mk("agg", "std::ops::ControlFlow", "Break", (("0", NONE if var == "None" else err(e.payload(v, var))),))))
    return out


@model("FromResidual::from_residual")
def fromres(e, st, c):
    return [(st, c.args[0])]


# ---------- vectors and other collections ----------
@model("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity")
def vec_new(e, st, c):
    return [(st, VECNEW)]


@model("HashMap::new", "BTreeMap::new", "HashSet::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "BinaryHeap::new", "IndexMap::new")
def map_new(e, st, c):
    return [(st, op("map_new", c.name.split("::")[0]))]


@model("Box::new_uninit")
def box_uninit(e, st, c):
    return [(st, mk("ubox", op("uninit")))]


@model("boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(e, st, c):
    v = val(e, st, c.args[0])
    if v.t == "ubox" and v.a[0].t == "arr":
        return [(st, rebuild("mut", (VECNEW,) + tuple(mk("o", "push", x) for x in v.a[0].a)))]
    if v.t == "ubox":
        return [(st, v.a[0])]
    return [(st, v)]


@model("vec::from_elem")
def from_elem(e, st, c):
    v, n = val(e, st, c.args[0]), c.args[1]
    if isc(n) and cval(n) <= 8:
        return [(st, rebuild("mut", (VECNEW,) + tuple(mk("o", "push", v) for _ in range(cval(n)))))]
    return [(st, op("repeat", v, n))]


def _mut(e, st, c, o, ret=UNIT):
    st = st.copy()
    if c.args[0].t == "mref":
        e.mutate(st, c.args[0], o)
    return [(st, ret)]


@model("Vec::push", "VecDeque::push_back")
def vpush(e, st, c):
    return _mut(e, st, c, mk("o", "push", val(e, st, c.args[1])))


@model("VecDeque::push_front")
def vpushf(e, st, c):
    return _mut(e, st, c, mk("o", "push_front", val(e, st, c.args[1])))


@model("Vec::insert")
def vinsert(e, st, c):
    return _mut(e, st, c, mk("o", "vinsert", c.args[1], val(e, st, c.args[2])))


@model("HashMap::insert", "BTreeMap::insert", "IndexMap::insert")
def minsert(e, st, c):
    v = val(e, st, c.args[0])
    k = val(e, st, c.args[1])
    return _mut(e, st, c, mk("o", "insert", k, val(e, st, c.args[2])), op("mapget", v, k))


@model("HashSet::insert", "BTreeSet::insert")
def sinsert(e, st, c):
    v = val(e, st, c.args[0])
    k = val(e, st, c.args[1])
    return _mut(e, st, c, mk("o", "insert", k), neg(op("contains", v, k)))


@model("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def range_contains(e, st, c):
    v, x = val(e, st, c.args[0]), val(e, st, c.args[1])
    d = None
    if v.t == "agg":
        d, incl = dict(v.a[2]), "Inclusive" in v.a[0]
    elif v.t == "op" and v.a[0].startswith("call:std::ops::RangeInclusive") and len(v.a) == 3:
        d, incl = {"start": v.a[1], "end": v.a[2]}, True
    if d is None:
        return [(st, op("contains", v, x))]
    out = []
    sts = [(st, True)]
    if "start" in d:
        sts = [(s, not b) for s, b in e.branch(st, op("lt", x, d["start"]))]
    for s, b in sts:
        if not b or "end" not in d:
            out.append((s, C(b, "bool")))
        elif incl:
            out += [(s2, C(not b2, "bool")) for s2, b2 in e.branch(s, op("lt", d["end"], x))]
        else:
            out += [(s2, C(b2, "bool")) for s2, b2 in e.branch(s, op("lt", x, d["end"]))]
    return out


@model("HashSet::contains", "BTreeSet::contains", "HashMap::contains_key", "BTreeMap::contains_key", "slice::contains", "Vec::contains")
def contains_(e, st, c):
    v, k = val(e, st, c.args[0]), val(e, st, c.args[1])
    s = seq_view(e, v) if c.name in ("slice::contains", "Vec::contains") else None
    if s is not None and s.t == "arr" and len(s.a) <= 8:
        out, cur = [], [st]
        for x in s.a:
            t = eqterm(k, x)
            nxt = []
            for s1 in cur:
                for s2, b in e.branch(s1, t):
                    (out.append((s2, TRUE)) if b else nxt.append(s2))
            cur = nxt
        return out + [(s1, FALSE) for s1 in cur]
    return [(st, op("contains", v, k))]


@model("HashMap::get", "BTreeMap::get", "slice::get", "HashMap::get_mut", "BTreeMap::get_mut", "slice::get_mut")
def mget(e, st, c):
    v, k = val(e, st, c.args[0]), val(e, st, c.args[1])
    ismap = "Map" in c.name
    if not ismap:
        s = seq_view(e, v)
        if s is not None and s.t == "arr" and isc(k) and isinstance(cval(k), int):
            return [(st, some(s.a[cval(k)]) if cval(k) < len(s.a) else NONE)]
    t = op("contains", v, k) if ismap else binop("Lt", k, length(e, v))
    out = []
    for s2, b in e.branch(st, t):
        if not b:
            out.append((s2, NONE))
        elif c.name.endswith("get_mut") and c.args[0].t == "mref":
            pl = c.args[0]
            out.append((s2, some(mk("mref", pl.a[0], pl.a[1], pl.a[2] + ((("key", k) if ismap else ("idx", k)),)))))
        else:
            out.append((s2, some(op("mapget", v, k) if ismap else e.index(v, k))))
    return out


@model("slice::first", "slice::last", "slice::first_mut", "slice::last_mut", "VecDeque::front", "VecDeque::back")
def first(e, st, c):
    v = val(e, st, c.args[0])
    s = seq_view(e, v)
    lastp = "last" in c.name or c.name.endswith("back")
    if s is not None and s.t == "arr" and not c.name.endswith("_mut"):
        return [(st, some(s.a[-1 if lastp else 0]) if s.a else NONE)]
    out = []
    for s2, b in e.branch(st, op("is_empty", v)):
        if b:
            out.append((s2, NONE))
        elif c.name.endswith("_mut") and c.args[0].t == "mref":
            pl = c.args[0]
            out.append((s2, some(mk("mref", pl.a[0], pl.a[1], pl.a[2] + ((("last", None) if lastp else ("idx", C(0, "usize"))),)))))
        else:
            out.append((s2, some(op("last", v) if lastp else e.index(v, C(0, "usize")))))
    return out


@model("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "HashSet::is_empty", "BTreeSet::is_empty", "VecDeque::is_empty", "OsStr::is_empty")
def is_empty(e, st, c):
    v = val(e, st, c.args[0])
    r = known_empty(e, st, v)
    if r is not None:
        return [(st, TRUE if r else FALSE)]
    return [(st, op("is_empty", canon_seq(e, v)))]


def canon_seq(e, v):
    s = seq_view(e, v)
    if s is not None and s.t == "coll" and s.a[0].t == "seq":
        return s.a[0].a[0]
    return v


@model("Vec::len", "slice::len", "str::len", "String::len", "HashMap::len", "BTreeMap::len", "HashSet::len", "BTreeSet::len", "VecDeque::len", "ExactSizeIterator::len")
def vlen(e, st, c):
    v = val(e, st, c.args[0])
    if v.t == "c" and isinstance(cval(v), str):
        return [(st, C(len(cval(v).encode()), "usize"))]
    if v.t == "iter":
        v = v.a[0].a[0] if v.a[0].t == "seq" else v
    return [(st, length(e, canon_seq(e, v)))]


@model("Vec::extend_from_slice", "Vec::append", "VecDeque::append", "VecDeque::extend")
def vextend(e, st, c):
    v = val(e, st, c.args[1])
    r = _mut(e, st, c, mk("o", "extend", v))
    if c.name.endswith("append") and c.args[1].t == "mref":
        s, x = r[0]
        e.store(s, c.args[1], VECNEW)
    return r


@model("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "BinaryHeap::pop", "BTreeMap::pop_first")
def vpop(e, st, c):
    v = val(e, st, c.args[0])
    out = []
    for s, b in e.branch(st, op("is_empty", v)):
        if b:
            out.append((s, NONE))
        else:
            s = s.copy()
            if c.args[0].t == "mref":
                e.mutate(s, c.args[0], mk("o", "pop", c.name))
            out.append((s, some(op("popped", v, c.name))))
    return out


@model("Vec::clear", "HashMap::clear", "HashSet::clear", "String::clear", "Vec::truncate", "Vec::dedup", "Vec::retain", "Vec::swap_remove", "Vec::remove", "Vec::drain", "Vec::split_off", "Vec::resize", "Vec::dedup_by_key", "HashMap::remove", "BTreeMap::remove", "HashSet::remove", "BTreeSet::remove", "HashMap::retain", "BTreeMap::retain", "Vec::dedup_by", "Vec::retain_mut", "String::truncate", "HashMap::drain", "slice::swap", "slice::rotate_left", "slice::rotate_right", "slice::reverse", "slice::fill", "HashSet::retain", "String::pop", "VecDeque::clear")
def vother(e, st, c):
    st = st.copy()
    nm = c.name.split("::")[1]
    v = val(e, st, c.args[0])
    others = tuple(val(e, st, a) for a in c.args[1:])
    if nm == "drain" and c.args[0].t == "mref":
        r = others[0] if others else None
        full = r is not None and ("RangeFull" in show(r) or (r.t == "c" and "RangeFull" in str(r.a[2])) or (c.targs and any("RangeFull" in t for t in c.targs)))
        if full or c.name == "HashMap::drain":
            e.store(st, c.args[0], VECNEW)
            return [(st, mk("iter", mk("map_items", v, "hash") if c.name == "HashMap::drain" else mk("seq", v), (), 0))]
    if nm == "clear" and c.args[0].t == "mref":
        if c.name == "String::clear":
            e.store(st, c.args[0], EMPTYSTR)
        elif c.name in ("Vec::clear", "VecDeque::clear"):
            e.store(st, c.args[0], VECNEW)
        else:
            e.store(st, c.args[0], op("map_new", c.name.split("::")[0]))
        return [(st, UNIT)]
    if nm == "retain" and c.args[0].t == "mref":
        # evaluate the predicate on a generic element to know what is kept
        L = e._lkeys.setdefault(("retain", c.site, v), len(e._lkeys) + 1)
        x = mk("elem", mk("seq", v), L)
        if c.name == "Vec::retain":
            res = e.call_value(st.copy(), c.args[1], [x], c.site)
            keeps = []
            for s2, r in res:
                for s3, b in e.branch(s2, r):
                    keeps.append((b, tuple(sorted(((k, vv) for k, vv in s3.conds.items() if st.conds.get(k) != vv), key=lambda t: t[0].id))))
            e.retains = getattr(e, "retains", {})
            e.retains[L] = keeps
            e.mutate(st, c.args[0], mk("o", "retain", L, c.args[1]))
            return [(st, UNIT)]
    if c.args[0].t == "mref":
        e.mutate(st, c.args[0], mk("o", nm, *others))
    if nm == "remove" and "Set" in c.name:
        return [(st, op("contains", v, others[0]))]
    return [(st, op(nm, v, *others))]


@model("slice::sort", "slice::sort_by_key", "slice::sort_by", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def sort(e, st, c):
    st = st.copy()
    if c.args[0].t == "mref":
        x = e.load(st, c.args[0])
        if c.name != "slice::sort" and len(c.args) > 1:
            try:
                L = e._lkeys.setdefault(("sort", c.site), len(e._lkeys) + 1)
                el = mk("elem", mk("seq", x), L)
                n = 1 if "key" in c.name else 2
                el2 = [el, mk("elem", mk("seq", x), -L)][:n]
                rs = e.call_value(st.copy(), c.args[1], el2, c.site)
                key = tuple(r for _, r in rs)
            except KeyError:
                key = ()
            e.mutate(st, c.args[0], mk("o", "sort", c.name, key))
        else:
            e.mutate(st, c.args[0], mk("o", "sort", c.name, ()))
    return [(st, UNIT)]


@model("Index::index", "IndexMut::index_mut")
def index(e, st, c):
    v = val(e, st, c.args[0])
    i = val(e, st, c.args[1])
    ismap = "Map<" in (c.targs[0] if c.targs else "")
    rng = i.t == "agg" and "Range" in i.a[0] or (c.targs and len(c.targs) > 1 and "Range" in c.targs[1])
    if c.name == "IndexMut::index_mut" and c.args[0].t == "mref":
        pl = c.args[0]
        pr = ("key", i) if ismap else ("idx", i)
        return [(st, mk("mref", pl.a[0], pl.a[1], pl.a[2] + (pr,)))]
    if rng:
        if "RangeFull" in (c.targs[1] if len(c.targs) > 1 else ""):
            return [(st, v)]
        return [(st, op("slice", v, i))]
    return [(st, op("mapget", v, i) if ismap else e.index(v, i))]


@model("BTreeMap::entry", "HashMap::entry", "IndexMap::entry")
def entry(e, st, c):
    return [(st, mk("entry", c.args[0], val(e, st, c.args[1])))]


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with", "Entry::or_insert_with_key")
def or_default(e, st, c):
    en = c.args[0]
    if en.t != "entry":
        return None
    pl, k = en.a
    if c.name == "Entry::or_default":
        d = op("default")
    elif c.name == "Entry::or_insert":
        d = c.args[1]
    else:
        rs = e.call_value(st, c.args[1], [] if c.name.endswith("with") else [k], c.site)
        st, d = rs[0]
    if pl.t != "mref":
        return [(st, op("entry", pl, k, d))]
    st = st.copy()
    p2 = mk("mref", pl.a[0], pl.a[1], pl.a[2] + (("ent", k, d),))
    e.mutate(st, pl, mk("o", "ent", k, d, mk("o", "touch")))
    return [(st, p2)]


@model("Entry::and_modify")
def and_modify(e, st, c):
    en = c.args[0]
    if en.t != "entry" or en.a[0].t != "mref":
        return None
    pl, k = en.a
    p2 = mk("mref", pl.a[0], pl.a[1], pl.a[2] + (("key", k),))
    return [(s, en) for s, _ in e.call_value(st, c.args[1], [p2], c.site)]


# ---------- iterators ----------
def it_of(e, st, v, ty=""):
    v = val(e, st, v)
    if v.t == "iter":
        return v
    if v.t == "agg" and v.a[0].startswith("std::ops::Range") and len(v.a[2]) >= 2:
        d = dict(v.a[2])
        if "start" in d and "end" in d:
            return mk("iter", mk("rangei" if "Inclusive" in v.a[0] else "range", d["start"], d["end"]), (), 0)
    if v.t == "op" and v.a[0].startswith("call:std::ops::RangeInclusive"):
        return mk("iter", mk("rangei", v.a[1], v.a[2]), (), 0)
    if "HashMap<" in ty or "BTreeMap<" in ty or "Map<" in ty.split("<")[0] + "<":
        return mk("iter", mk("map_items", v, "hash") if "HashMap<" in ty else mk("map_items", v), (), 0)
    s = seq_view(e, v)
    if s is not None and s.t == "coll":
        return mk("iter", s.a[0], (), 0)
    if v.t == "agg" and v.a[1] in ("Some", "None"):
        return mk("iter", mk("seq", mk("arr", *[x for _, x in v.a[2]])), (), 0)
    return mk("iter", mk("seq", v), (), 0)


@model("RangeInclusive::new")
def rincl(e, st, c):
    return [(st, mk("agg", "std::ops::RangeInclusive", "RangeInclusive", (("start", c.args[0]), ("end", c.args[1]))))]


@model("IntoIterator::into_iter", "slice::iter", "Vec::into_iter", "HashMap::iter", "HashSet::iter", "BTreeMap::iter", "BTreeSet::iter", "HashMap::into_iter", "VecDeque::iter", "VecDeque::into_iter", "Option::iter", "Option::into_iter", "array::into_iter", "HashSet::into_iter", "HashSet::drain")
def into_iter(e, st, c):
    ty = c.argtys[0] if c.argtys and c.argtys[0] else (c.targs[0] if c.targs else "")
    if ty.startswith("&mut ") and c.args[0].t == "mref" and e.load(st, c.args[0]).t != "iter":
        return iter_mut(e, st, c)
    if c.args[0].t == "mref" and e.load(st, c.args[0]).t == "iter":
        return [(st, c.args[0])]
    if "HashSet" in ty.split("<")[0]:
        v = val(e, st, c.args[0])
        if v.t == "iter":
            return [(st, v)]
        return [(st, mk("iter", mk("setitems", v), (), 0))]
    return [(st, it_of(e, st, c.args[0], ty.replace("&", "").replace("mut ", "")))]


@model("slice::iter_mut", "Vec::iter_mut", "VecDeque::iter_mut")
def iter_mut(e, st, c):
    if c.args[0].t != "mref":
        return [(st, it_of(e, st, c.args[0]))]
    hm = ("hash",) if c.argtys and "HashMap<" in c.argtys[0] else ()
    return [(st, mk("iter", mk("mseq", c.args[0], canon_seq(e, e.load(st, c.args[0])), *hm), (), 0))]


def hashed(c):
    """Marks an iteration whose order depends on the hash seed."""
    return ("hash",) if c.name.startswith("HashMap") else ()


@model("HashMap::values", "BTreeMap::values", "BTreeMap::into_values", "HashMap::into_values")
def mvalues(e, st, c):
    return [(st, mk("iter", mk("map_values", val(e, st, c.args[0]), *hashed(c)), (), 0))]


@model("HashMap::values_mut", "BTreeMap::values_mut")
def mvalues_mut(e, st, c):
    v = val(e, st, c.args[0])
    if c.args[0].t != "mref":
        return mvalues(e, st, c)
    return [(st, mk("iter", mk("mvals", c.args[0], v, *hashed(c)), (), 0))]


@model("HashMap::keys", "BTreeMap::keys", "BTreeMap::into_keys", "HashMap::into_keys")
def mkeys(e, st, c):
    return [(st, mk("iter", mk("map_keys", val(e, st, c.args[0]), *hashed(c)), (), 0))]


@model("str::split")
def ssplit(e, st, c):
    return [(st, mk("iter", mk("split", val(e, st, c.args[0]), val(e, st, c.args[1])), (), 0))]


@model("str::splitn", "str::rsplitn", "str::rsplit", "str::split_terminator")
def ssplitn(e, st, c):
    return [(st, mk("iter", mk(c.name.split("::")[1], *[val(e, st, a) for a in c.args]), (), 0))]


@model("str::lines", "BufRead::lines")
def slines(e, st, c):
    if c.name != "str::lines" and "read" in e.events:
        st = st.copy()
        st.event("read", c.name, val(e, st, c.args[0]), mk("site", c.site[0], c.site[1]))
    return [(st, mk("iter", mk("lines" if c.name == "str::lines" else "iolines", val(e, st, c.args[0])), (), 0))]


@model("str::chars", "str::bytes", "str::split_whitespace", "Path::components", "Path::ancestors", "WalkDir::into_iter", "str::char_indices", "Path::iter")
def sgeneric(e, st, c):
    return [(st, mk("iter", mk("of:" + c.name, val(e, st, c.args[0])), (), 0))]


@model("slice::chunks", "slice::windows", "slice::chunks_exact", "slice::chunks_mut", "slice::rchunks")
def schunks(e, st, c):
    return [(st, mk("iter", mk(c.name.split("::")[1], val(e, st, c.args[0]), c.args[1]), (), 0))]


@model("iter::empty")
def iempty(e, st, c):
    return [(st, mk("iter", mk("seq", mk("arr")), (), 0))]


@model("iter::once")
def ionce(e, st, c):
    return [(st, mk("iter", mk("seq", mk("arr", c.args[0])), (), 0))]


@model("iter::repeat", "iter::repeat_with", "iter::successors", "iter::from_fn", "iter::repeat_n")
def irepeat(e, st, c):
    return [(st, mk("iter", mk("gen", c.name, *c.args), (), 0))]


def stage(name, nargs):
    def f(e, st, c):
        it = val(e, st, c.args[0])
        if it.t != "iter":
            it = it_of(e, st, c.args[0])
        args = list(c.args[1:1 + nargs])
        if name in ("zip", "chain", "flat_map_") and args:
            args = [it_of(e, st, args[0])]
        return [(st, mk("iter", it.a[0], it.a[1] + (mk("st", name, *args),), *it.a[2:]))]
    return f


class _St:
    pass


def _mkstage(tag, name, nargs):
    base = stage(name, nargs)

    def f(e, st, c):
        r = base(e, st, c)
        s, it = r[0]
        stg = it.a[1][-1]
        stg2 = mk(name, *stg.a[1:])
        return [(s, mk("iter", it.a[0], it.a[1][:-1] + (stg2,), *it.a[2:]))]
    TABLE[tag] = f


for _n, _k in (("enumerate", 0), ("map", 1), ("filter", 1), ("filter_map", 1), ("flat_map", 1), ("flatten", 0), ("zip", 1), ("rev", 0),
               ("take", 1), ("skip", 1), ("chain", 1), ("step_by", 1), ("take_while", 1), ("skip_while", 1), ("map_while", 1), ("inspect", 1), ("cycle", 0), ("scan", 2)):
    _mkstage("Iterator::" + _n, _n, _k)
_mkstage("IntoIter::filter_entry", "filter_entry", 1)


@model("Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Iterator::peekable", "Iterator::fuse", "Iterator::into_iter")
def istransp(e, st, c):
    return [(st, c.args[0] if c.name.endswith("by_ref") else val(e, st, c.args[0]))]


LOSSY = ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "zip", "scan")


def src_item(e, src, L, k):
    """The generic element of an iteration."""
    if src.t == "mseq":
        pl = src.a[0]
        return mk("mref", pl.a[0], pl.a[1], pl.a[2] + (("each", L),))
    if src.t == "mvals":
        pl = src.a[0]
        return mk("mref", pl.a[0], pl.a[1], pl.a[2] + (("each", L),))
    if src.t == "map_items":
        return mk("tup", mk("elem", mk("map_keys", src.a[0]), L), mk("elem", mk("map_values", src.a[0]), L))
    return mk("elem", src, L) if not k else mk("elem", src, L, k)


def apply_stages(e, st, it, L, k, site):
    """[(state, 'item'|'skip', value)] for the generic element of iteration L."""
    cur = [(st, "item", src_item(e, it.a[0], L, k))]
    filtered = False
    for stg in it.a[1]:
        nxt = []
        for s, kind, v in cur:
            if kind != "item":
                nxt.append((s, kind, v))
                continue
            n = stg.t
            if n == "enumerate":
                nxt.append((s, kind, mk("idx", it.a[0], L) if stg.a and stg.a[0] == "ix" else mk("tup", mk("idxf" if filtered else "idx", it.a[0], L), v)))
            elif n == "map":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    nxt.append((s2, "item", r))
            elif n in ("filter", "filter_entry"):
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    for s3, b in e.branch(s2, val(e, s2, r)):
                        nxt.append((s3, "item" if b else "skip", v))
            elif n == "filter_map":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    for s3, var in e.variant(s2, r, OPT):
                        nxt.append((s3, "item", e.payload(r, "Some")) if var == "Some" else (s3, "skip", None))
            elif n in ("flat_map", "flatten"):
                rs = e.call_value(s, stg.a[0], [v], site) if n == "flat_map" else [(s, v)]
                for s2, r in rs:
                    inner = it_of(e, s2, r)
                    sv = seq_view(e, inner.a[0].a[0]) if inner.a[0].t == "seq" and not inner.a[1] else None
                    if sv is not None and sv.t == "arr" and len(sv.a) <= 1:
                        if sv.a:
                            nxt.append((s2, "item", sv.a[0]))
                        else:
                            nxt.append((s2, "skip", None))
                        continue
                    s2 = s2.copy()
                    s2.conds[mk("flat", inner, L)] = True
                    nxt += apply_stages(e, s2, inner, L, "f", site)
            elif n == "zip":
                for s2, kd, v2 in apply_stages(e, s, stg.a[0], L, k, site):
                    nxt.append((s2, kd, mk("tup", v, v2)))
            elif n == "chain":
                s1 = s.copy()
                s1.conds[mk("chained", it.a[0], L)] = 0
                nxt.append((s1, "item", v))
                s2 = s.copy()
                s2.conds[mk("chained", it.a[0], L)] = 1
                nxt += apply_stages(e, s2, stg.a[0], L, k, site)
            elif n == "inspect":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    nxt.append((s2, "item", v))
            elif n in ("take_while", "skip_while"):
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    for s3, b in e.branch(s2, val(e, s2, r)):
                        nxt.append((s3, "item" if b == (n == "take_while") else "skip", v))
            elif n == "map_while":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    for s3, var in e.variant(s2, r, OPT):
                        nxt.append((s3, "item", e.payload(r, "Some")) if var == "Some" else (s3, "skip", None))
            else:
                nxt.append((s, kind, v))
        if stg.t in ("filter", "filter_map", "flat_map", "flatten", "filter_entry", "take_while", "skip_while", "map_while", "chain"):
            filtered = True
        cur = nxt
    return cur


@model("Iterator::next", "DoubleEndedIterator::next_back", "DoubleEndedIterator::next_back")
def inext(e, st, c):
    pl = c.args[0]
    if pl.t != "mref":
        return None
    it = e.load(st, pl)
    if it.t != "iter":
        # an iterator the models do not know: wrap it once
        it = mk("iter", mk("opq", it), (), 0)
    stt = it.a[2]
    if c.name != "Iterator::next":
        it = mk("iter", it.a[0], it.a[1] + (mk("back"),), *it.a[2:])
    if stt == "L":
        L, k = it.a[3], it.a[4]
        stages = tuple(x for x in it.a[1] if not (x.t == "enumerate" and x.a and x.a[0] == "ix"))
        nx = mk("next", it.a[0], stages, L) if not k else mk("next", it.a[0], stages, L, k)
        out = []
        for s, b in e.branch(st, nx):
            s = s.copy()
            if not b:
                out.append((s, NONE))
                continue
            e.store(s, pl, mk("iter", it.a[0], it.a[1], "L", L, k + 1))
            for s2, kind, v in apply_stages(e, s, it, L, k, c.site):
                if kind == "skip":
                    out.append((s2, "!skip"))
                else:
                    out.append((s2, some(v)))
        return out
    if stt == "after":
        nx = mk("has", it, 0)
        return [(s, some(mk("nth", mk("resume", it.a[0], it.a[3]), 0)) if b else NONE) for s, b in e.branch(st, nx)]
    k = stt
    st = st.copy()
    src = it.a[0]
    e.store(st, pl, mk("iter", src, it.a[1], k + 1))
    back = len(it.a[1]) == 1 and it.a[1][0].t == "back"
    if (src.t == "rsplit" and not it.a[1]) or (src.t == "split" and back and k == 0):
        sp = mk("split", *src.a)
        if k == 0:
            return [(st, some(mk("nth", sp, -1)))]
        return [(s, some(mk("nth", sp, -1 - k)) if b else NONE) for s, b in e.branch(st, mk("has", sp, k))]
    if src.t == "rsplitn" and not it.a[1] and isc(src.a[1]) and cval(src.a[1]) == 2 and k < 2:
        sp = mk("split", src.a[0], src.a[2])
        if k == 0:
            return [(st, some(mk("nth", sp, -1)))]
        return [(s, some(op("rbefore1", src.a[0], src.a[2])) if b else NONE) for s, b in e.branch(st, op("has_sep", src.a[0], src.a[2]))]
    if not it.a[1] or all(x.t in ("enumerate",) for x in it.a[1]):
        sv = seq_view(e, src.a[0]) if src.t == "seq" else None

        def wrapv(x):
            for s_ in it.a[1]:
                x = mk("tup", C(k, "usize"), x)
            return x
        if sv is not None and sv.t == "arr":
            return [(st, some(wrapv(sv.a[k])) if k < len(sv.a) else NONE)]
        if src.t in ("split", "splitn", "rsplit", "rsplitn") and k == 0:
            return [(st, some(wrapv(mk("nth", src, 0))))]
        return [(s, some(wrapv(mk("nth", src, k))) if b else NONE) for s, b in e.branch(st, mk("has", src, k))]
    return [(s, some(op("nextof", it)) if b else NONE) for s, b in e.branch(st, mk("has", it, k))]


@model("Iterator::nth")
def inth(e, st, c):
    it = val(e, st, c.args[0])
    if it.t == "iter" and not it.a[1] and isinstance(it.a[2], int) and isc(c.args[1]):
        k = it.a[2] + cval(c.args[1])
        src = it.a[0]
        sv = seq_view(e, src.a[0]) if src.t == "seq" else None
        if sv is not None and sv.t == "arr":
            return [(st, some(sv.a[k]) if k < len(sv.a) else NONE)]
        if src.t in ("split", "splitn") and k == 0:
            return [(st, some(mk("nth", src, 0)))]
        if src.t == "rsplit":
            src = mk("split", *src.a)
            return [(s, some(mk("nth", src, -1 - k)) if b else NONE) for s, b in e.branch(st, mk("has", src, k))]
        return [(s, some(mk("nth", src, k)) if b else NONE) for s, b in e.branch(st, mk("has", src, k))]
    return None


def consume(e, st, it, site, tag, item_fn):
    """Generic consumption of an iterator as a loop. item_fn(state, value) -> [(state, 'cont'|exit tag, payload)].
    Returns [(state, 'done'|exit tag, payload)]."""
    if it.a[2] not in (0,) and isinstance(it.a[2], int):
        it = mk("iter", mk("rest", it.a[0], it.a[2]), it.a[1], 0)
    sv = None
    if it.a[0].t == "seq" and it.a[2] == 0:
        sv = seq_view(e, it.a[0].a[0])
    if sv is not None and sv.t == "arr" and len(sv.a) <= 6 and not any(s.t in LOSSY or s.t in ("chain", "rev", "back", "cycle") for s in it.a[1]):
        # a literal sequence: element by element
        cur, out = [st], []
        for i, x in enumerate(sv.a):
            nxt = []
            for s in cur:
                one = mk("iter", mk("seq", mk("arr", x)), it.a[1], "L", -1, 0)
                for s2, kind, v in apply_lit(e, s, it.a[1], x, i, site):
                    if kind == "skip":
                        nxt.append(s2)
                        continue
                    for s3, kd, p in item_fn(s2, v):
                        (nxt.append(s3) if kd == "cont" else out.append((s3, kd, p)))
            cur = nxt
        return out + [(s, "done", None) for s in cur]
    key = ("consume", tag, site[0], site[1], site[2], it)
    Lbox = {}

    def body(S):
        L = e._lkeys.get(Lbox["sig"])
        nx = mk("next", it.a[0], it.a[1], L)
        s1 = S.cond(nx, True)
        outs = []
        for s2, kind, v in apply_stages(e, s1, it, L, 0, site):
            if kind == "skip":
                outs.append((s2, "cont", None))
            else:
                outs += [(a, b_, p) for a, b_, p in item_fn(s2, v)]
        outs.append((S.cond(nx, False), "done", None))
        return outs

    sig = (key, frozenset(st.env.items()), frozenset(st.conds.items()))
    Lbox["sig"] = sig
    e._lkeys.setdefault(sig, len(e._lkeys) + 1)
    return e.run_loop(st, key, body)


def apply_lit(e, st, stages, x, i, site):
    cur = [(st, "item", x)]
    for stg in stages:
        nxt = []
        for s, kind, v in cur:
            if kind != "item":
                nxt.append((s, kind, v))
            elif stg.t == "enumerate":
                nxt.append((s, kind, mk("tup", C(i, "usize"), v)))
            elif stg.t == "map":
                nxt += [(s2, "item", r) for s2, r in e.call_value(s, stg.a[0], [v], site)]
            elif stg.t == "filter":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    nxt += [(s3, "item" if b else "skip", v) for s3, b in e.branch(s2, r)]
            elif stg.t == "filter_map":
                for s2, r in e.call_value(s, stg.a[0], [v], site):
                    for s3, var in e.variant(s2, r, OPT):
                        nxt.append((s3, "item", e.payload(r, "Some")) if var == "Some" else (s3, "skip", None))
            else:
                nxt.append((s, kind, v))
        cur = nxt
    return cur


def get_iter(e, st, c):
    it = val(e, st, c.args[0])
    if it.t != "iter":
        it = it_of(e, st, c.args[0])
    return it


def acc_place(e, st, c, init):
    """A fresh pseudo local used as accumulator."""
    fid = e.frame(c.site[2], "acc", (c.site[0], c.site[1], c.name))
    st.env[(fid, 0)] = init
    return mk("mref", fid, 0, ())


def acc_done(e, s, pl):
    s = s.copy()
    v = s.env.pop((pl.a[0], pl.a[1]))
    return s, v


@model("Iterator::collect", "FromIterator::from_iter")
def collect(e, st, c):
    it = get_iter(e, st, c)
    d = c.dty or (c.targs[-1] if c.targs else "")
    res = None
    if d.startswith("std::result::Result<"):
        res, d = "Result", d[len("std::result::Result<"):]
    elif d.startswith("std::option::Option<"):
        res, d = "Option", d[len("std::option::Option<"):]
    st = st.copy()
    kind = d.split("<")[0]
    if kind.endswith("String"):
        init, mkop = EMPTYSTR, lambda s, v: mk("o", "push_str", v)
    elif "Map" in kind:
        init, mkop = op("map_new", kind.split("::")[-1]), lambda s, v: mk("o", "insert", e.field(v, "0"), e.field(v, "1"))
    elif "Set" in kind:
        init, mkop = op("map_new", kind.split("::")[-1]), lambda s, v: mk("o", "insert", v)
    else:
        init, mkop = VECNEW, lambda s, v: mk("o", "push", v)
    if init is VECNEW and res is None and not it.a[1] and it.a[2] == 0:
        if it.a[0].t == "seq":
            return [(st, it.a[0].a[0])]
        return [(st, mk("coll", it.a[0]))]
    pl = acc_place(e, st, c, init)

    def item(s, v):
        if res:
            outs = []
            for s2, var in e.variant(s, v, RES if res == "Result" else OPT):
                if var in ("Ok", "Some"):
                    s2 = s2.copy()
                    e.mutate(s2, pl, mkop(s2, e.payload(v, var)))
                    outs.append((s2, "cont", None))
                else:
                    outs.append((s2, "brk", err(e.payload(v, "Err")) if var == "Err" else NONE))
            return outs
        s = s.copy()
        e.mutate(s, pl, mkop(s, val(e, s, v)))
        return [(s, "cont", None)]

    out = []
    for s, k, p in consume(e, st, it, c.site, "collect", item):
        s, v = acc_done(e, s, pl)
        if k == "done":
            if v.t == "mut":
                sv = seq_view(e, v)
                if sv is not None and sv.t == "coll":
                    v = sv.a[0].a[0] if sv.a[0].t == "seq" else sv
            v = (ok(v) if res == "Result" else some(v)) if res else v
            out.append((s, v))
        else:
            out.append((s, p))
    return out


@model("Extend::extend", "Vec::extend")
def extend(e, st, c):
    it = val(e, st, c.args[1])
    ty = c.targs[0] if c.targs else ""
    if it.t != "iter":
        t2 = c.targs[-1] if c.targs else ""
        if ty.startswith("std::vec::Vec") and "Map<" not in t2 and it.t != "agg":
            return _mut(e, st, c, mk("o", "extend", it))
        it = it_of(e, st, c.args[1], t2)
    if ty.startswith("std::vec::Vec") and not it.a[1] and it.a[0].t == "seq" and it.a[2] == 0:
        return _mut(e, st, c, mk("o", "extend", it.a[0].a[0]))
    pl = c.args[0]
    if pl.t != "mref":
        return None
    st = st.copy()

    def item(s, v):
        s = s.copy()
        if "Map<" in ty:
            e.mutate(s, pl, mk("o", "insert", e.field(v, "0"), e.field(v, "1")))
        elif "Set<" in ty:
            e.mutate(s, pl, mk("o", "insert", v))
        elif ty.endswith("String"):
            e.mutate(s, pl, mk("o", "push_str", v))
        else:
            e.mutate(s, pl, mk("o", "push", val(e, s, v)))
        return [(s, "cont", None)]
    return [(s, UNIT) for s, k, p in consume(e, st, it, c.site, "extend", item)]


@model("Iterator::for_each", "Iterator::try_for_each")
def for_each(e, st, c):
    it = get_iter(e, st, c)
    tr = c.name.endswith("try_for_each")

    def item(s, v):
        outs = []
        for s2, r in e.call_value(s, c.args[1], [v], c.site):
            if tr:
                for s3, var in e.variant(s2, r, RES):
                    outs.append((s3, "cont", None) if var == "Ok" else (s3, "brk", r))
            else:
                outs.append((s2, "cont", None))
        return outs
    return [(s, (p if k == "brk" else (ok(UNIT) if tr else UNIT))) for s, k, p in consume(e, st, it, c.site, "for_each", item)]


@model("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::position", "Iterator::find_map")
def iany(e, st, c):
    it = get_iter(e, st, c)
    n = c.name.split("::")[1]
    idx = [0]

    def item(s, v):
        outs = []
        for s2, r in e.call_value(s, c.args[1], [v], c.site):
            if n == "find_map":
                for s3, var in e.variant(s2, r, OPT):
                    outs.append((s3, "brk", r if r.t == "agg" else some(e.payload(r, "Some"))) if var == "Some" else (s3, "cont", None))
                continue
            for s3, b in e.branch(s2, val(e, s2, r)):
                if n == "any":
                    outs.append((s3, "brk", TRUE) if b else (s3, "cont", None))
                elif n == "all":
                    outs.append((s3, "cont", None) if b else (s3, "brk", FALSE))
                elif n == "find":
                    outs.append((s3, "brk", some(v)) if b else (s3, "cont", None))
                else:
                    outs.append((s3, "brk", some(op("position", it))) if b else (s3, "cont", None))
        return outs
    dflt = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE}[n]
    return [(s, p if k == "brk" else dflt) for s, k, p in consume(e, st, it, c.site, n, item)]


@model("Iterator::fold", "Iterator::count", "Iterator::sum", "Iterator::product_", "Iterator::try_fold_")
def ifold(e, st, c):
    it = get_iter(e, st, c)
    n = c.name.split("::")[1]
    if n == "count" and not it.a[1] and it.a[2] == 0:
        return [(st, length(e, it.a[0].a[0]) if it.a[0].t == "seq" else op("len", mk("coll", it.a[0])))]
    st = st.copy()
    init = c.args[1] if n == "fold" else C(0, c.dty or "usize")
    pl = acc_place(e, st, c, init)

    def item(s, v):
        if n == "fold":
            acc = e.load(s, pl)
            outs = []
            for s2, r in e.call_value(s, c.args[2], [acc, v], c.site):
                s2 = s2.copy()
                e.store(s2, pl, r)
                outs.append((s2, "cont", None))
            return outs
        s = s.copy()
        acc = e.load(s, pl)
        e.store(s, pl, binop("Add", acc, C(1, "usize") if n == "count" else val(e, s, v)))
        return [(s, "cont", None)]
    out = []
    for s, k, p in consume(e, st, it, c.site, n, item):
        s, v = acc_done(e, s, pl)
        out.append((s, v))
    return out


@model("Iterator::partition", "Iterator::unzip")
def ipartition(e, st, c):
    it = get_iter(e, st, c)
    st = st.copy()
    pl = acc_place(e, st, c, mk("tup", VECNEW, VECNEW))

    def put(s, i, v):
        s = s.copy()
        e.mutate(s, mk("mref", pl.a[0], pl.a[1], ((".", str(i)),)), mk("o", "push", v))
        return (s, "cont", None)

    def item(s, v):
        if c.name.endswith("unzip"):
            s2 = put(s, 0, e.field(v, "0"))[0]
            return [put(s2, 1, e.field(v, "1"))]
        outs = []
        for s2, r in e.call_value(s, c.args[1], [v], c.site):
            for s3, b in e.branch(s2, val(e, s2, r)):
                outs.append(put(s3, 0 if b else 1, v))
        return outs
    return [acc_done(e, s, pl) for s, k, p in consume(e, st, it, c.site, "partition", item)]


@model("Iterator::max", "Iterator::min", "Iterator::last", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by", "Iterator::reduce")
def imax(e, st, c):
    it = get_iter(e, st, c)
    st = st.copy()
    if c.name == "Iterator::last" and not it.a[1] and it.a[2] == 0 and it.a[0].t in ("split", "rsplit"):
        return [(st, some(mk("nth", mk("split", *it.a[0].a), -1 if it.a[0].t == "split" else 0)))]
    # the mapped elements are still evaluated (they may contain effects); the result stays symbolic
    src_empty = op("is_empty", it.a[0].a[0]) if it.a[0].t == "seq" and not any(s.t in ("filter", "filter_map", "flat_map") for s in it.a[1]) else None
    vals = []
    pl = acc_place(e, st, c, VECNEW)

    def item(s, v):
        s = s.copy()
        e.mutate(s, pl, mk("o", "push", v))
        return [(s, "cont", None)]
    out = []
    for s, k, p in consume(e, st, it, c.site, c.name, item):
        s, v = acc_done(e, s, pl)
        b = e.branch(s, src_empty if src_empty is not None else op("is_empty", v))
        for s2, em in b:
            out.append((s2, NONE if em else some(op(c.name.split("::")[1], v))))
    return out


@model("str::split_once", "str::rsplit_once")
def split_once(e, st, c):
    s, sep = val(e, st, c.args[0]), val(e, st, c.args[1])
    n = c.name.split("::")[1]
    out = []
    t = op("has_sep", s, sep)
    for s2, b in e.branch(st, t):
        if not b:
            out.append((s2, NONE))
        elif n == "split_once":
            out.append((s2, some(mk("tup", mk("nth", mk("split", s, sep), 0), op("after1", s, sep)))))
        else:
            out.append((s2, some(mk("tup", op("rbefore1", s, sep), op("rafter1", s, sep)))))
    return out


@model("str::find", "str::rfind", "str::contains_")
def sfind(e, st, c):
    s, sep = val(e, st, c.args[0]), val(e, st, c.args[1])
    t = op("has_sep", s, sep)
    return [(s2, some(op(c.name.split("::")[1], s, sep)) if b else NONE) for s2, b in e.branch(st, t)]


@model("str::contains")
def scontains(e, st, c):
    return [(st, op("has_sep", val(e, st, c.args[0]), val(e, st, c.args[1])))]


# ---------- effects ----------
@model("io::_print", "io::_eprint")
def prints(e, st, c):
    if "print" in e.events:
        st = st.copy()
        st.event("print", "out" if c.name == "io::_print" else "err", val(e, st, c.args[0]), mk("site", c.site[0], c.site[1]))
    return [(st, UNIT)]


@model("__private_api::log", "__private_api::loc", "log::max_level", "__private_api::log_impl", "__private_api::enabled")
def logs(e, st, c):
    return [(st, op("log"))]


@model("process::exit")
def pexit(e, st, c):
    st = st.copy()
    st.event("exit", c.args[0], mk("site", c.site[0], c.site[1]))
    e._div.append(st)
    return []


@model("process::abort")
def pabort(e, st, c):
    st = st.copy()
    st.event("exit", op("abort"), mk("site", c.site[0], c.site[1]))
    e._div.append(st)
    return []


@model("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_display", "panicking::assert_failed", "panicking::panic_explicit", "rt::begin_panic", "panicking::panic_display", "panicking::panic_str_2015", "panicking::unreachable_panic")
def ppanic(e, st, c):
    return []


# Commands
@model("Command::new")
def cmd_new(e, st, c):
    return [(st, op("cmd", val(e, st, c.args[0])))]


@model("Command::arg", "Command::args", "Command::env", "Command::envs", "Command::current_dir", "Command::stdout", "Command::stderr", "Command::stdin", "Command::env_clear", "Command::env_remove", "CommandExt::arg0", "CommandExt::process_group")
def cmd_op(e, st, c):
    n = c.name.split("::")[1]
    st = st.copy()
    pl = c.args[0]
    if n in ("args", "envs"):
        it = val(e, st, c.args[1])
        if it.t != "iter":
            sv = seq_view(e, it)
            it = it_of(e, st, c.args[1], (c.targs[0] if c.targs else ""))
        outs = []

        def item(s, v):
            s = s.copy()
            if n == "args":
                e.mutate(s, pl, mk("o", "arg", val(e, s, v)))
            else:
                e.mutate(s, pl, mk("o", "env", e.field(v, "0"), e.field(v, "1")))
            return [(s, "cont", None)]
        return [(s, pl) for s, k, p in consume(e, st, it, c.site, n, item)]
    if pl.t == "mref":
        e.mutate(st, pl, mk("o", n, *[val(e, st, a) for a in c.args[1:]]))
    return [(st, pl)]


@model("Command::output", "Command::status", "Command::spawn")
def cmd_run(e, st, c):
    st = st.copy()
    v = val(e, st, c.args[0])
    how = c.name.split("::")[1]
    st.event("exec", how, v, mk("site", c.site[0], c.site[1]))
    return [(st, op("ran", how, v))]


@model("Child::wait", "Child::wait_with_output", "Child::try_wait", "Child::kill")
def child_wait(e, st, c):
    st = st.copy()
    v = val(e, st, c.args[0])
    st.event("childwait", c.name.split("::")[1], v)
    return [(st, op("waited", c.name.split("::")[1], v))]


# Threads
@model("thread::spawn", "Builder::spawn", "Scope::spawn")
def tspawn(e, st, c):
    st = st.copy()
    f = c.args[-1]
    inner = st.copy()
    inner.ev = ()
    nd = len(e._div)
    res = e.call_value(inner, f, [], c.site)
    divs = e._div[nd:]
    del e._div[nd:]
    tid = e._lkeys.setdefault(("thread", c.site, f), len(e._lkeys) + 1)
    alts = []
    for s, r in res:
        e.thread_groups[(tid, len(alts))] = tuple(g for g in s.groups if g not in st.groups)
        alts.append(({k: v for k, v in s.conds.items() if st.conds.get(k) != v}, s.ev, r))
    e.threads[tid] = alts
    h = mk("handle", tid)
    st.event("spawn", tid, mk("site", c.site[0], c.site[1]))
    if c.name == "Builder::spawn":
        return [(s, ok(h) if b else err(op("spawn_error"))) for s, b in e.branch(st, op("spawned", h))]
    return [(st, h)]


@model("JoinHandle::join", "ScopedJoinHandle::join")
def tjoin(e, st, c):
    h = val(e, st, c.args[0])
    hs = resolve_handles(e, h)
    out = []
    st = st.copy()
    st.event("join", h, mk("site", c.site[0], c.site[1]))
    r = op("joined", h)
    for s, var in e.variant(st, r, RES):
        if var == "Err":
            out.append((s, err(op("panic", h))))
        elif hs is not None and len(hs) == 1 and hs[0].t == "handle" and len(e.threads[hs[0].a[0]]) <= 12:
            for i, (conds, ev, rv) in enumerate(e.threads[hs[0].a[0]]):
                s2 = s.copy()
                s2.conds[mk("alt", h)] = i
                for k, v in conds.items():
                    s2.conds[k] = v
                s2.groups = s2.groups + tuple(g for g in e.thread_groups.get((hs[0].a[0], i), ()) if g not in s2.groups)
                out.append((s2, ok(rv)))
        else:
            out.append((s, ok(op("pl:Ok", r))))
    return out


def resolve_handles(e, h, depth=0):
    """The thread handles a term may denote, looking through vectors filled in loops."""
    if h.t == "handle":
        return [h]
    if depth > 6:
        return None
    if h.t == "elem":
        src = h.a[0]
        if src.t == "seq":
            return _pushed(e, src.a[0], lambda x: resolve_handles(e, x, depth + 1))
        return None
    if h.t == "op" and h.a[0].startswith(".") and len(h.a) == 2:
        b = h.a[1]
        if b.t == "elem" and b.a[0].t == "seq":
            return _pushed(e, b.a[0].a[0], lambda x: resolve_handles(e, e.field(x, h.a[0][1:]), depth + 1))
    if h.t == "op" and h.a[0] == "popped":
        return _pushed(e, h.a[1], lambda x: resolve_handles(e, x, depth + 1))
    return None


def _pushed(e, v, f):
    out = set()
    if v.t != "mut":
        return None

    def ops(os):
        for o in os:
            if o.a[0] == "push":
                r = f(o.a[1])
                if r is None:
                    return False
                out.update(r)
            elif o.a[0] == "loop":
                for per in e.loops[o.a[1]].ops.get(o.a[2]) or [(mk("o", "?"),)]:
                    if not ops(per):
                        return False
            elif o.a[0] in ("sort", "pop"):
                pass
            else:
                return False
        return True
    if not ops(v.a[1:]):
        return None
    return sorted(out)


# parse
@model("str::parse")
def sparse(e, st, c):
    v = val(e, st, c.args[0])
    t = c.targs[0] if c.targs else ""
    p = e.find_impl("std::str::FromStr", "from_str", t)
    if p and p in e.F["fns"]:
        return e.call(st, {"k": "fn", "path": p, "res": p, "targs": [], "local": True, "rk": "item"}, [v], ["&str"], c.dty, c.site)
    return [(st, op("parse", v, t))]


@model("Result::into_ok_")
def _y(e, st, c):
    return None


@model("TempDir::with_prefix", "TempDir::new", "tempfile::tempdir", "TempDir::with_prefix_in", "TempDir::new_in", "Builder::tempdir")
def tempdir(e, st, c):
    st = st.copy()
    st.event("tempdir", c.name, mk("site", c.site[0], c.site[1]))
    if "files" in e.events and c.name.split("::")[-1].endswith("_in"):
        st.event("file", c.name if c.name.startswith("tempfile::") else "tempfile::" + c.name, tuple(val(e, st, a) for a in c.args), mk("site", c.site[0], c.site[1]))
    return [(st, op("tempdir", c.site[0]))]


@model("TempDir::path")
def tdpath(e, st, c):
    return [(st, op("tdpath", val(e, st, c.args[0])))]


@model("Path::join")
def pjoin(e, st, c):
    return [(st, op("pjoin", val(e, st, c.args[0]), val(e, st, c.args[1])))]


@model("PathBuf::push")
def ppush(e, st, c):
    st = st.copy()
    if c.args[0].t == "mref":
        v = e.load(st, c.args[0])
        e.store(st, c.args[0], op("pjoin", v, val(e, st, c.args[1])))
    return [(st, UNIT)]


# ---------- toml values ----------
TOML = ("String", "Integer", "Float", "Boolean", "Datetime", "Array", "Table")


def toml_as(kind, option):
    def f(e, st, c):
        if not c.f["path"].startswith("toml::"):
            return None
        v = val(e, st, c.args[0])
        out = []
        for s, var in e.variant(st, v, TOML):
            if option:
                out.append((s, some(e.payload(v, var)) if var == kind else NONE))
            else:
                out.append((s, TRUE if var == kind else FALSE))
        return out
    return f


for _n, _k in (("str", "String"), ("array", "Array"), ("table", "Table"), ("integer", "Integer"), ("bool", "Boolean"), ("float", "Float")):
    model("Value::as_" + _n)(toml_as(_k, True))
    model("Value::is_" + _n)(toml_as(_k, False))
