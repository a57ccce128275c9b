"""Path-wise abstract interpretation of the Python part of the repository (the worker, marks and raises).

Functions of the package are inlined; everything else stays a term (see terms.py). Code of the tests (imported modules,
test classes, setup, bodies, teardown) is a `user` event that may also raise an exception of any class. Loops are
summarised as in mir.py: one generic iteration per path, with what it adds to variables and containers.

Values: c (constant), tup, cat, op, g (dotted external name), pyfn, pyclo, pycls, bound, ref (a mutable object; its
contents are in State.heap), exc (an exception), lv/fold/elem/idx (loops). Statuses of statements: None, ("ret", v),
("raise", exc), ("break",), ("cont",)."""
import ast, builtins, os
from .terms import *
from . import facts as _facts
from . import models as M
from .mir import Cont, Loop, TooComplex, join, dnf

VECNEW = M.VECNEW
DICTNEW = op("map_new")
SETNEW = op("set_new")
NONE = C(None, "none")


class Unsup(Exception):
    pass


def repo():
    return os.environ.get("SA_REPO", "/repo")


GMUT = {"append", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "update", "setdefault", "add", "sort", "reverse", "appendleft", "popleft", "difference_update", "intersection_update", "symmetric_difference_update"}


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.names = {}
        self.pkg = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        for n in self.tree.body:
            self.bind(n)

    def bind(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.names[n.name] = ("func", n)
        elif isinstance(n, ast.ClassDef):
            self.names[n.name] = ("class", n)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for k, v in imports(n, self.pkg):
                self.names[k] = v
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.names[t.id] = ("expr", n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            self.names[n.target.id] = ("expr", n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in list(getattr(n, "body", [])) + list(getattr(n, "orelse", [])):
                self.bind(b)


def imports(n, pkg):
    if isinstance(n, ast.Import):
        for a in n.names:
            yield (a.asname or a.name.split(".")[0]), ("mod", a.name if a.asname else a.name.split(".")[0])
    else:
        base = n.module or ""
        if n.level:
            p = pkg.split(".")
            p = p[:len(p) - (n.level - 1)]
            base = ".".join(p + ([n.module] if n.module else []))
        for a in n.names:
            yield (a.asname or a.name), ("from", base, a.name)


_mods = None


def modules():
    global _mods
    if _mods is None:
        _mods = {}
        root = os.path.join(repo(), "python")
        for d, ds, fs in os.walk(os.path.join(root, "rtest")):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    try:
                        _mods[rel] = Module(rel, p, open(p).read())
                    except SyntaxError as x:
                        raise _facts.BuildError("%s: %s" % (p, x))
    return _mods


# ---- exceptions ----
def ancestors(name):
    """Names of the classes an exception class derives from (itself included), for classes the standard library has."""
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [x.__name__ for x in c.__mro__ if x is not object]
    special = {"re.error": ["re.error", "re.PatternError", "Exception", "BaseException"], "error": ["re.error", "Exception", "BaseException"], "re.PatternError": ["re.error", "re.PatternError", "Exception", "BaseException"],
               "json.JSONDecodeError": ["json.JSONDecodeError", "ValueError", "Exception", "BaseException"]}
    return special.get(name)


# methods of values of the standard library (strings, paths, containers, matches): they run no test code
METHODS = set("""strip lstrip rstrip split rsplit splitlines join replace startswith endswith lower upper format partition rpartition encode decode
removeprefix removesuffix title casefold count find index isidentifier zfill ljust rjust format_map translate isdigit isalpha isalnum
relative_to is_relative_to resolve absolute as_posix with_suffix with_name exists is_file is_dir joinpath expanduser read_text write_text mkdir open
unlink touch rename replace glob rglob iterdir stat samefile
get items keys values setdefault pop popitem update append extend insert remove clear copy sort reverse add discard union intersection difference issubset issuperset symmetric_difference
search match fullmatch findall finditer group groups sub
getvalue write writelines read readline readlines close flush seek truncate
parse_args add_argument add_mutually_exclusive_group add_argument_group parse_known_args print_help error exit
enter_context callback push pop_all total_seconds elapsed perf_counter isatty with_traceback most_common""".split())
MUTATORS = {"append": "push", "add": "insert", "extend": "extend", "insert": "vinsert", "update": "extend", "pop": "pop", "popitem": "pop", "popleft": "pop", "appendleft": "push_front", "remove": "remove",
            "clear": "clear", "sort": "sort", "reverse": "reverse", "discard": "remove", "setdefault": "setdefault", "rotate": "sort"}
SIDE = {"mkdir", "open", "write", "writelines", "unlink", "touch", "rename", "write_text", "close", "flush", "truncate", "error", "exit", "seek"}
QUIET = {"len", "str", "repr", "int", "float", "bool", "isinstance", "issubclass", "callable", "id", "type", "min", "max", "abs", "sum", "hash", "ord", "chr", "print_"}
BOOL = {"eq", "lt", "contains", "isnone", "is", "isinstance", "issubclass", "not", "truth", "excis", "hasattr", "callable", "is_empty", "any", "all"}
BOOLCALL = {"call:inspect.isfunction", "call:inspect.isclass", "call:inspect.ismethod", "call:inspect.isroutine", "call:inspect.isabstract", "call:fnmatch.fnmatch", "call:fnmatch.fnmatchcase", "m:startswith", "m:endswith", "m:is_relative_to",
            "m:exists", "m:is_file", "m:is_dir", "m:isidentifier", "m:isdigit", "call:inspect.isgeneratorfunction", "call:inspect.iscoroutinefunction", "call:asyncio.iscoroutinefunction"}
# library functions that run code of the tests
USERLIB = {"inspect.getmembers", "runpy.run_path", "importlib.import_module", "importlib.reload", "exec", "eval", "inspect.getmembers_static", "runpy.run_module", "__import__"}
# library functions that may raise an exception of this class
LIBRAISE = {"re.compile": "re.error", "m:relative_to": "ValueError", "next": "StopIteration"}


class St:
    __slots__ = ("env", "heap", "attrs", "conds", "ev", "exc", "ctx", "std", "cnt", "groups")

    def __init__(self):
        self.env, self.heap, self.attrs, self.conds = {}, {}, {}, {}
        self.ev, self.exc, self.ctx, self.std, self.cnt, self.groups = (), None, (), {}, {}, ()

    def copy(self):
        s = St.__new__(St)
        s.env, s.heap, s.attrs, s.conds, s.std, s.cnt = dict(self.env), dict(self.heap), dict(self.attrs), dict(self.conds), dict(self.std), dict(self.cnt)
        s.ev, s.exc, s.ctx, s.groups = self.ev, self.exc, self.ctx, self.groups
        return s

    def paths(self, cap=64):
        return dnf(self.conds, self.groups, cap)

    def cond(self, t, v):
        s = self.copy()
        s.conds[t] = v
        return s

    def event(self, name, *args):
        self.ev = self.ev + (mk("ev", name, *args),)


class Frame:
    def __init__(self, fid, mod, node, parent=None, cls=None):
        self.fid, self.mod, self.node, self.parent, self.cls = fid, mod, node, parent, cls
        self.locals = assigned(node) if node is not None else set()
        self.globals = {n for x in ast.walk(node) if isinstance(x, ast.Global) for n in x.names} if node is not None else set()
        self.nonlocals = {n for x in walk_own(node) if isinstance(x, ast.Nonlocal) for n in x.names} if node is not None else set()
        self.locals -= self.globals | self.nonlocals
        self.yields = None          # callback of a yield expression


def walk_own(fn):
    """Nodes of a function, without those of functions nested in it."""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))


def assigned(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    for x in walk_own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {k for k, _ in imports(x, "")}
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    return out


def is_gen(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fn))


_SUMMARY = {}


class Engine:
    selfcls = None

    MAXSTATES = 3000
    MAXSTEPS = 3000000

    def __init__(self, opaque=(), user=None, attrraise=True):
        self.mods = modules()
        self.opaque = set(opaque)
        self.loops = {}
        self.retains = {}
        self.nloop = 0
        self.rs = []
        self.steps = 0
        self.stack = []
        self.inlined = set()
        self.ids = {}
        self.frames = {}
        self.born = {}
        self.constg = {}
        self.active = []
        self.attrraise = attrraise
        self.sites = {}

    # ---- identities ----
    def intern(self, k):
        return self.ids.setdefault(k, len(self.ids) + 1)

    def fresh(self, st, fr, node, tag):
        k = (tag, fr.fid if fr else 0, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        n = st.cnt.get(k, 0)
        st.cnt[k] = n + 1
        i = self.intern(k + (n,))
        return i

    def new(self, st, fr, node, term):
        oid = self.fresh(st, fr, node, "obj")
        st.heap[oid] = term
        self.born.setdefault(oid, tuple(self.active))
        return mk("ref", oid)

    def where(self, fr, node):
        return "%s:%d" % (os.path.relpath(fr.mod.path, repo()), getattr(node, "lineno", 0))

    # ---- freezing ----
    def freeze(self, st, v, seen=()):
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x, seen) for x in v)
        if not isinstance(v, N):
            return v
        if v.t == "ref":
            if v.a[0] in seen or v.a[0] not in st.heap:
                return v
            return self.freeze(st, st.heap[v.a[0]], seen + (v.a[0],))
        if not contains(v, lambda x: x.t == "ref"):
            return v
        a = tuple(self.freeze(st, x, seen) for x in v.a)
        return v if all(x is y for x, y in zip(a, v.a)) else rebuild(v.t, a)

    # ---- truth ----
    def key(self, st, v):
        """(condition term, polarity) or a bool."""
        if v.t == "ref":
            h = st.heap.get(v.a[0])
            if h is None:
                return op("truth", v), True
            if h.t == "agg":
                return True
            v = self.freeze(st, v)
        if isc(v):
            return bool(cval(v))
        t = v.t
        if t == "op":
            n = v.a[0]
            if n == "not":
                k = self.key(st, v.a[1])
                return (not k) if isinstance(k, bool) else (k[0], not k[1])
            if n in BOOL or n in BOOLCALL:
                return v, True
            if n == "truth":
                return v, True
            if n in ("map_new", "set_new"):
                return False
            if n == "len":
                return op("is_empty", v.a[1]), False
        if t in ("pyfn", "pyclo", "pycls", "bound", "g", "exc", "agg", "obj"):
            return True
        if t == "tup":
            return bool(v.a)
        if v is VECNEW:
            return False
        if t == "mut" and v.a[0].t != "lv" and v.a[0].t != "obj":
            if any(o.a[0] in ("push", "insert") for o in v.a[1:]) and not any(o.a[0] in ("pop", "remove", "clear") for o in v.a[1:]):
                return True
            return op("is_empty", v), False
        if t == "mut" or t == "coll":
            return op("is_empty", v), False
        if t == "cat":
            return True if any(isc(x) and cval(x) for x in v.a) else (op("truth", v), True)
        return op("truth", v), True

    def fold_const(self, st, k):
        """The value of a condition term that follows from its shape or from what is known on the path."""
        if k in st.conds:
            return st.conds[k]
        n = k.a[0] if k.t == "op" else None
        if n == "isnone":
            v = k.a[1]
            if isc(v):
                return cval(v) is None
            if v.t in ("tup", "cat", "agg", "mut", "ref", "pyfn", "pyclo", "pycls", "bound", "g", "exc", "coll", "obj", "iter") or v is VECNEW or v in (DICTNEW, SETNEW):
                return False
            if v.t == "op" and (v.a[0] in BOOL or v.a[0] in BOOLCALL or v.a[0] in ("len", "add", "sub", "call:str", "call:repr", "format")):
                return False
            if st.conds.get(op("truth", v)) is True:
                return False
            for q, w in st.conds.items():
                if w is True and q.t == "op" and q.a[0] == "eq" and q.a[1] is v and isc(q.a[2]):
                    return cval(q.a[2]) is None
                if w is True and q.t == "op" and q.a[0] == "isinstance" and q.a[1] is v:
                    return False
        elif n == "truth":
            v = k.a[1]
            if st.conds.get(op("isnone", v)) is True:
                return False
            for q, w in st.conds.items():
                if w is True and q.t == "op" and q.a[0] == "eq" and q.a[1] is v and isc(q.a[2]):
                    return bool(cval(q.a[2]))
            if v.t == "op" and v.a[0] == "getattr" and len(v.a) == 4:
                h = st.conds.get(op("hasattr", v.a[1], v.a[2]))
                if h is False and isc(v.a[3]):
                    return bool(cval(v.a[3]))
        elif n == "eq":
            x, y = k.a[1], k.a[2]
            if isc(x) and isc(y):
                return cval(x) == cval(y)
            if x is y:
                return True
            if isc(y):
                for q, w in st.conds.items():
                    if w is True and q.t == "op" and q.a[0] == "eq" and q.a[1] is x and isc(q.a[2]):
                        return cval(q.a[2]) == cval(y)
                t = st.conds.get(op("truth", x))
                if t is True and not cval(y) and x.t != "c":
                    return False
                if cval(y) is not None and st.conds.get(op("isnone", x)) is True:
                    return False
                if x.t == "op" and x.a[0] == "len" and cval(y) == 0 and op("is_empty", x.a[1]) in st.conds:
                    return st.conds[op("is_empty", x.a[1])]
        elif n == "lt":
            x, y = k.a[1], k.a[2]
            if isc(x) and isc(y):
                return cval(x) < cval(y)
            if x.t == "op" and x.a[0] == "len" and isc(y) and type(cval(y)) is int and cval(y) <= 0:
                return False
        elif n == "is":
            if k.a[1] is k.a[2]:
                return True
            if isc(k.a[1]) and isc(k.a[2]):
                return cval(k.a[1]) is cval(k.a[2])
        elif n == "excis":
            return self.excis(st, k.a[1], k.a[2])
        elif n == "isinstance":
            return self.isinst(st, k.a[1], k.a[2])
        elif n == "contains":
            if k.a[1] in (VECNEW, DICTNEW, SETNEW):
                return False
        elif n == "is_empty":
            v = k.a[1]
            if v is VECNEW or v in (DICTNEW, SETNEW):
                return True
            if v.t == "tup":
                return not v.a
            if v.t == "coll" and v.a[0].t == "seq" and v.a[0].a[0].t in ("mut",):
                return st.conds.get(op("is_empty", v.a[0].a[0]))
        elif n == "hasattr":
            g = op("getattr", k.a[1], k.a[2], NONE)
            if st.conds.get(op("truth", g)) is True:
                return True
            if k.a[1].t == "agg":
                return cval(k.a[2]) in dict(k.a[1].a[2]) if isc(k.a[2]) else None
        elif n == "callable":
            if k.a[1].t in ("pyfn", "pyclo", "pycls", "bound"):
                return True
            if isc(k.a[1]):
                return False
        return None

    def clsname(self, c):
        if c.t == "g":
            return c.a[0]
        if c.t == "pycls":
            return c.a[0].split(":")[-1]
        return None

    def excis(self, st, e, c):
        name = self.clsname(c)
        if e.t == "exc" and e.a[0] != "user":
            anc = ancestors(e.a[0])
            if anc is None:
                anc = self.local_anc(e.a[0])
            if anc is not None and name is not None:
                return name in anc
            return None
        if name == "BaseException":
            return True
        for q, w in st.conds.items():
            if q.t == "op" and q.a[0] == "excis" and q.a[1] is e:
                n2 = self.clsname(q.a[2])
                a2, a1 = ancestors(n2 or ""), ancestors(name or "")
                if w is True and a2 and name in a2:
                    return True
                if w is True and a1 and a2 and name not in a2 and n2 not in a1:
                    # two unrelated classes: an exception of both kinds is not considered
                    return False
                if w is False and a1 and n2 in a1:
                    return False
        return None

    def local_anc(self, name):
        for m in self.mods.values():
            d = m.names.get(name)
            if d and d[0] == "class":
                out = [name]
                for b in d[1].bases:
                    n = ast.unparse(b)
                    out += ancestors(n) or self.local_anc(n) or [n]
                return out
        return None

    KIND = {"str": str, "int": int, "float": float, "bool": bool, "tuple": tuple, "list": list, "dict": dict, "set": set, "bytes": bytes}

    def isinst(self, st, v, c):
        if c.t == "tup":
            vals = [self.fold_const(st, op("isinstance", v, x)) for x in c.a]
            return True if True in vals else False if all(x is False for x in vals) else None
        n = self.clsname(c)
        if v.t == "exc":
            return self.excis(st, v, c)
        T = self.KIND.get(n)
        if T is None:
            if isc(v) and n is not None and n in ("type", "re.Pattern", "Path", "pathlib.Path", "BaseException"):
                return False
            if v.t in ("pycls", "g") and n == "type":
                return True if v.t == "pycls" else None
            if v.t == "agg" and c.t == "pycls":
                return v.a[0] == c.a[0]
            return None
        if isc(v):
            return isinstance(cval(v), T)
        if v.t == "cat":
            return T is str
        if v.t == "tup":
            return T is tuple
        if v.t == "coll":
            return T is tuple
        if v is VECNEW or (v.t == "mut" and v.a[0] is VECNEW):
            return T is list
        if v is DICTNEW or (v.t == "mut" and v.a[0] is DICTNEW):
            return T is dict
        if v.t in ("agg", "pyfn", "pyclo", "pycls", "bound", "exc"):
            return False if v.t != "agg" else None
        if st.conds.get(op("isnone", v)) is True:
            return False
        for q, w in st.conds.items():
            if q.t == "op" and q.a[0] == "isinstance" and q.a[1] is v:
                cs = q.a[2].a if q.a[2].t == "tup" else (q.a[2],)
                if w is False and c in cs:
                    return False
                if w is True:
                    ns = [self.clsname(x) for x in cs]
                    if n in ns and len(ns) == 1:
                        return True
                    if T in (str, tuple, list, dict, set) and all(x in ("str", "tuple", "list", "dict", "set") and x != n for x in ns):
                        return False
        return None

    def decide(self, st, v):
        """Branches on the truth of a value: [(state, bool)]."""
        k = self.key(st, v)
        if isinstance(k, bool):
            return [(st, k)]
        t, pol = k
        t = self.freeze(st, t)
        r = self.fold_const(st, t)
        if r is not None:
            return [(st, r is pol)]
        n = t.a[0]
        if n == "contains":
            cs = const_elems(t.a[1])
            if cs is not None:
                t = op("contains", mk("tup", *cs), t.a[2])
        if n == "contains" and t.a[1].t == "tup" and len(t.a[1].a) <= 12:
            out, cur = [], st
            for x in t.a[1].a:
                nxt = None
                for s, b in self.decide(cur, self.eq(t.a[2], x)):
                    if b:
                        out.append((s, True is pol))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            return out + [(cur, False is pol)]
        if n == "isinstance" and t.a[2].t == "tup" and len(t.a[2].a) <= 8:
            out, cur = [], st
            for x in t.a[2].a:
                nxt = None
                for s, b in self.decide(cur, op("isinstance", t.a[1], x)):
                    if b:
                        out.append((s, True is pol))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            return out + [(cur, False is pol)]
        return [(st.cond(t, True), True is pol), (st.cond(t, False), False is pol)]

    def eq(self, x, y):
        if isc(x) and not isc(y):
            x, y = y, x
        if isc(y) and cval(y) is None:
            return op("isnone", x)
        if isc(y) and isinstance(cval(y), bool):
            return x if cval(y) else op("not", x)
        return op("eq", x, y)

    # ---- names ----
    def lookup(self, st, fr, name, node):
        f = fr
        while f is not None:
            if name in f.locals and f.node is not None:
                v = st.env.get((f.fid, name))
                if v is not None:
                    return v
                raise Unsup("%s is read before it is assigned (%s)" % (name, self.where(fr, node)))
            if name in f.globals:
                break
            f = f.parent
        return self.module_name(st, fr.mod, name)

    def module_name(self, st, mod, name):
        d = mod.names.get(name)
        if d is None:
            if hasattr(builtins, name):
                return mk("g", name)
            if name in ("__name__", "__file__"):
                return op("modattr", C(mod.name), C(name))
            raise Unsup("name %s of %s" % (name, mod.name))
        k = d[0]
        if k == "func":
            return mk("pyfn", mod.name + ":" + name)
        if k == "class":
            return mk("pycls", mod.name + ":" + name)
        if k == "mod":
            return mk("g", d[1])
        if k == "from":
            return self.from_import(st, d[1], d[2])
        return self.module_value(st, mod, name, d[1])

    def constant_global(self, mod, name):
        """Whether a module-level name keeps the value (and contents) it has when the module is loaded."""
        k = (mod.name, name)
        if k in self.constg:
            return self.constg[k]
        ok = True
        for m in self.mods.values():
            par = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    par[c] = n
            own = m is mod
            for n in ast.walk(m.tree):
                if own and isinstance(n, ast.Global) and name in n.names:
                    ok = False
                if isinstance(n, ast.Name) and n.id == name:
                    if not own and not (m.names.get(name) or (None, None))[0] == "from":
                        continue
                    p = par.get(n)
                    if isinstance(n.ctx, ast.Load):
                        if isinstance(p, ast.Attribute):
                            g = par.get(p)
                            if isinstance(g, ast.Call) and g.func is p and p.attr in GMUT or not isinstance(p.ctx, ast.Load):
                                ok = False
                        elif isinstance(p, ast.Subscript) and p.value is n and not isinstance(p.ctx, ast.Load):
                            ok = False
                        elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and p.value is n:
                            # another name for it
                            if isinstance((mod.names.get(name) or (None, None))[1], (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                                ok = False
                    elif isinstance(p, ast.AugAssign) and (m is mod):
                        ok = ok and not self.at_module(m, p)
        self.constg[k] = ok
        return ok

    def at_module(self, m, node):
        return any(node is n for n in m.tree.body)

    def from_import(self, st, base, name):
        m = self.mods.get(base)
        if m is not None:
            if base + "." + name in self.mods:
                return mk("g", base + "." + name)
            return self.module_name(st, m, name)
        return mk("g", base + "." + name if base else name)

    def module_value(self, st, mod, name, expr):
        if not self.constant_global(mod, name):
            return mk("g", mod.name + "." + name)
        k = ("glob", mod.name, name)
        oid = self.intern(k)
        if oid in st.heap:
            return mk("ref", oid)
        fr = Frame(self.intern(("modframe", mod.name)), mod, None)
        self.rs.append([])
        self.active.append("module")
        try:
            r = self.eval(fr, expr, st)
        except Unsup:
            r = []
        finally:
            self.rs.pop()
            self.active.pop()
        if len(r) != 1:
            return mk("g", mod.name + "." + name)
        v = r[0][1]
        if v.t == "ref":
            st.heap[oid] = r[0][0].heap[v.a[0]]
            self.born.setdefault(oid, ("module",))
            return mk("ref", oid)
        return v

    # ---- statements ----
    def block(self, fr, body, st):
        """[(status, state)]"""
        live = [st]
        out = []
        for s in body:
            nxt = []
            for x in live:
                for status, y in self.stmt(fr, s, x):
                    if status is None:
                        nxt.append(y)
                    else:
                        out.append((status, y))
            live = self.merge(nxt)
            if not live:
                break
            if len(live) + len(out) > self.MAXSTATES:
                raise TooComplex("too many paths in " + str(self.where(fr, s)))
        return out + [(None, x) for x in live]

    def merge(self, sts):
        if len(sts) < 2:
            return sts
        d = {}
        for s in sts:
            k = (tuple(sorted((str(a), v.id) for a, v in s.env.items())), tuple(sorted((a, v.id) for a, v in s.heap.items())), s.ev, s.exc, s.ctx, tuple(sorted((a, v.id) for a, v in s.std.items())),
                 tuple(sorted(((a[0].id, a[1]), v.id) for a, v in s.attrs.items())))
            o = d.get(k)
            if o is None:
                d[k] = s
            else:
                n = o.copy()
                n.conds, n.groups = join(o, s)
                n.cnt = {a: max(o.cnt.get(a, 0), s.cnt.get(a, 0)) for a in set(o.cnt) | set(s.cnt)}
                d[k] = n
        return list(d.values())

    def stmt(self, fr, s, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooComplex("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsup("statement %s at %s" % (type(s).__name__, self.where(fr, s)))
        self.rs.append([])
        try:
            out = m(fr, s, st)
        finally:
            rs = self.rs.pop()
        return list(out) + [(("raise", e), x) for x, e in rs]

    def s_Pass(self, fr, s, st):
        return [(None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, fr, s, st):
        for k, d in imports(s, fr.mod.pkg):
            st = st.copy()
            st.env[(fr.fid, k)] = mk("g", d[1]) if d[0] == "mod" else self.from_import(st, d[1], d[2])
        return [(None, st)]

    s_ImportFrom = s_Import

    def s_Expr(self, fr, s, st):
        return [(None, x) for x, v in self.eval(fr, s.value, st)]

    def s_Assign(self, fr, s, st):
        out = []
        for x, v in self.eval(fr, s.value, st):
            xs = [x]
            for t in s.targets:
                xs = [z for y in xs for z in self.assign(fr, t, v, y)]
            out += [(None, y) for y in xs]
        return out

    def s_AnnAssign(self, fr, s, st):
        if s.value is None:
            return [(None, st)]
        return [(None, y) for x, v in self.eval(fr, s.value, st) for y in self.assign(fr, s.target, v, x)]

    def s_AugAssign(self, fr, s, st):
        out = []
        load = ast.copy_location(ast.fix_missing_locations(_load(s.target)), s.target)
        for x, a in self.eval(fr, load, st):
            for y, b in self.eval(fr, s.value, x):
                if a.t == "ref" and isinstance(s.op, (ast.Add, ast.BitOr)) and y.heap.get(a.a[0]) is not None and y.heap[a.a[0]].t in ("mut", "op", "lv", "fold"):
                    y = y.copy()
                    self.mutate(y, a, mk("o", "extend", b))
                    out.append((None, y))
                    continue
                v = self.binop(y, s.op, a, b)
                out += [(None, z) for z in self.assign(fr, s.target, v, y)]
        return out

    def s_Return(self, fr, s, st):
        if s.value is None:
            return [(("ret", NONE), st)]
        return [(("ret", v), x) for x, v in self.eval(fr, s.value, st)]

    def s_Break(self, fr, s, st):
        return [(("break",), st)]

    def s_Continue(self, fr, s, st):
        return [(("cont",), st)]

    def s_Delete(self, fr, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st = st.copy()
                st.env.pop((fr.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                r = [(y, b, i) for x, b in self.eval(fr, t.value, st) for y, i in self.eval(fr, t.slice, x)]
                if len(r) != 1:
                    raise Unsup("del")
                st = r[0][0].copy()
                self.effect(st, r[0][1], "remove", (r[0][2],))
            else:
                raise Unsup("del")
        return [(None, st)]

    def s_FunctionDef(self, fr, s, st):
        st = st.copy()
        st.env[(fr.fid, s.name)] = self.closure(fr, s)
        if s.decorator_list and not self.is_cm(fr, s) and not all(isinstance(d, ast.Call) and ast.unparse(d.func) in ("functools.wraps", "wraps") for d in s.decorator_list):
            raise Unsup("decorated inner function " + s.name)
        return [(None, st)]

    def closure(self, fr, node):
        i = self.intern(("clo", fr.fid, node.lineno, node.col_offset))
        self.frames[i] = (fr, node)
        return mk("pyclo", i)

    def s_ClassDef(self, fr, s, st):
        raise Unsup("inner class " + s.name)

    def s_Assert(self, fr, s, st):
        out = []
        for x, b in self.branch(fr, s.test, st):
            if b:
                out.append((None, x))
            else:
                out.append((("raise", mk("exc", "AssertionError", C(self.where(fr, s)))), x))
        return out

    def s_If(self, fr, s, st):
        out = []
        for x, b in self.branch(fr, s.test, st):
            out += self.block(fr, s.body if b else s.orelse, x)
        return out

    def s_Raise(self, fr, s, st):
        if s.exc is None:
            if st.exc is None:
                raise Unsup("bare raise outside a handler")
            return [(("raise", st.exc), st)]
        out = []
        for x, v in self.eval(fr, s.exc, st):
            out.append((("raise", self.as_exc(x, v, fr, s)), x))
        return out

    def as_exc(self, st, v, fr, s):
        if v.t == "exc":
            return v
        if v.t == "g":
            return mk("exc", v.a[0], op("none"))
        if v.t == "pycls":
            return mk("exc", v.a[0].split(":")[-1], op("none"))
        f = self.freeze(st, v)
        if f.t == "op" and f.a[0].startswith("call:"):
            return mk("exc", f.a[0][5:], f)
        if f.t == "agg":
            return mk("exc", f.a[0].split(":")[-1], f)
        return mk("exc", "user", f)

    def s_Try(self, fr, s, st):
        out = []
        final = []
        old_exc = st.exc
        for status, x in self.block(fr, s.body, st):
            if status is None:
                final += self.block(fr, s.orelse, x) if s.orelse else [(None, x)]
            elif status[0] == "raise":
                final += self.handle(fr, s.handlers, status[1], x)
            else:
                final.append((status, x))
        if not s.finalbody:
            return final
        for status, x in final:
            x = x.copy()
            if status is not None and status[0] == "raise":
                x.exc = status[1]
            for st2, y in self.block(fr, s.finalbody, x):
                y = y.copy() if y.exc is not old_exc else y
                y.exc = old_exc
                out.append((status if st2 is None else st2, y))
        return out

    def handle(self, fr, handlers, exc, st):
        out = []
        live = [st]
        for h in handlers:
            nxt = []
            for x in live:
                if h.type is None:
                    ms = [(x, True)]
                else:
                    ms = []
                    for y, c in self.eval(fr, h.type, x):
                        ms += self.matches(y, exc, c)
                for y, b in ms:
                    if not b:
                        nxt.append(y)
                        continue
                    y = y.copy()
                    old = y.exc
                    y.exc = exc
                    if h.name:
                        y.env[(fr.fid, h.name)] = exc
                    for status, z in self.block(fr, h.body, y):
                        z = z.copy()
                        z.exc = old
                        if h.name:
                            z.env.pop((fr.fid, h.name), None)
                        out.append((status, z))
            live = nxt
        return out + [(("raise", exc), x) for x in live]

    def matches(self, st, exc, c):
        cs = c.a if c.t == "tup" else [c]
        if c.t == "ref":
            h = st.heap.get(c.a[0])
            if h is not None and h.t == "tup":
                cs = h.a
            else:
                cs = [c]
        out, cur = [], st
        for x in cs:
            if exc.t == "exc":
                k = op("excis", exc, x)
            else:
                k = op("isinstance", exc, x)
            nxt = None
            for s, b in self.decide(cur, k):
                if b:
                    out.append((s, True))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, False)]

    # ---- with ----
    def s_With(self, fr, s, st):
        return self.withs(fr, s.items, s.body, st, s)

    def withs(self, fr, items, body, st, node):
        if not items:
            return self.block(fr, body, st)
        it = items[0]
        out = []
        for x, v in self.eval(fr, it.context_expr, st):
            out += self.enter(fr, it, v, x, lambda y: self.withs(fr, items[1:], body, y, node), node)
        return out

    def enter(self, fr, it, v, st, run, node):
        """Enters context manager v, runs the body and leaves it again."""
        def bind(x, val):
            return self.assign(fr, it.optional_vars, val, x) if it.optional_vars is not None else [x]
        # a generator-based manager of the package
        if v.t == "cmgr":
            return self.cm_run(fr, v, st, bind, run, node)
        if v.t == "obj" and v.a[0] == "contextlib.ExitStack":
            x = st.copy()
            x.heap[v.a[1]] = mk("tup")
            out = []
            for y in bind(x, v):
                for status, z in run(y):
                    out += self.unwind(fr, v, status, z, node)
            return out
        fz = self.freeze(st, v)
        name = fz.a[0][5:] if fz.t == "op" and fz.a[0].startswith("call:") else None
        h = st.heap.get(v.a[0]) if v.t == "ref" else None
        if h is not None and h.t == "agg" and self.method(h.a[0], "__enter__") is not None:
            out = []
            for x, val in self.call(fr, mk("bound", v, *self.method(h.a[0], "__enter__")), (), {}, st, node):
                for y in bind(x, val):
                    for status, z in run(y):
                        if status is not None and status[0] == "raise":
                            args = (op("type", status[1]), status[1], op("tb", status[1]))
                        else:
                            args = (NONE, NONE, NONE)
                        self.rs.append([])
                        rs = self.call(fr, mk("bound", v, *self.method(h.a[0], "__exit__")), args, {}, z, node)
                        for w, e in self.rs.pop():
                            out.append((("raise", e), w))
                        for w, r in rs:
                            if status is not None and status[0] == "raise":
                                for q, b in self.decide(w, r):
                                    out.append((None, q) if b else (status, q))
                            else:
                                out.append((status, w))
            return out
        if name in ("contextlib.redirect_stdout", "contextlib.redirect_stderr"):
            key = "sys." + name[-6:]
            x = st.copy()
            old = x.std.get(key)
            x.std[key] = fz.a[1] if len(fz.a) > 1 else NONE
            out = []
            for y in bind(x, fz.a[1]):
                for status, z in run(y):
                    z = z.copy()
                    if old is None:
                        z.std.pop(key, None)
                    else:
                        z.std[key] = old
                    out.append((status, z))
            return out
        if name == "contextlib.suppress":
            out = []
            for y in bind(st, NONE):
                for status, z in run(y):
                    if status is not None and status[0] == "raise":
                        c = mk("tup", *[a for a in fz.a[1:] if isinstance(a, N)])
                        for q, b in self.matches(z, status[1], c):
                            out.append((None, q) if b else (status, q))
                    else:
                        out.append((status, z))
            return out
        val = v
        if name is not None and name.startswith("contextlib.") and name not in ("contextlib.nullcontext", "contextlib.closing"):
            raise Unsup("context manager " + name)
        x = st.copy()
        x.event("enter", fz)
        out = []
        for y in bind(x, val if name != "contextlib.nullcontext" else (fz.a[1] if len(fz.a) > 1 else NONE)):
            for status, z in run(y):
                z = z.copy()
                z.event("leave", fz)
                out.append((status, z))
        return out

    def stack_method(self, fr, b, name, args, kw, st, node):
        """A method of an ExitStack."""
        cur = st.heap.get(b.a[1])
        if cur is None or cur.t != "tup":
            raise Unsup("ExitStack filled in a loop")

        def pushed(x, *entry):
            x = x.copy()
            x.heap[b.a[1]] = mk("tup", *x.heap[b.a[1]].a, mk("tup", *entry))
            return x
        if name == "callback" and args:
            return [(pushed(st, C("cb"), args[0], mk("tup", *args[1:]), mk("tup", *[mk("tup", C(k), w) for k, w in kw.items()])), args[0])]
        if name == "enter_context" and len(args) == 1:
            v = args[0]
            h = st.heap.get(v.a[0]) if v.t == "ref" else None
            if h is not None and h.t == "agg" and self.method(h.a[0], "__enter__") is not None:
                return [(pushed(x, C("cm"), v), val) for x, val in self.call(fr, mk("bound", v, *self.method(h.a[0], "__enter__")), (), {}, st, node)]
            fz = self.freeze(st, v)
            n = fz.a[0][5:] if fz.t == "op" and fz.a[0].startswith("call:") else ""
            if n in ("contextlib.redirect_stdout", "contextlib.redirect_stderr") and len(fz.a) > 1:
                key = "sys." + n[-6:]
                x = pushed(st, C("std"), C(key), st.std.get(key) or mk("c", None))
                x.std[key] = fz.a[1]
                return [(x, fz.a[1])]
            if n == "contextlib.suppress":
                return [(pushed(st, C("suppress"), mk("tup", *[a for a in fz.a[1:] if isinstance(a, N)])), NONE)]
        raise Unsup("ExitStack." + name)

    def unwind(self, fr, v, status, st, node):
        cur = st.heap.get(v.a[1])
        if cur is None or cur.t != "tup":
            raise Unsup("ExitStack filled in a loop")
        if not cur.a:
            return [(status, st)]
        ent = cur.a[-1].a
        st = st.copy()
        st.heap[v.a[1]] = mk("tup", *cur.a[:-1])
        kind = cval(ent[0])
        raising = status is not None and status[0] == "raise"
        res = []
        if kind == "std":
            if ent[2] is NONE:
                st.std.pop(cval(ent[1]), None)
            else:
                st.std[cval(ent[1])] = ent[2]
            res = [(status, st)]
        elif kind == "suppress":
            if raising:
                for q, b in self.matches(st, status[1], ent[1]):
                    res.append((None, q) if b else (status, q))
            else:
                res = [(status, st)]
        elif kind == "cb":
            self.rs.append([])
            rs = self.call(fr, ent[1], ent[2].a, {cval(p.a[0]): p.a[1] for p in ent[3].a}, st, node)
            res = [(("raise", e), w) for w, e in self.rs.pop()] + [(status, w) for w, _ in rs]
        else:
            h = st.heap.get(ent[1].a[0])
            args = (op("type", status[1]), status[1], op("tb", status[1])) if raising else (NONE, NONE, NONE)
            self.rs.append([])
            rs = self.call(fr, mk("bound", ent[1], *self.method(h.a[0], "__exit__")), args, {}, st, node)
            res = [(("raise", e), w) for w, e in self.rs.pop()]
            for w, r in rs:
                if raising:
                    for q, b in self.decide(w, r):
                        res.append((None, q) if b else (status, q))
                else:
                    res.append((status, w))
        out = []
        for s2, z in res:
            out += self.unwind(fr, v, s2, z, node)
        return out

    def is_cm(self, fr, node):
        return any(ast.unparse(d) in ("contextlib.contextmanager", "contextmanager") for d in node.decorator_list)

    def cm_run(self, fr, v, st, bind, run, node):
        f, args, kw = v.a[0], v.a[1], dict(v.a[2])
        pend = []

        def on_yield(x, val):
            """The yield of the manager: the body of the with statement runs here. [(state, exception or None)]"""
            res = []
            for y in bind(x, val):
                for status, z in run(y):
                    if status is not None and status[0] == "raise":
                        res.append((z, status[1]))
                    else:
                        z = z.copy()
                        z.env[("cm", v.id)] = C(len(pend))
                        pend.append(status)
                        res.append((z, None))
            return res
        out = []
        self.rs.append([])
        rets = self.inline(fr, f, args, kw, st, node, yields=on_yield)
        for x, e in self.rs.pop():
            out.append((("raise", e), x))
        for x, _ in rets:
            x = x.copy()
            i = x.env.pop(("cm", v.id), None)
            # without a recorded end the body raised and the manager swallowed it
            out.append((pend[cval(i)] if i is not None else None, x))
        return out

    # ---- match ----
    def s_Match(self, fr, s, st):
        out = []
        for x, v in self.eval(fr, s.subject, st):
            live = [x]
            for case in s.cases:
                nxt = []
                for y in live:
                    for z, b in self.pattern(fr, case.pattern, v, y):
                        if b and case.guard is not None:
                            for w, c in self.branch(fr, case.guard, z):
                                if c:
                                    out += self.block(fr, case.body, w)
                                else:
                                    nxt.append(w)
                        elif b:
                            out += self.block(fr, case.body, z)
                        else:
                            nxt.append(z)
                live = nxt
            out += [(None, y) for y in live]
        return out

    def pattern(self, fr, p, v, st):
        if isinstance(p, ast.MatchAs):
            rs = [(st, True)] if p.pattern is None else self.pattern(fr, p.pattern, v, st)
            if p.name:
                out = []
                for x, b in rs:
                    if b:
                        x = x.copy()
                        x.env[(fr.fid, p.name)] = v
                    out.append((x, b))
                return out
            return rs
        if isinstance(p, ast.MatchValue):
            return [r for x, c in self.eval(fr, p.value, st) for r in self.decide(x, self.eq(v, c))]
        if isinstance(p, ast.MatchSingleton):
            return self.decide(st, self.eq(v, C(p.value)))
        if isinstance(p, ast.MatchOr):
            out, live = [], [st]
            for q in p.patterns:
                nxt = []
                for x in live:
                    for y, b in self.pattern(fr, q, v, x):
                        (out.append((y, True)) if b else nxt.append(y))
                live = nxt
            return out + [(x, False) for x in live]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return [r for x, c in self.eval(fr, p.cls, st) for r in self.decide(x, op("isinstance", v, c))]
        raise Unsup("pattern %s" % type(p).__name__)

    # ---- assignment ----
    def assign(self, fr, t, v, st):
        st = st.copy()
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.locals:
                    f = f.parent
            elif t.id in fr.globals or fr.node is None:
                st.event("setglobal", mk("g", fr.mod.name + "." + t.id), self.freeze(st, v))
                return [st]
            st.env[(f.fid, t.id)] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vs = self.unpack(st, v, len(t.elts), star)
            sts = [st]
            for x, y in zip(t.elts, vs):
                sts = [z for w in sts for z in self.assign(fr, x.value if isinstance(x, ast.Starred) else x, y, w)]
            return sts
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.eval(fr, t.value, st):
                x = x.copy()
                self.setattr(x, b, t.attr, v)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.eval(fr, t.value, st):
                for y, i in self.eval(fr, t.slice, x):
                    y = y.copy()
                    h = y.heap.get(b.a[0]) if b.t == "ref" else None
                    isdict = h is not None and (h is DICTNEW or (h.t == "mut" and h.a[0] is DICTNEW))
                    self.effect(y, b, "insert" if isdict or b.t != "ref" else "set", (i, v))
                    out.append(y)
            return out
        raise Unsup("assignment to %s" % type(t).__name__)

    def unpack(self, st, v, n, star):
        if v.t == "ref":
            h = st.heap.get(v.a[0])
            if h is not None and h.t == "agg":
                v = h
            elif h is not None and h.t == "mut" and h.a[0] is VECNEW and all(o.a[0] == "push" for o in h.a[1:]):
                v = mk("tup", *[o.a[1] for o in h.a[1:]])
            else:
                v = self.freeze(st, v)
        if v.t == "agg":
            v = mk("tup", *[x for _, x in v.a[2]])
        if v.t == "tup" and not star and len(v.a) == n:
            return list(v.a)
        if v.t == "tup" and star and len(v.a) >= n - 1:
            i = star[0]
            k = len(v.a) - (n - 1)
            return list(v.a[:i]) + [mk("tup", *v.a[i:i + k])] + list(v.a[i + k:])
        if star:
            return [op("slice", v, C(i), op("end")) if i in star else op("." + str(i), v) for i in range(n)]
        fs = self.fields_of(v)
        if fs and len(fs) == n:
            return [op("." + f, v) for f in fs]
        return [op("." + str(i), v) for i in range(n)]

    def fields_of(self, v):
        """Field names of a value known to be an instance of a named tuple of the package."""
        if v.t == "elem" and v.a[0].t == "seq":
            cs = self.elem_classes(v.a[0].a[0])
            if cs and len(cs) == 1:
                c = cs.pop()
                if self.cls_kind(c) == "namedtuple":
                    return [f for f, _ in self.cls_fields(c)]
        return None

    def elem_classes(self, t, d=0):
        if t is VECNEW:
            return set()
        if d > 8:
            return None
        out = set()
        if t.t == "coll" and t.a[0].t == "seq":
            return self.elem_classes(t.a[0].a[0], d + 1)
        if t.t == "mut":
            b = self.elem_classes(t.a[0], d + 1) if t.a[0].t != "lv" else set()
            if b is None:
                return None
            out |= b
            for o in t.a[1:]:
                r = self.op_classes(o, d)
                if r is None:
                    return None
                out |= r
            return out
        return None

    def op_classes(self, o, d):
        if o.a[0] in ("push", "push_front"):
            x = o.a[1]
            if x.t == "agg":
                return {x.a[0]}
            if x.t == "elem" and x.a[0].t == "seq":
                return self.elem_classes(x.a[0].a[0], d + 1)
            return None
        if o.a[0] == "extend":
            return self.elem_classes(o.a[1], d + 1)
        if o.a[0] == "loop":
            out = set()
            for us in self.loops[o.a[1]].ops.get(o.a[2], ()):
                for x in us:
                    r = self.op_classes(x, d + 1)
                    if r is None:
                        return None
                    out |= r
            return out
        if o.a[0] in ("sort", "reverse", "pop", "remove", "clear"):
            return set()
        return None

    def setattr(self, st, b, name, v):
        if b.t == "ref":
            h = st.heap.get(b.a[0])
            if h is not None and h.t == "agg":
                fs = dict(h.a[2])
                fs[name] = v
                st.heap[b.a[0]] = mk("agg", h.a[0], h.a[1], tuple(fs.items()))
                return
        fz = self.freeze(st, b)
        if b.t == "g" and b.a[0] == "sys" and name in ("stdout", "stderr"):
            w = self.freeze(st, v)
            if w is mk("g", "sys." + name) or w is mk("g", "sys.__%s__" % name):
                st.std.pop("sys." + name, None)
            else:
                st.std["sys." + name] = w
            return
        st.attrs[(b, name)] = v
        st.event("setattr", fz, name, self.freeze(st, v))

    def effect(self, st, b, kind, args):
        """A mutation of container b."""
        if b.t == "ref" and b.a[0] in st.heap:
            self.mutate(st, b, mk("o", kind, *args))
        else:
            st.event("mutate", self.freeze(st, b), kind, self.freeze(st, tuple(args)))

    def mutate(self, st, b, o):
        h = st.heap[b.a[0]]
        st.heap[b.a[0]] = mk("mut", h.a[0], *(h.a[1:] + (o,))) if h.t == "mut" else mk("mut", h, o)

    # ---- branching on expressions ----
    def branch(self, fr, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.branch(fr, e.operand, st)]
        if isinstance(e, ast.BoolOp):
            out, live = [], [st]
            stop = isinstance(e.op, ast.Or)
            for i, v in enumerate(e.values):
                nxt = []
                for x in live:
                    for y, b in self.branch(fr, v, x):
                        if b is stop:
                            out.append((y, stop))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(x, not stop) for x in live]
        return [r for x, v in self.eval(fr, e, st) for r in self.decide(x, v)]

    # ---- expressions ----
    def eval(self, fr, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsup("expression %s at %s" % (type(e).__name__, self.where(fr, e)))
        return m(fr, e, st)

    def evals(self, fr, es, st):
        out = [(st, ())]
        for e in es:
            out = [(y, vs + (v,)) for x, vs in out for y, v in self.eval(fr, e, x)]
        return out

    def e_Constant(self, fr, e, st):
        return [(st, C(e.value, type(e.value).__name__))] if e.value is not None else [(st, NONE)]

    def e_Name(self, fr, e, st):
        return [(st, self.lookup(st, fr, e.id, e))]

    def e_NamedExpr(self, fr, e, st):
        return [(y, v) for x, v in self.eval(fr, e.value, st) for y in self.assign(fr, e.target, v, x)]

    def e_Tuple(self, fr, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred(fr, e, st, tuple_=True)
        return [(x, mk("tup", *vs)) for x, vs in self.evals(fr, e.elts, st)]

    def e_List(self, fr, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred(fr, e, st)
        out = []
        for x, vs in self.evals(fr, e.elts, st):
            x = x.copy()
            out.append((x, self.new(x, fr, e, mk("mut", VECNEW, *[mk("o", "push", v) for v in vs]) if vs else VECNEW)))
        return out

    def starred(self, fr, e, st, tuple_=False):
        out = []
        for x, vs in self.evals(fr, [y.value if isinstance(y, ast.Starred) else y for y in e.elts], st):
            x = x.copy()
            ops = [mk("o", "extend", self.iterable(x, v)) if isinstance(y, ast.Starred) else mk("o", "push", v) for y, v in zip(e.elts, vs)]
            t = mk("mut", VECNEW, *ops)
            out.append((x, mk("coll", mk("seq", self.freeze(x, t)))) if tuple_ else (x, self.new(x, fr, e, t)))
        return out

    def e_Set(self, fr, e, st):
        out = []
        for x, vs in self.evals(fr, e.elts, st):
            x = x.copy()
            if all(isc(v) for v in vs):
                out.append((x, mk("tup", *vs)))
            else:
                out.append((x, self.new(x, fr, e, mk("mut", SETNEW, *[mk("o", "insert", v) for v in vs]))))
        return out

    def e_Dict(self, fr, e, st):
        out = []
        ks = [k for k in e.keys if k is not None]
        for x, kv in self.evals(fr, ks, st):
            for y, vs in self.evals(fr, e.values, x):
                y = y.copy()
                it = iter(kv)
                ops = [mk("o", "extend", self.freeze(y, v)) if k is None else mk("o", "insert", next(it), v) for k, v in zip(e.keys, vs)]
                out.append((y, self.new(y, fr, e, mk("mut", DICTNEW, *ops) if ops else DICTNEW)))
        return out

    def e_JoinedStr(self, fr, e, st):
        parts = []
        idx = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                idx.append(v)
        out = []
        for x, vs in self.evals(fr, [v.value for v in idx], st):
            it = iter(vs)
            ps = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    t = self.freeze(x, next(it))
                    if v.conversion == 114:
                        t = op("call:repr", t)
                    elif v.conversion == 97:
                        t = op("call:ascii", t)
                    if v.format_spec is not None and v.format_spec.values:
                        t = op("format", t, C(ast.unparse(v.format_spec)))
                    ps.append(t)
                else:
                    ps.append(C(v.value, "str"))
            out.append((x, cat(ps)))
        return out

    def e_IfExp(self, fr, e, st):
        return [r for x, b in self.branch(fr, e.test, st) for r in self.eval(fr, e.body if b else e.orelse, x)]

    def e_BoolOp(self, fr, e, st):
        out, live = [], [st]
        stop = isinstance(e.op, ast.Or)
        for i, v in enumerate(e.values):
            nxt = []
            for x in live:
                for y, t in self.eval(fr, v, x):
                    if i == len(e.values) - 1:
                        out.append((y, t))
                        continue
                    for z, b in self.decide(y, t):
                        if b is stop:
                            k = self.key(z, t)
                            out.append((z, t if isinstance(k, bool) or not (k[0] is t or (t.t == "op" and t.a[0] == "not")) else C(stop, "bool")))
                        else:
                            nxt.append(z)
            live = nxt
        return out

    def e_UnaryOp(self, fr, e, st):
        out = []
        for x, v in self.eval(fr, e.operand, st):
            if isinstance(e.op, ast.Not):
                k = self.key(x, v)
                if isinstance(k, bool):
                    out.append((x, C(not k, "bool")))
                else:
                    t = self.freeze(x, k[0])
                    r = self.fold_const(x, t)
                    out.append((x, C((not r) is k[1], "bool") if r is not None else (op("not", t) if k[1] else t)))
            elif isinstance(e.op, ast.USub) and isc(v):
                out.append((x, C(-cval(v), "int")))
            else:
                out.append((x, op(type(e.op).__name__.lower(), v)))
        return out

    def e_BinOp(self, fr, e, st):
        return [(x, self.binop2(fr, e, x, a, b)) for x, (a, b) in self.evals(fr, [e.left, e.right], st)]

    def binop2(self, fr, e, st, a, b):
        if isinstance(e.op, ast.Add) and (a.t == "ref" or b.t == "ref"):
            ta, tb = self.freeze(st, a), self.freeze(st, b)
            return self.new(st, fr, e, mk("mut", VECNEW, mk("o", "extend", ta), mk("o", "extend", tb)))
        return self.binop(st, e.op, a, b)

    def binop(self, st, o, a, b):
        a, b = self.freeze(st, a), self.freeze(st, b)
        if isinstance(o, ast.Add):
            if self.is_str(a) or self.is_str(b):
                return cat([a, b])
            if a.t == "tup" and b.t == "tup":
                return mk("tup", *(a.a + b.a))
            if isc(a) and isc(b):
                return C(cval(a) + cval(b), type(cval(a)).__name__)
            return op("add", a, b)
        n = {"Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "div", "Mod": "rem", "BitOr": "bitor", "BitAnd": "bitand"}.get(type(o).__name__, type(o).__name__.lower())
        if n == "rem" and isc(a) and isinstance(cval(a), str):
            return op("percent", a, b)
        return op(n, a, b)

    def is_str(self, v):
        return v.t == "cat" or (isc(v) and isinstance(cval(v), str)) or (v.t == "op" and v.a[0] in ("call:str", "call:repr", "m:join", "m:replace", "m:strip", "m:lower", "format", "m:format"))

    def e_Compare(self, fr, e, st):
        if len(e.ops) > 1:
            out, live = [], [(st, e.left, None)]
            # a < b < c: each part in turn
            res = []
            cur = [(x, v) for x, v in self.eval(fr, e.left, st)]
            for i, (o, r) in enumerate(zip(e.ops, e.comparators)):
                nxt = []
                for x, l in cur:
                    for y, v in self.eval(fr, r, x):
                        for z, b in self.decide(y, self.compare(y, o, l, v)):
                            if b:
                                nxt.append((z, v))
                            else:
                                res.append((z, FALSE))
                cur = nxt
            return res + [(x, TRUE) for x, _ in cur]
        return [(x, self.compare(x, e.ops[0], a, b)) for x, (a, b) in self.evals(fr, [e.left, e.comparators[0]], st)]

    def compare(self, st, o, a, b):
        a, b = self.freeze(st, a), self.freeze(st, b)
        neg = isinstance(o, (ast.NotEq, ast.NotIn, ast.IsNot, ast.GtE, ast.LtE))
        if isinstance(o, (ast.Eq, ast.NotEq)):
            t = self.eq(a, b)
        elif isinstance(o, (ast.Is, ast.IsNot)):
            if isc(b) and cval(b) is None:
                t = op("isnone", a)
            elif isc(a) and cval(a) is None:
                t = op("isnone", b)
            else:
                t = op("is", a, b)
        elif isinstance(o, (ast.In, ast.NotIn)):
            t = op("contains", b, a)
        elif isinstance(o, ast.Lt):
            t = op("lt", a, b)
        elif isinstance(o, ast.Gt):
            t = op("lt", b, a)
        elif isinstance(o, ast.GtE):
            t = op("lt", a, b)
        else:
            t = op("lt", b, a)
        # lengths against 0 and 1: emptiness
        if t.t == "op" and t.a[0] == "lt" and t.a[2].t == "op" and t.a[2].a[0] == "len" and isc(t.a[1]) and cval(t.a[1]) == 0:
            t = op("not", op("is_empty", t.a[2].a[1]))
        elif t.t == "op" and t.a[0] == "lt" and t.a[1].t == "op" and t.a[1].a[0] == "len" and isc(t.a[2]) and cval(t.a[2]) == 1:
            t = op("is_empty", t.a[1].a[1])
        elif t.t == "op" and t.a[0] == "eq" and t.a[1].t == "op" and t.a[1].a[0] == "len" and isc(t.a[2]) and cval(t.a[2]) == 0:
            t = op("is_empty", t.a[1].a[1])
        if t.t == "op" and t.a[0] in ("eq", "lt", "is") and isc(t.a[1]) and isc(t.a[2]):
            r = self.fold_const(st, t)
            if r is not None:
                return C(r is not neg, "bool")
        if neg:
            if t.t == "op" and t.a[0] == "not":
                return t.a[1]
            return op("not", t)
        return t

    def e_Subscript(self, fr, e, st):
        if isinstance(e.slice, ast.Slice):
            out = []
            es = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            for x, b in self.eval(fr, e.value, st):
                for y, vs in self.evals(fr, es, x):
                    it = iter(vs)
                    lo, hi, step = [next(it) if q is not None else NONE for q in (e.slice.lower, e.slice.upper, e.slice.step)]
                    fz = self.freeze(y, b)
                    if fz.t == "tup" and all(isc(q) for q in (lo, hi, step)):
                        out.append((y, mk("tup", *fz.a[slice(cval(lo), cval(hi), cval(step))])))
                    elif isc(lo) and not cval(lo) and isc(hi) and cval(hi) is None and isc(step) and cval(step) in (None, 1):
                        out.append((y, mk("coll", mk("seq", fz)) if b.t == "ref" else fz))
                    else:
                        out.append((y, op("pyslice", fz, self.freeze(y, lo), self.freeze(y, hi), step)))
            return out
        out = []
        for x, (b, i) in self.evals(fr, [e.value, e.slice], st):
            out.append((x, self.index(x, b, i)))
        return out

    def index(self, st, b, i):
        fz = self.freeze(st, b)
        i = self.freeze(st, i)
        if fz.t == "g":
            return self.var(fz, i) or op("index", fz, i)
        if isc(i) and type(cval(i)) is int:
            k = cval(i)
            if fz.t == "tup" and -len(fz.a) <= k < len(fz.a):
                return fz.a[k]
            if fz.t == "agg" and -len(fz.a[2]) <= k < len(fz.a[2]):
                return fz.a[2][k][1]
            if fz.t == "mut" and fz.a[0] is VECNEW and all(o.a[0] == "push" for o in fz.a[1:]) and -len(fz.a) + 1 <= k < len(fz.a) - 1:
                ops = st.heap[b.a[0]].a[1:] if b.t == "ref" and st.heap[b.a[0]].t == "mut" else fz.a[1:]
                return ops[k].a[1]
        if fz.t == "mut" and fz.a[0] is DICTNEW and all(o.a[0] == "insert" and isc(o.a[1]) for o in fz.a[1:]) and isc(i):
            for o in reversed(fz.a[1:]):
                if o.a[1] is i:
                    return o.a[2]
        # element i of a collection that is being iterated with its index
        if i.t in ("idx",):
            src = i.a[0]
            if src.t == "seq" and (src.a[0] is fz or src.a[0] is uncopied(fz) or (src.a[0].t == "coll" and src.a[0].a[0] is mk("seq", fz))):
                return mk("elem", src, i.a[1])
        return self.var(fz, i) or op("index", fz, i)

    def var(self, b, i):
        """vars(x)["name"] is x.name."""
        if b.t == "op" and b.a[0] in ("call:vars", ".__dict__") and len(b.a) == 2 and isc(i) and isinstance(cval(i), str) and b.a[1].t == "op" and b.a[1].a[0].startswith("m:parse"):
            return op("." + cval(i), b.a[1])
        return None

    def e_Starred(self, fr, e, st):
        raise Unsup("starred")

    def e_Lambda(self, fr, e, st):
        return [(st, self.closure(fr, e))]

    def e_Attribute(self, fr, e, st):
        return [r for x, b in self.eval(fr, e.value, st) for r in self.getattr(fr, x, b, e.attr, e)]

    def getattr(self, fr, st, b, name, node):
        if (b, name) in st.attrs:
            return [(st, st.attrs[(b, name)])]
        if b.t == "g":
            full = b.a[0] + "." + name
            if b.a[0] in self.mods:
                m = self.mods[b.a[0]]
                if full in self.mods and name not in m.names:
                    return [(st, mk("g", full))]
                return [(st, self.module_name(st, m, name))]
            if b.a[0] == "sys" and name in ("stdout", "stderr") and full in st.std:
                return [(st, st.std[full])]
            return [(st, mk("g", full))]
        if b.t == "pycls":
            m = self.method(b.a[0], name)
            if m is not None:
                return [(st, mk("pyfn", m[0] + "." + name))]
            a = self.cls_attr(st, b.a[0], name)
            if a is not None:
                return [(st, a)]
            return [(st, op("." + name, b))]
        h = b
        if b.t == "ref":
            h = st.heap.get(b.a[0], b)
        if h.t == "agg":
            fs = dict(h.a[2])
            if name in fs:
                return [(st, fs[name])]
            m = self.method(h.a[0], name)
            if m is not None:
                if m[1] == "property":
                    return self.inline(fr, mk("pyfn", m[0] + "." + name), (b,), {}, st, node)
                return [(st, mk("bound", b, m[0], name))]
            a = self.cls_attr(st, h.a[0], name)
            if a is not None:
                return [(st, a)]
            if name in ("_asdict", "_replace", "_fields"):
                return [(st, mk("bound", b, "", name))]
        fz = self.freeze(st, b)
        if fz.t == "param" and self.selfcls is not None and fz is self.selfcls[0]:
            # the object whose method is analysed
            m = self.method(self.selfcls[1], name)
            if m is not None:
                if m[1] == "property":
                    return self.inline(fr, mk("pyfn", m[0] + "." + name), (b,), {}, st, node)
                return [(st, mk("bound", b, m[0], name))]
            cn = self.cls_node(self.selfcls[1])[1]
            if not any(isinstance(y, ast.Attribute) and y.attr == name and isinstance(y.ctx, ast.Store) for y in ast.walk(cn)) and not cn.decorator_list:
                a = self.cls_attr(st, self.selfcls[1], name)
                if a is not None and a.t in ("c", "g"):
                    return [(st, a)]
        if name == "__class__":
            return [(st, op("type", fz))]
        if fz.t == "op" and fz.a[0] == "argns":
            return [(st, op(".arg:" + name, fz))]
        m = self.owner(fz, name)
        if m is not None:
            if m[1] == "property":
                return self.inline(fr, mk("pyfn", m[0] + "." + name), (b,), {}, st, node)
            return [(st, mk("bound", b, m[0], name))]
        v = op("." + name, fz)
        return self.maybe_raise(fr, st, v, fz, node)

    def owner(self, v, name):
        """The method that a name stands for on a value the package itself made: an element of one of its lists, or what
        one of its functions returns."""
        if name in METHODS or name.startswith("__"):
            return None
        made = v.t == "elem" and v.a[0].t == "seq" and v.a[0].a[0].t in ("mut", "coll") or v.t == "op" and v.a[0].startswith("call:py:")
        if not made:
            return None
        cs = self.elem_classes(v.a[0].a[0]) if v.t == "elem" else None
        if not cs:
            cs = {"%s:%s" % (m, n) for m, mod in self.mods.items() for n, d in mod.names.items() if d and d[0] == "class"}
            cs = {c for c in cs if self.method(c, name) is not None and self.cls_kind(c) in ("dataclass", "namedtuple")}
        ms = {self.method(c, name) for c in cs}
        return ms.pop() if len(ms) == 1 else None

    def tainted(self, v):
        """A value made by code of a test (an instance of a test class)."""
        return v.t == "op" and v.a[0] == "ucall" or (v.t == "op" and v.a[0] in ("getattr",) and self.tainted(v.a[1])) or (v.t == "op" and v.a[0].startswith(".") and self.tainted(v.a[1]))

    def maybe_raise(self, fr, st, v, base, node):
        if self.attrraise and self.tainted(base) and base.a[0] == "ucall":
            self.throw(fr, st, "user", v, node)
        return [(st, v)]

    def throw(self, fr, st, kind, origin, node):
        x = st.copy()
        e = mk("exc", kind, origin, self.where(fr, node))
        if kind == "user":
            x.event("raised", e)
        self.rs[-1].append((x, e))

    # ---- classes of the package ----
    def cls_node(self, c):
        m, n = c.split(":")
        d = self.mods[m].names.get(n) if m in self.mods else None
        return (self.mods[m], d[1]) if d and d[0] == "class" else (None, None)

    def cls_kind(self, c):
        m, n = self.cls_node(c)
        if n is None:
            return None
        if any("dataclass" in ast.unparse(d) for d in n.decorator_list):
            return "dataclass"
        if any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in n.bases):
            return "namedtuple"
        if any(ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in n.bases):
            return "enum"
        return "class"

    def bases(self, c):
        m, n = self.cls_node(c)
        out = []
        st = St()
        for b in n.bases:
            if isinstance(b, ast.Name):
                try:
                    v = self.module_name(st, m, b.id)
                except Unsup:
                    continue
                if v.t == "pycls":
                    out.append(v.a[0])
        return out

    def method(self, c, name):
        """(qualified class, kind) of a method, searched through local bases."""
        m, n = self.cls_node(c)
        if n is None:
            return None
        for x in n.body:
            if isinstance(x, ast.FunctionDef) and x.name == name:
                ds = [ast.unparse(d) for d in x.decorator_list]
                kind = "property" if any(d in ("property", "functools.cached_property", "cached_property") for d in ds) else "static" if "staticmethod" in ds else "class" if "classmethod" in ds else "method"
                return (c, kind)
        for b in self.bases(c):
            r = self.method(b, name)
            if r is not None:
                return r
        return None

    def cls_fields(self, c):
        m, n = self.cls_node(c)
        out = []
        for b in self.bases(c):
            if self.cls_kind(b) == self.cls_kind(c):
                out += self.cls_fields(b)
        for x in n.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and "ClassVar" not in ast.unparse(x.annotation):
                out = [(f, d) for f, d in out if f != x.target.id] + [(x.target.id, x.value)]
        return out

    def cls_attr(self, st, c, name):
        m, n = self.cls_node(c)
        if n is None:
            return None
        for x in n.body:
            v = None
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets):
                v = x.value
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == name and x.value is not None:
                v = x.value
            if v is not None:
                return self.module_value(st, m, c + "." + name, v)
        for b in self.bases(c):
            r = self.cls_attr(st, b, name)
            if r is not None:
                return r
        return None

    def construct(self, fr, c, args, kw, st, node):
        kind = self.cls_kind(c)
        if kind in ("dataclass", "namedtuple"):
            fs = self.cls_fields(c)
            vals = {}
            for (f, _), v in zip(fs, args):
                vals[f] = v
            for k, v in kw.items():
                if k not in [f for f, _ in fs]:
                    raise Unsup("field %s of %s" % (k, c))
                vals[k] = v
            m, n = self.cls_node(c)
            mfr = Frame(self.intern(("modframe", m.name)), m, None)
            st = st.copy()
            for f, d in fs:
                if f not in vals:
                    if d is None:
                        raise Unsup("%s without %s" % (c, f))
                    if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                        kwd = {k.arg: k.value for k in d.keywords}
                        if "default_factory" in kwd:
                            fn = ast.unparse(kwd["default_factory"])
                            vals[f] = {"dict": lambda: self.new(st, fr, node, DICTNEW), "list": lambda: self.new(st, fr, node, VECNEW), "set": lambda: self.new(st, fr, node, SETNEW)}.get(fn, lambda: op("new:" + fn))()
                            continue
                        d = kwd.get("default")
                        if d is None:
                            raise Unsup("%s without %s" % (c, f))
                    r = self.eval(mfr, d, st)
                    if len(r) != 1:
                        raise Unsup("default of " + f)
                    vals[f] = r[0][1]
            t = mk("agg", c, kind, tuple((f, vals[f]) for f, _ in fs))
            if kind == "namedtuple":
                return [(st, t)]
            r = self.new(st, fr, node, t)
            if self.method(c, "__post_init__"):
                return [(x, r) for x, _ in self.inline(fr, mk("pyfn", c + ".__post_init__"), (r,), {}, st, node)]
            return [(st, r)]
        anc = self.local_anc(c.split(":")[-1])
        if anc and "BaseException" in anc:
            return [(st, mk("exc", c.split(":")[-1], op("call:" + c, *args)))]
        st = st.copy()
        r = self.new(st, fr, node, mk("agg", c, "class", ()))
        m = self.method(c, "__init__")
        if m is None:
            return [(st, r)]
        return [(x, r) for x, _ in self.inline(fr, mk("pyfn", m[0] + ".__init__"), (r,) + tuple(args), kw, st, node)]

    # ---- comprehensions ----
    def e_ListComp(self, fr, e, st):
        return self.comp(fr, e, st, "list")

    def e_SetComp(self, fr, e, st):
        return self.comp(fr, e, st, "set")

    def e_DictComp(self, fr, e, st):
        return self.comp(fr, e, st, "dict")

    def e_GeneratorExp(self, fr, e, st):
        return self.comp(fr, e, st, "list")

    def comp(self, fr, e, st, kind):
        st = st.copy()
        r = self.new(st, fr, e, {"list": VECNEW, "set": SETNEW, "dict": DICTNEW}[kind])
        names = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        sub = Frame(self.fresh(st, fr, e, "comp"), fr.mod, None, fr, fr.cls)
        sub.node = fr.node
        sub.locals = names
        sub.yields = fr.yields

        def leaf(x):
            out = []
            if kind == "dict":
                for y, (k, v) in self.evals(sub, [e.key, e.value], x):
                    y = y.copy()
                    self.mutate(y, r, mk("o", "insert", k, v))
                    out.append((None, y))
            else:
                for y, v in self.eval(sub, e.elt, x):
                    y = y.copy()
                    self.mutate(y, r, mk("o", "push" if kind == "list" else "insert", v))
                    out.append((None, y))
            return out
        return [(x, r) for s, x in self.comp_loops(sub, e.generators, st, leaf, e) if s is None]

    def comp_loops(self, fr, gens, st, leaf, node):
        """Runs the loops of a comprehension; raised states go to self.rs."""
        if not gens:
            return leaf(st)
        g = gens[0]

        def body(x):
            live = [x]
            for c in g.ifs:
                nxt = []
                for y in live:
                    for z, b in self.branch(fr, c, y):
                        nxt.append((z, b))
                live = []
                for z, b in nxt:
                    if b:
                        live.append(z)
                    else:
                        done.append((None, z))
            for y in live:
                done.extend(self.comp_loops(fr, gens[1:], y, leaf, node))
            r = list(done)
            done.clear()
            return r
        done = []
        out = []
        for x, src in self.eval(fr, g.iter, st):
            for status, y in self.for_loop(fr, g.target, src, body, x, node, wrap=True):
                if status is None:
                    out.append((None, y))
                elif status[0] == "raise":
                    self.rs[-1].append((y, status[1]))
                else:
                    out.append((status, y))
        return out

    # ---- loops ----
    def s_For(self, fr, s, st):
        out = []
        for x, src in self.eval(fr, s.iter, st):
            for status, y in self.for_loop(fr, s.target, src, lambda z: self.block(fr, s.body, z), x, s):
                if status is None and s.orelse:
                    out += self.block(fr, s.orelse, y)
                elif status is not None and status[0] == "break":
                    out.append((None, y))
                else:
                    out.append((status, y))
        return out

    def known_items(self, st, v):
        """The elements of a sequence that is spelled out, when there are few."""
        if v.t == "ref":
            h = st.heap.get(v.a[0])
            if h is not None and h.t == "mut" and h.a[0] is VECNEW and all(o.a[0] == "push" for o in h.a[1:]):
                return [o.a[1] for o in h.a[1:]]
            if h is VECNEW:
                return []
            if h is not None and h.t == "mut" and h.a[0] is DICTNEW and all(o.a[0] == "insert" for o in h.a[1:]):
                return [o.a[1] for o in h.a[1:]]
            return None
        if v.t == "tup":
            return list(v.a)
        if v.t == "op" and v.a[0] == "enumerate":
            xs = self.known_items(st, v.a[1])
            if xs is not None and isc(v.a[2]):
                return [mk("tup", C(i + cval(v.a[2]), "int"), x) for i, x in enumerate(xs)]
        if v.t == "op" and v.a[0] == "zip":
            ls = [self.known_items(st, x) for x in v.a[1:]]
            if all(x is not None for x in ls):
                return [mk("tup", *t) for t in zip(*ls)]
        if v.t == "op" and v.a[0] == "items":
            h = st.heap.get(v.a[1].a[0]) if v.a[1].t == "ref" else None
            if h is not None and h.t == "mut" and h.a[0] is DICTNEW and all(o.a[0] == "insert" for o in h.a[1:]):
                return [mk("tup", o.a[1], o.a[2]) for o in h.a[1:]]
        return None

    def iterable(self, st, v):
        return self.freeze(st, v)

    def source(self, st, v):
        """(source, stages, function from L to the element)."""
        if v.t == "op" and v.a[0] == "enumerate":
            s, stg, el = self.source(st, v.a[1])
            start = v.a[2]
            return s, stg + (mk("enumerate"),), lambda L: mk("tup", mk("idx", s, L) if isc(start) and cval(start) == 0 else op("add", mk("idx", s, L), start), el(L))
        if v.t == "op" and v.a[0] == "zip":
            parts = [self.source(st, x) for x in v.a[1:]]
            s, stg, el = parts[0]
            st2 = stg + tuple(mk("zip", mk("iter", p[0], p[1], 0)) for p in parts[1:])
            return s, st2, lambda L: mk("tup", *[p[2](L) for p in parts])
        if v.t == "op" and v.a[0] == "reversed":
            s, stg, el = self.source(st, v.a[1])
            return s, stg + (mk("rev"),), el
        if v.t == "op" and v.a[0] == "items":
            s = mk("map_items", self.freeze(st, v.a[1]))
            return s, (), lambda L: mk("tup", op(".0", mk("elem", s, L)), op(".1", mk("elem", s, L)))
        if v.t == "op" and v.a[0] == "values":
            s = mk("map_values", self.freeze(st, v.a[1]))
            return s, (), lambda L: mk("elem", s, L)
        if v.t == "op" and v.a[0] == "range" and len(v.a) == 3:
            s = mk("range", self.freeze(st, v.a[1]), self.freeze(st, v.a[2]))
            hi = s.a[1]
            if isc(s.a[0]) and cval(s.a[0]) == 0 and hi.t == "op" and hi.a[0] == "len":
                s2 = mk("seq", hi.a[1])
                return s2, (), lambda L: mk("idx", s2, L)
            return s, (), lambda L: mk("elem", s, L)
        fz = uncopied(self.freeze(st, v))
        while fz.t == "coll":
            if fz.a[0].t != "seq":
                s = fz.a[0]
                return s, (), lambda L: mk("elem", s, L)
            fz = uncopied(fz.a[0].a[0])
        s = mk("map_keys", fz) if fz is DICTNEW or (fz.t == "mut" and fz.a[0] is DICTNEW) else mk("seq", fz)
        return s, (), lambda L: mk("elem", s, L)

    def for_loop(self, fr, target, src, body, st, node, wrap=False):
        """[(status, state)]; status None: exhausted, break: left by break."""
        def run(x):
            if not wrap:
                return body(x)
            self.rs.append([])
            r = body(x)
            return list(r) + [(("raise", e), y) for y, e in self.rs.pop()]
        items = self.known_items(st, src)
        if items is not None and len(items) <= 10:
            out, live = [], [st]
            for it in items:
                nxt = []
                for x in live:
                    for y in self.assign(fr, target, it, x):
                        for status, z in run(y):
                            if status is None or status[0] == "cont":
                                nxt.append(z)
                            else:
                                out.append((status, z))
                live = self.merge(nxt)
            return out + [(None, x) for x in live]
        s, stages, el = self.source(st, src)

        def it(x, L):
            y = x.copy()
            y.conds[mk("next", s, stages, L)] = True
            return [w for z in self.assign(fr, target, el(L), y) for w in run(z)]
        return self.run_loop(fr, st, node, it, mk("next", s, stages, 0))

    def s_While(self, fr, s, st):
        def it(x, L):
            out = []
            for y, b in self.branch(fr, s.test, x):
                if b:
                    out += self.block(fr, s.body, y)
                else:
                    out.append((("done",), y))
            return out
        res = self.run_loop(fr, st, s, it, None)
        res = self.counted(fr, s, st, it, self.lastrec, res) or res
        out = []
        for status, y in res:
            if status is not None and status[0] == "done" or status is None:
                out += self.block(fr, s.orelse, y) if s.orelse else [(None, y)]
            elif status[0] == "break":
                out.append((None, y))
            else:
                out.append((status, y))
        return out

    def counted(self, fr, node, st, it, rec, res):
        """A loop that counts through the indices of a collection, as the loop over the collection."""
        for pk in rec.lv:
            lv = rec.lv[pk]
            if pk.t != "pv" or not (isc(rec.init[pk]) and cval(rec.init[pk]) == 0 and type(cval(rec.init[pk])) is int) or not rec.conts:
                continue
            if not all(c.upd.get(pk) is op("add", lv, C(1, "int")) for c in rec.conts):
                continue
            ks = set()
            for conds in [c.conds for c in rec.conts] + [x[1] for x in rec.exits]:
                for k in conds:
                    if k.t == "op" and k.a[0] in ("lt", "eq") and any(y is lv for y in k.a[1:3]):
                        ks.add(k)
            for k in sorted(ks, key=repr):
                n = k.a[2] if k.a[1] is lv else k.a[1]
                if k.a[0] == "lt" and k.a[1] is not lv or not (n.t == "op" and n.a[0] == "len"):
                    continue
                X = n.a[1]
                if contains(X, lambda y: y.t == "lv" and y.a[0] == rec.L):
                    continue
                inside = k.a[0] == "lt"
                if not all(c.conds.get(k) is inside for c in rec.conts):
                    continue
                ends = [x for x in rec.exits if x[1].get(k, inside) is not inside]
                if len(ends) != 1 or len(ends[0][1]) != 1 or ends[0][2] or ends[0][0][0] != "exit":
                    continue
                how = [status[0] for status, y in res if y.conds.get(mk("exit", rec.L)) == ends[0][0][1]]
                if how != ["done"] and (how != ["break"] or node.orelse):
                    continue
                src, stages, el = self.source(st, X)
                if stages or el(0).t != "elem":
                    continue

                def it2(x, L):
                    y = x.copy()
                    i = mk("idx", src, L)
                    nk = op(k.a[0], i, n) if k.a[1] is lv else op(k.a[0], n, i)
                    had = nk in y.conds
                    y.conds[mk("next", src, (), L)] = True
                    y.conds[nk] = inside
                    self.setpk(y, pk, i)
                    for status, z in it(y, L):
                        if not had:
                            z.conds.pop(nk, None)
                        yield status, z
                res = self.run_loop(fr, st, node, it2, mk("next", src, (), 0))
                for status, y in res:
                    if status is None:
                        self.setpk(y, pk, n)
                return res
        return None

    def run_loop(self, fr, st, node, it, nxt):
        mod = set()
        first = True
        for rnd in range(12):
            L = self.nloop = self.nloop + 1
            S = st.copy()
            lvs, init = {}, {}
            for pk in mod:
                v = self.getpk(st, pk)
                if v is None:
                    continue
                lvs[pk] = mk("lv", L, pk)
                init[pk] = self.freeze(st, v)
                self.setpk(S, pk, lvs[pk])
            base_ev = S.ev
            S.ev = ()
            base = dict(S.conds)
            self.active.append(L)
            self.rs.append([])
            try:
                res = list(it(S, L))
            finally:
                rs = self.rs.pop()
                self.active.pop()
            res += [(("raise", e), y) for y, e in rs]
            new = set()
            for status, y in res:
                new |= self.changed(S, y, st)
            if new <= mod:
                break
            mod |= new
        else:
            raise TooComplex("loop at " + self.where(fr, node))
        rec = Loop()
        rec.L, rec.lv, rec.init, rec.ops = L, lvs, init, {}
        rec.node, rec.where = node, self.where(fr, node)
        rec.conts, rec.exits = [], []
        exits = []
        for status, y in res:
            own = {k: v for k, v in y.conds.items() if base.get(k) is not v or k not in base}
            if status is None or status[0] == "cont":
                c = Cont()
                c.conds, c.ev, c.groups = own, y.ev, y.groups
                c.upd = {pk: self.freeze(y, self.getpk(y, pk)) for pk in lvs if self.getpk(y, pk) is not None}
                rec.conts.append(c)
            else:
                exits.append((status, y, own))
        rec.conts = _dedup(rec.conts)
        for pk in lvs:
            us = []
            ok = False
            for c in rec.conts:
                u = c.upd.get(pk)
                if u is not None and u.t == "mut" and u.a[0] is lvs[pk]:
                    us.append(u.a[1:])
                    ok = True
                elif u is None or u is lvs[pk]:
                    us.append(())
                else:
                    us.append(None)
            if ok and all(u is not None for u in us):
                rec.ops[pk] = us
        self.loops[L] = self.lastrec = rec
        out = []
        evl = mk("ev", "loop", L)
        has_ev = any(c.ev for c in rec.conts)
        if nxt is not None:
            nk = mk("next", nxt.a[0], nxt.a[1], L)
            y = st.copy()
            y.conds[nk] = False
            y.conds[mk("exit", L)] = 0
            for pk in lvs:
                if any(c.upd.get(pk) is not lvs[pk] for c in rec.conts):
                    if pk in rec.ops:
                        h = self.getpk(st, pk)
                        o = mk("o", "loop", L, pk)
                        self.setpk(y, pk, mk("mut", h.a[0], *(h.a[1:] + (o,))) if h.t == "mut" else mk("mut", h, o))
                    else:
                        self.setpk(y, pk, mk("fold", L, pk))
            for (k, n) in set(x for c in [z for _, z in res] for x in c.env):
                pass
            y.ev = base_ev + ((evl,) if rec.conts else ())
            rec.exits.append((("exit", 0), {nk: False}, (), ()))
            y.attrs = dict(st.attrs)
            out.append((None, y))
        for i, (status, y, own) in enumerate(exits):
            j = len(rec.exits)
            kind = ("raise", status[1]) if status[0] == "raise" else ("exit", j)
            rec.exits.append((kind, own, y.ev, y.groups))
            z = y.copy()
            z.ev = base_ev + ((evl,) if rec.conts else ()) + y.ev
            z.conds[mk("exit", L)] = j
            out.append((status, z))
        return out

    def getpk(self, st, pk):
        if pk.t == "pv":
            return st.env.get((pk.a[0], pk.a[1]))
        if pk.t == "ps":
            return st.std.get(pk.a[0])
        return st.heap.get(pk.a[0])

    def setpk(self, st, pk, v):
        if pk.t == "pv":
            st.env[(pk.a[0], pk.a[1])] = v
        elif pk.t == "ps":
            st.std[pk.a[0]] = v
        else:
            st.heap[pk.a[0]] = v

    def changed(self, S, y, st0):
        out = set()
        for k, v in y.env.items():
            if k in S.env and S.env[k] is not v and k[0] != "cm":
                out.add(mk("pv", k[0], k[1]))
        for k, v in y.heap.items():
            if k in S.heap and S.heap[k] is not v:
                out.add(mk("po", k))
        for k in set(y.std) | set(S.std):
            if y.std.get(k) is not S.std.get(k):
                out.add(mk("ps", k))
        return out

    # ---- calls ----
    def e_Call(self, fr, e, st):
        out = []
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and ast.unparse(e.func.value.func) == "super":
            raise Unsup("super()")
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and self.lookup(st, fr, e.func.id, e) is mk("g", e.func.id):
            return self.any_all(fr, e, st, e.func.id == "any")
        if isinstance(e.func, ast.Name) and e.func.id == "next" and len(e.args) == 2 and isinstance(e.args[0], ast.GeneratorExp) and self.lookup(st, fr, "next", e) is mk("g", "next"):
            return self.next_gen(fr, e, st)
        for x, f in self.eval(fr, e.func, st):
            pos, star = [], False
            for y, (args, kw) in self.arguments(fr, e, x):
                out += self.call(fr, f, args, kw, y, e)
        return out

    def arguments(self, fr, e, st):
        es = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        for x, vs in self.evals(fr, es, st):
            args = []
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    ks = self.known_items(x, v)
                    if ks is not None:
                        args += ks
                    else:
                        args.append(mk("star", v))
                else:
                    args.append(v)
            kw = {}
            for k, v in zip(e.keywords, vs[len(e.args):]):
                if k.arg is None:
                    h = x.heap.get(v.a[0]) if v.t == "ref" else None
                    if h is not None and h.t == "mut" and h.a[0] is DICTNEW and all(o.a[0] == "insert" and isc(o.a[1]) for o in h.a[1:]):
                        for o in h.a[1:]:
                            kw[cval(o.a[1])] = o.a[2]
                    elif h is DICTNEW:
                        pass
                    else:
                        kw["**%d" % len(kw)] = v
                else:
                    kw[k.arg] = v
            yield x, (tuple(args), kw)

    def any_all(self, fr, e, st, any_):
        g = e.args[0]
        st = st.copy()
        sub = Frame(self.fresh(st, fr, e, "comp"), fr.mod, None, fr, fr.cls)
        sub.node = fr.node
        sub.locals = {x.id for q in g.generators for x in ast.walk(q.target) if isinstance(x, ast.Name)}

        def leaf(x):
            return [((("break",) if b is any_ else None), y) for y, b in self.branch(sub, g.elt, x)]
        out = []
        for status, y in self.comp_loops(sub, g.generators, st, leaf, e):
            if status is None:
                out.append((y, C(not any_, "bool")))
            elif status[0] == "break":
                out.append((y, C(any_, "bool")))
            else:
                raise Unsup("any/all")
        return out

    def next_gen(self, fr, e, st):
        g = e.args[0]
        st = st.copy()
        sub = Frame(self.fresh(st, fr, e, "comp"), fr.mod, None, fr, fr.cls)
        sub.node = fr.node
        sub.locals = {x.id for q in g.generators for x in ast.walk(q.target) if isinstance(x, ast.Name)}

        def leaf(x):
            return [(("ret", v), y) for y, v in self.eval(sub, g.elt, x)]
        out = []
        for status, y in self.comp_loops(sub, g.generators, st, leaf, e):
            if status is None:
                out += self.eval(fr, e.args[1], y)
            elif status[0] == "ret":
                out.append((y, status[1]))
        return out

    def call(self, fr, f, args, kw, st, node):
        t = f.t
        if t == "pyfn" or t == "pyclo":
            return self.inline(fr, f, args, kw, st, node)
        if t == "pycls":
            return self.construct(fr, f.a[0], args, kw, st, node)
        if t == "bound":
            if f.a[1] == "":
                return [(st, op("m:" + f.a[2], self.freeze(st, f.a[0]), *[self.freeze(st, a) for a in args]))]
            kind = self.method(f.a[1], f.a[2])[1] if len(f.a) > 2 and self.method(f.a[1], f.a[2]) else "method"
            name = f.a[2] if len(f.a) > 2 else None
            first = () if kind == "static" else ((mk("pycls", f.a[1]),) if kind == "class" else (f.a[0],))
            return self.inline(fr, mk("pyfn", f.a[1] + "." + name), first + tuple(args), kw, st, node)
        if t == "g":
            return self.lib(fr, f.a[0], args, kw, st, node)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and t == "op" and f.a[0] == "." + node.func.attr:
            base = f.a[1]
            # the method of a value: the object itself is needed to mutate it
            rs = self.eval_quiet(fr, node.func.value, st)
            return self.method_call(fr, rs if rs is not None else base, node.func.attr, args, kw, st, node)
        if t == "op" and f.a[0] == "partial":
            return self.call(fr, f.a[1], tuple(f.a[2]) + tuple(args), {**dict(f.a[3]), **kw}, st, node)
        return self.user(fr, f, args, kw, st, node)

    def eval_quiet(self, fr, e, st):
        """The value of a name or attribute chain, again (it has no effects)."""
        self.rs.append([])
        try:
            r = self.eval(fr, e, st) if isinstance(e, (ast.Name, ast.Attribute)) else []
        finally:
            self.rs.pop()
        return r[0][1] if len(r) == 1 else None

    def user(self, fr, f, args, kw, st, node):
        """A call of test code: it may return anything or raise anything."""
        st = st.copy()
        fz = self.freeze(st, f)
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple((k, self.freeze(st, v)) for k, v in kw.items())
        std = tuple(sorted(st.std.items()))
        site = self.fresh(st, fr, node, "user")
        v = op("ucall", fz, fa, fk, site)
        st.event("user", fz, fa, fk, v, std)
        self.sites[site] = self.where(fr, node)
        self.throw(fr, st, "user", v, node)
        return [(st, v)]

    def method_call(self, fr, b, name, args, kw, st, node):
        if name == "__get__" and args and not kw and b.t in ("op", "pyfn"):
            # a function bound to an instance
            return [(st, op("partial", b, (args[0],), ()))]
        if b.t == "obj" and b.a[0] == "contextlib.ExitStack":
            return self.stack_method(fr, b, name, args, kw, st, node)
        fz = self.freeze(st, b)
        if name == "exec_module":
            return self.user(fr, op(".exec_module", fz), args, kw, st, node)
        if name not in METHODS:
            return self.user(fr, op("." + name, fz), args, kw, st, node)
        fa = tuple(self.freeze(st, a) for a in args)
        if name in MUTATORS and not (name in ("index", "count")):
            isobj = b.t == "ref" and st.heap.get(b.a[0]) is not None and st.heap[b.a[0]].t in ("mut", "op", "lv", "fold")
            isvec = isobj
            lib = fz.t == "op" and fz.a[0].startswith("call:")
            if isobj or not self.is_str(fz):
                st = st.copy()
                k = MUTATORS[name]
                if name == "update" and kw:
                    for kk, v in kw.items():
                        self.effect(st, b, "insert", (C(kk, "str"), v))
                    if not args:
                        return [(st, NONE)]
                if name == "setdefault":
                    key = fa[0]
                    out = []
                    for x, has in self.decide(st, op("contains", fz, key)):
                        if has:
                            out.append((x, op("index", fz, key)))
                        else:
                            x = x.copy()
                            self.effect(x, b, "insert", (args[0], args[1] if len(args) > 1 else NONE))
                            out.append((x, args[1] if len(args) > 1 else NONE))
                    return out
                if name == "extend" or name == "update":
                    if args:
                        items = self.known_items(st, args[0]) if name == "extend" else None
                        self.effect(st, b, "extend", (self.iterable(st, self.listed(st, args[0])),))
                    return [(st, NONE)]
                if name == "pop":
                    v = op("popped", fz, *fa)
                    self.effect(st, b, "pop", tuple(args))
                    return [(st, v)]
                if name == "sort":
                    self.effect(st, b, "sort", ())
                    return [(st, NONE)]
                if name == "insert":
                    self.effect(st, b, "vinsert", tuple(args))
                    return [(st, NONE)]
                self.effect(st, b, k, tuple(args))
                return [(st, NONE)]
        if name in ("items", "values", "keys"):
            return [(st, op(name, b) if name != "keys" else b)]
        if name == "get" and args:
            out = []
            fzk = fa[0]
            if fz.t == "mut" and fz.a[0] is DICTNEW or fz is DICTNEW or (fz.t == "mut" and fz.a[0].t in ("lv",)) or fz.t in ("lv", "fold"):
                for x, has in self.decide(st, op("contains", fz, fzk)):
                    out.append((x, self.index(x, b, args[0]) if has else (args[1] if len(args) > 1 else NONE)))
                return out
            return [(st, op("m:get", fz, *fa))]
        if name == "copy" and b.t == "ref":
            st = st.copy()
            h = st.heap[b.a[0]]
            return [(st, self.new(st, fr, node, h))]
        if name == "join" and len(args) == 1:
            items = self.known_items(st, args[0])
            if items is not None:
                ps = []
                for i, x in enumerate(items):
                    if i:
                        ps.append(fz)
                    ps.append(self.freeze(st, x))
                return [(st, cat(ps) if ps else C("", "str"))]
            return [(st, op("m:join", fz, fa[0]))]
        if name == "format" and self.is_str(fz):
            return [(st, op("m:format", fz, *fa, *[v for v in [self.freeze(st, v) for v in kw.values()]]))]
        v = op("m:" + name, fz, *fa, *[mk("kw", k, self.freeze(st, x)) for k, x in kw.items()])
        st = st.copy()
        if name in SIDE or name in ("add_argument", "parse_args", "parse_known_args"):
            st.event("m", name, fz, fa, tuple((k, self.freeze(st, x)) for k, x in kw.items()))
        r = LIBRAISE.get("m:" + name)
        if name == "relative_to":
            asked = op("m:is_relative_to", fz, *fa)
            if st.conds.get(asked) is True or st.conds.get(op("truth", asked)) is True:
                r = None
        if r:
            for x, e in [(st.copy(), mk("exc", r, v))]:
                k = op("raises", v)
                if st.conds.get(k) is True:
                    self.rs[-1].append((x, e))
                    return []
                if k not in st.conds:
                    x.conds[k] = True
                    st.conds[k] = False
                    self.rs[-1].append((x, e))
        return [(st, v)]

    def listed(self, st, v):
        """A lazily evaluated iterable as a collection."""
        if v.t == "op" and v.a[0] in ("enumerate", "zip", "items", "values", "reversed", "range"):
            s, stages, el = self.source(st, v)
            return mk("coll", s) if not stages else mk("coll", mk("staged", s, stages))
        return v

    # ---- library functions ----
    def lib(self, fr, name, args, kw, st, node):
        if name.startswith("builtins."):
            name = name[9:]
        if any(a.t == "star" for a in args) and name not in ("print", "itertools.product", "zip", "max", "min", "itertools.chain"):
            raise Unsup("*args of " + name)
        n = len(args)
        fa = tuple(self.freeze(st, a) for a in args)
        m = getattr(self, "l_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(fr, args, fa, kw, st, node)
            if r is not None:
                return r
        if name in USERLIB:
            v = op("call:" + name, *fa)
            st = st.copy()
            self.throw(fr, st, "user", v, node)
            return [(st, v)]
        fk = tuple(mk("kw", k, self.freeze(st, x)) for k, x in kw.items())
        v = op("call:" + name, *fa, *fk)
        st = st.copy()
        if name in LIBRAISE:
            k = op("raises", v)
            if k not in st.conds:
                x = st.copy()
                x.conds[k] = True
                st.conds[k] = False
                self.rs[-1].append((x, mk("exc", LIBRAISE[name], v)))
        if name not in QUIET and not name[0].isupper():
            st.event("lib", name, fa, tuple((k, self.freeze(st, x)) for k, x in kw.items()))
        if name in ("sys.exit", "exit", "quit"):
            self.rs[-1].append((st, mk("exc", "SystemExit", v)))
            return []
        if name == "os._exit":
            st.event("os._exit", *fa)
            self.rs[-1].append((st, mk("exc", "os._exit", v)))
            return []
        if ancestors(name) and (name[0].isupper() or name.startswith("re.")):
            return [(st, v)]
        if name in ("io.StringIO", "io.BytesIO", "io.TextIOWrapper", "threading.Lock", "object", "contextlib.ExitStack", "collections.deque", "tempfile.SpooledTemporaryFile", "tempfile.TemporaryFile"):
            oid = self.fresh(st, fr, node, "obj")
            self.born.setdefault(oid, tuple(self.active))
            return [(st, mk("obj", name, oid))]
        if name == "argparse.ArgumentParser":
            oid = self.fresh(st, fr, node, "obj")
            return [(st, mk("obj", name, oid))]
        return [(st, v)]

    def l_dataclasses_asdict(self, fr, args, fa, kw, st, node):
        st = st.copy()
        v = op("call:dataclasses.asdict", *fa, *[mk("kw", k, self.freeze(st, x)) for k, x in kw.items()])
        return [(st, self.new(st, fr, node, v))]

    def l_len(self, fr, args, fa, kw, st, node):
        v = fa[0]
        if v.t == "tup":
            return [(st, C(len(v.a), "int"))]
        if v.t == "coll" and v.a[0].t == "seq":
            v = v.a[0].a[0]
        return [(st, op("len", v))]

    def l_isinstance(self, fr, args, fa, kw, st, node):
        t = op("isinstance", fa[0], fa[1])
        if args[1].t == "op" and args[1].a[0] == "bitor":
            t = op("isinstance", fa[0], mk("tup", *args[1].a[1:]))
        if fa[0].t == "exc" and t.a[2].t != "tup":
            t = op("excis", fa[0], t.a[2])
        r = self.fold_const(st, t)
        return [(st, C(r, "bool") if r is not None else t)]

    def l_issubclass(self, fr, args, fa, kw, st, node):
        return [(st, op("issubclass", fa[0], fa[1]))]

    def l_callable(self, fr, args, fa, kw, st, node):
        return [(st, op("callable", fa[0]))]

    def l_bool(self, fr, args, fa, kw, st, node):
        if not args:
            return [(st, FALSE)]
        k = self.key(st, args[0])
        if isinstance(k, bool):
            return [(st, C(k, "bool"))]
        return [(st, self.freeze(st, k[0]) if k[1] else op("not", self.freeze(st, k[0])))]

    def l_str(self, fr, args, fa, kw, st, node):
        if not args:
            return [(st, C("", "str"))]
        if isc(fa[0]):
            return [(st, C(str(cval(fa[0])), "str"))]
        if self.is_str(fa[0]):
            return [(st, fa[0])]
        return [(st, op("call:str", fa[0]))]

    def l_type(self, fr, args, fa, kw, st, node):
        if len(fa) == 1:
            return [(st, op("type", fa[0]))]

    def l_getattr(self, fr, args, fa, kw, st, node):
        if not isc(fa[1]):
            v = op("getattr", *fa)
            return self.maybe_raise2(fr, st, v, fa[0], node)
        name = cval(fa[1])
        b = args[0]
        if (b, name) in st.attrs:
            return [(st, st.attrs[(b, name)])]
        h = st.heap.get(b.a[0], b) if b.t == "ref" else b
        if h.t in ("agg", "g", "pycls") and (h.t != "agg" or name in dict(h.a[2]) or self.method(h.a[0], name)):
            return self.getattr(fr, st, b, name, node)
        if len(args) == 2:
            return self.getattr(fr, st, b, name, node)
        if isc(fa[2]) or fa[2].t != "c":
            d = fa[2]
            if d is VECNEW or d in (DICTNEW, SETNEW):
                # getattr(x, name, []): either the attribute or an empty container
                hk = op("hasattr", fa[0], fa[1])
                out = []
                for x, has in self.decide(st, hk):
                    out.append((x, op("." + name, fa[0]) if has else args[2]))
                return out
        v = op("getattr", *fa)
        return self.maybe_raise2(fr, st, v, fa[0], node)

    def maybe_raise2(self, fr, st, v, base, node):
        return self.maybe_raise(fr, st, v, base, node)

    def l_hasattr(self, fr, args, fa, kw, st, node):
        if args[0].t == "ref":
            h = st.heap.get(args[0].a[0])
            if h is not None and h.t == "agg" and isc(fa[1]):
                return [(st, C(cval(fa[1]) in dict(h.a[2]), "bool"))]
        return [(st, op("hasattr", fa[0], fa[1]))]

    def l_setattr(self, fr, args, fa, kw, st, node):
        if not isc(fa[1]):
            st = st.copy()
            st.event("setattr", fa[0], "?", fa[2])
            return [(st, NONE)]
        st = st.copy()
        self.setattr(st, args[0], cval(fa[1]), args[2])
        return [(st, NONE)]

    def l_list(self, fr, args, fa, kw, st, node):
        st = st.copy()
        if not args:
            return [(st, self.new(st, fr, node, VECNEW))]
        items = self.known_items(st, args[0])
        if items is not None and args[0].t != "ref":
            return [(st, self.new(st, fr, node, mk("mut", VECNEW, *[mk("o", "push", x) for x in items]) if items else VECNEW))]
        if args[0].t == "ref" and st.heap[args[0].a[0]].t in ("mut", "op") and self.is_list(st.heap[args[0].a[0]]):
            return [(st, self.new(st, fr, node, st.heap[args[0].a[0]]))]
        return [(st, self.new(st, fr, node, mk("mut", VECNEW, mk("o", "extend", self.iterable(st, self.listed(st, args[0]))))))]

    def is_list(self, h):
        return h is VECNEW or (h.t == "mut" and h.a[0] is VECNEW)

    def l_sorted(self, fr, args, fa, kw, st, node):
        r = self.l_list(fr, args, fa, {}, st, node)
        x, v = r[0]
        self.mutate(x, v, mk("o", "sort"))
        return [(x, v)]

    def l_tuple(self, fr, args, fa, kw, st, node):
        if not args:
            return [(st, mk("tup"))]
        items = self.known_items(st, args[0])
        if items is not None:
            return [(st, mk("tup", *items))]
        v = self.freeze(st, self.listed(st, args[0]))
        if v.t == "coll":
            return [(st, v)]
        return [(st, mk("coll", mk("seq", v)))]

    def l_set(self, fr, args, fa, kw, st, node):
        st = st.copy()
        return [(st, self.new(st, fr, node, mk("mut", SETNEW, mk("o", "insert_all", self.iterable(st, self.listed(st, args[0])))) if args else SETNEW))]

    l_frozenset = l_set

    def l_dict(self, fr, args, fa, kw, st, node):
        st = st.copy()
        ops = []
        if args:
            v = args[0]
            if v.t == "op" and v.a[0] == "zip":
                ks = [self.known_items(st, x) for x in v.a[1:]]
                ops.append(mk("o", "extend", op("zip", *[self.freeze(st, x) for x in v.a[1:]])))
            else:
                ops.append(mk("o", "extend", self.freeze(st, v)))
        for k, v in kw.items():
            ops.append(mk("o", "insert", C(k, "str"), v))
        return [(st, self.new(st, fr, node, mk("mut", DICTNEW, *ops) if ops else DICTNEW))]

    def l_enumerate(self, fr, args, fa, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", C(0, "int"))
        return [(st, op("enumerate", args[0], start))]

    def l_zip(self, fr, args, fa, kw, st, node):
        if any(a.t == "star" for a in args):
            return [(st, op("call:zip", *fa))]
        strict = kw.get("strict", FALSE)
        return [(st, op("zip" if isc(strict) and not cval(strict) else "zip_strict", *args))]

    def l_reversed(self, fr, args, fa, kw, st, node):
        return [(st, op("reversed", args[0]))]

    def l_range(self, fr, args, fa, kw, st, node):
        if len(args) == 1:
            return [(st, op("range", C(0, "int"), args[0]))]
        if len(args) == 2:
            return [(st, op("range", args[0], args[1]))]

    def l_iter(self, fr, args, fa, kw, st, node):
        return [(st, args[0])]

    def l_map(self, fr, args, fa, kw, st, node):
        if len(args) != 2:
            return None
        st = st.copy()
        r = self.new(st, fr, node, VECNEW)
        tgt = ast.copy_location(ast.Name(id="$x", ctx=ast.Store()), node)
        sub = Frame(self.fresh(st, fr, node, "comp"), fr.mod, None, fr, fr.cls)
        sub.node, sub.locals = fr.node, {"$x"}

        def body(x):
            out = []
            for y, v in self.call(fr, args[0], (x.env[(sub.fid, "$x")],), {}, x, node):
                y = y.copy()
                self.mutate(y, r, mk("o", "push", v))
                out.append((None, y))
            return out
        return self.collect_loop(sub, tgt, args[1], body, st, node, r)

    def l_filter(self, fr, args, fa, kw, st, node):
        st = st.copy()
        r = self.new(st, fr, node, VECNEW)
        tgt = ast.copy_location(ast.Name(id="$x", ctx=ast.Store()), node)
        sub = Frame(self.fresh(st, fr, node, "comp"), fr.mod, None, fr, fr.cls)
        sub.node, sub.locals = fr.node, {"$x"}

        def body(x):
            out = []
            el = x.env[(sub.fid, "$x")]
            rs = [(x, el)] if isc(args[0]) else self.call(fr, args[0], (el,), {}, x, node)
            for y, v in rs:
                for z, b in self.decide(y, v):
                    if b:
                        z = z.copy()
                        self.mutate(z, r, mk("o", "push", el))
                    out.append((None, z))
            return out
        return self.collect_loop(sub, tgt, args[1], body, st, node, r)

    def collect_loop(self, sub, tgt, src, body, st, node, r):
        out = []
        for status, y in self.for_loop(sub, tgt, src, body, st, node, wrap=True):
            if status is None:
                out.append((y, r))
            elif status[0] == "raise":
                self.rs[-1].append((y, status[1]))
        return out

    def l_any(self, fr, args, fa, kw, st, node):
        return self.any_list(fr, args[0], st, node, True)

    def l_all(self, fr, args, fa, kw, st, node):
        return self.any_list(fr, args[0], st, node, False)

    def any_list(self, fr, v, st, node, any_):
        tgt = ast.copy_location(ast.Name(id="$x", ctx=ast.Store()), node)
        st = st.copy()
        sub = Frame(self.fresh(st, fr, node, "comp"), fr.mod, None, fr, fr.cls)
        sub.node, sub.locals = fr.node, {"$x"}

        def body(x):
            return [((("break",) if b is any_ else None), y) for y, b in self.decide(x, x.env[(sub.fid, "$x")])]
        out = []
        for status, y in self.for_loop(sub, tgt, v, body, st, node, wrap=True):
            if status is None:
                out.append((y, C(not any_, "bool")))
            elif status[0] == "break":
                out.append((y, C(any_, "bool")))
            elif status[0] == "raise":
                self.rs[-1].append((y, status[1]))
        return out

    def l_itertools_product(self, fr, args, fa, kw, st, node):
        if kw:
            return None
        return [(st, mk("coll", mk("product", *[mk("star", self.freeze(st, a.a[0])) if a.t == "star" else self.freeze(st, a) for a in args])))]

    def l_itertools_chain(self, fr, args, fa, kw, st, node):
        if any(a.t == "star" for a in args):
            return None
        st = st.copy()
        return [(st, self.new(st, fr, node, mk("mut", VECNEW, *[mk("o", "extend", x) for x in fa])))]

    def l_traceback_format_exc(self, fr, args, fa, kw, st, node):
        return [(st, op("call:traceback.format_exc", st.exc if st.exc is not None else op("none"), *[mk("kw", k, self.freeze(st, v)) for k, v in kw.items()], *fa))]

    def l_sys_exc_info(self, fr, args, fa, kw, st, node):
        e = st.exc if st.exc is not None else op("none")
        return [(st, mk("tup", op("type", e), e, op("tb", e)))]

    def l_print(self, fr, args, fa, kw, st, node):
        st = st.copy()
        st.event("print", fa, tuple((k, self.freeze(st, v)) for k, v in kw.items()))
        return [(st, NONE)]

    def l_types_MethodType(self, fr, args, fa, kw, st, node):
        return [(st, op("partial", args[0], tuple(args[1:]), ()))]

    def l_functools_partial(self, fr, args, fa, kw, st, node):
        return [(st, op("partial", args[0], tuple(args[1:]), tuple(kw.items())))]

    def l_os_fspath(self, fr, args, fa, kw, st, node):
        return [(st, op("call:str", fa[0]))]

    def l_dataclasses_replace(self, fr, args, fa, kw, st, node):
        h = st.heap.get(args[0].a[0]) if args[0].t == "ref" else args[0]
        if h.t != "agg":
            return None
        st = st.copy()
        fs = dict(h.a[2])
        fs.update(kw)
        return [(st, self.new(st, fr, node, mk("agg", h.a[0], h.a[1], tuple(fs.items()))))]

    # ---- inlining ----
    def fn_node(self, f):
        if f.t == "pyclo":
            fr, node = self.frames[f.a[0]]
            return fr.mod, node, fr, None, "inner:%s" % getattr(node, "name", "lambda")
        m, q = f.a[0].split(":")
        mod = self.mods[m]
        if "." in q:
            c, n = q.split(".")
            cn = mod.names[c][1]
            node = next(x for x in cn.body if isinstance(x, ast.FunctionDef) and x.name == n)
            return mod, node, None, c, f.a[0]
        return mod, mod.names[q][1], None, None, f.a[0]

    def inline(self, fr, f, args, kw, st, node, yields=None):
        mod, fn, parent, cls, name = self.fn_node(f)
        short = name.split(":")[-1]
        if short in self.opaque or name in self.opaque:
            st = st.copy()
            fa = tuple(self.freeze(st, a) for a in args) + tuple(mk("kw", k, self.freeze(st, v)) for k, v in kw.items())
            v = op("py:" + short, *fa)
            st.event("call", short, fa)
            for kind, known in self.summary(name):
                self.throw(fr, st, kind, v, node)
                x, exc = self.rs[-1][-1]
                for c, b in known:
                    x.conds[op("excis", exc, c)] = b
            return [(st, v)]
        if isinstance(fn, ast.AsyncFunctionDef):
            raise Unsup("async function " + short)
        if not isinstance(fn, ast.Lambda) and self.is_cm(fr, fn) and yields is None:
            return [(st, mk("cmgr", f, tuple(args), tuple(kw.items())))]
        if self.stack.count((f.t, f.a[0])) >= 1:
            return [(st, op("rec:" + short, *[self.freeze(st, a) for a in args]))]
        if len(self.stack) > 24:
            raise TooComplex("call depth")
        self.inlined.add(name)
        st = st.copy()
        fid = self.fresh(st, fr, node, "frame:" + name)
        sub = Frame(fid, mod, fn, parent, cls)
        self.bind_args(sub, fn, args, kw, st, mod, node)
        gen = not isinstance(fn, ast.Lambda) and is_gen(fn)
        acc = None
        if yields is not None:
            sub.yields = yields
        elif gen:
            acc = self.new(st, sub, fn, VECNEW)

            def push(x, val):
                y = x.copy()
                self.mutate(y, acc, mk("o", "push", val))
                return [(y, None)]
            sub.yields = push
            sub.acc = acc
        self.stack.append((f.t, f.a[0]))
        try:
            if isinstance(fn, ast.Lambda):
                rets = [(("ret", v), x) for x, v in self.eval(sub, fn.body, st)]
            else:
                rets = self.block(sub, fn.body, st)
        finally:
            self.stack.pop()
        out = []
        for status, x in rets:
            if status is None:
                out.append((x, acc if acc is not None else NONE))
            elif status[0] == "ret":
                out.append((x, acc if acc is not None else status[1]))
            elif status[0] == "raise":
                self.drop(x, fid)
                self.rs[-1].append((x, status[1]))
            else:
                raise Unsup("stray " + status[0])
        for x, _ in out:
            self.drop(x, fid)
        return out

    def summary(self, name):
        """Kinds of exceptions a function that is not inlined may raise (its analysis on its own)."""
        key = (repo(), name, tuple(sorted(self.opaque)))
        if key not in _SUMMARY:
            _SUMMARY[key] = ()  # a recursive call adds nothing of its own
            e = Engine(opaque=self.opaque - {name, name.split(":")[-1]})
            rs = e.run(name)

            seen = set()

            def changes(evs):
                if evs in seen:
                    return False
                seen.add(evs)
                for ev in evs:
                    if ev.a[0] == "loop":
                        r = e.loops[ev.a[1]]
                        if ev.a[1] in seen:
                            continue
                        seen.add(ev.a[1])
                        if any(changes(c.ev) for c in r.conts) or any(changes(x[2]) for x in r.exits):
                            return True
                    elif ev.a[0] in ("mutate", "setattr") and isinstance(ev.a[1], N) and contains(ev.a[1], lambda t: t.t == "param"):
                        return True
                return False
            if any(changes(x.ev) for _, x in rs):
                raise Unsup(name + " changes its arguments")
            kinds = {}
            for s, x in rs:
                if s[0] == "raise":
                    known = {(q.a[2], w) for q, w in x.conds.items() if q.t == "op" and q.a[0] == "excis" and q.a[1] is s[1]}
                    kinds[s[1].a[0]] = kinds.get(s[1].a[0], known) & known
            _SUMMARY[key] = tuple((k, tuple(sorted(v, key=lambda z: z[0].id))) for k, v in sorted(kinds.items()))
        return _SUMMARY[key]

    def drop(self, st, fid):
        """Forgets the variables of a finished call that no closure can see."""
        if any(fr.fid == fid for fr, _ in self.frames.values()):
            return
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]

    def bind_args(self, sub, fn, args, kw, st, mod, node):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        args = list(args)
        if any(x.t == "star" for x in args):
            raise Unsup("*args at " + self.where(sub, node))
        for n, v in zip(names, args):
            vals[n] = v
        rest = args[len(names):]
        if a.vararg:
            vals[a.vararg.arg] = mk("tup", *rest)
        elif rest:
            raise Unsup("too many arguments for " + getattr(fn, "name", "lambda"))
        extra = {}
        for k, v in kw.items():
            if k.startswith("**"):
                raise Unsup("**kwargs at " + self.where(sub, node))
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            vals[a.kwarg.arg] = self.new(st, sub, fn, mk("mut", DICTNEW, *[mk("o", "insert", C(k, "str"), v) for k, v in extra.items()]) if extra else DICTNEW)
        elif extra:
            raise Unsup("unknown arguments %s" % list(extra))
        dfr = Frame(self.intern(("modframe", mod.name)), mod, None) if sub.parent is None else sub.parent
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in vals:
                vals[n] = self.default(st, dfr, mod, fn, n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                raise Unsup("argument %s of %s" % (n, getattr(fn, "name", "lambda")))
        for n, v in vals.items():
            st.env[(sub.fid, n)] = v

    def default(self, st, fr, mod, fn, n, d):
        oid = self.intern(("default", mod.name, fn.lineno, n))
        if oid in st.heap:
            return mk("ref", oid)
        r = self.eval(fr, d, st)
        if len(r) != 1:
            raise Unsup("default of " + n)
        v = r[0][1]
        if v.t == "ref":
            st.heap[oid] = r[0][0].heap[v.a[0]]
            self.born[oid] = ("module",)
            return mk("ref", oid)
        return v

    def e_Yield(self, fr, e, st):
        cb = fr.yields
        if cb is None:
            raise Unsup("yield")
        out = []
        for x, v in (self.eval(fr, e.value, st) if e.value is not None else [(st, NONE)]):
            for y, exc in cb(x, v):
                if exc is not None:
                    self.rs[-1].append((y, exc))
                else:
                    out.append((y, NONE))
        return out

    def e_YieldFrom(self, fr, e, st):
        acc = getattr(fr, "acc", None)
        if acc is None:
            raise Unsup("yield from")
        out = []
        for x, v in self.eval(fr, e.value, st):
            x = x.copy()
            self.mutate(x, acc, mk("o", "extend", self.iterable(x, self.listed(x, v))))
            out.append((x, NONE))
        return out

    # ---- entry ----
    def run(self, qual, args=None, kw=None, prepare=None):
        """Analyses a function: [(status, state)], status ("ret", value) or ("raise", exception)."""
        f = mk("pyfn", qual)
        mod, fn, _, cls, name = self.fn_node(f)
        st = St()
        if args is None:
            a = fn.args
            args = [mk("param", x.arg) for x in a.posonlyargs + a.args]
            kw = {x.arg: mk("param", x.arg) for x in a.kwonlyargs}
        if cls is not None and args and args[0].t == "param" and not any("static" in ast.unparse(d) or "classmethod" in ast.unparse(d) for d in fn.decorator_list):
            self.selfcls = (args[0], qual.rsplit(".", 1)[0])
        fr = Frame(self.intern(("modframe", mod.name)), mod, None)
        if prepare:
            args = prepare(self, st, fr, fn)
        self.rs.append([])
        rets = self.inline(fr, f, tuple(args), kw or {}, st, fn)
        rs = self.rs.pop()
        return [(("ret", v), x) for x, v in rets] + [(("raise", e), x) for x, e in rs]

    def apply(self, rets, args, qual):
        """Calls the values that a function returned: [(status, state)] after the call."""
        mod, fn, _, cls, name = self.fn_node(mk("pyfn", qual))
        fr = Frame(self.intern(("modframe", mod.name)), mod, None)
        out = []
        for status, x in rets:
            if status[0] != "ret":
                out.append((status, x))
                continue
            y = x.copy()
            y.event("applied")
            self.rs.append([])
            try:
                r = self.call(fr, status[1], tuple(args), {}, y, fn)
            finally:
                rs = self.rs.pop()
            out += [(("ret", v), z) for v, z in ((b, a) for a, b in r)] + [(("raise", e), z) for z, e in rs]
        return out


def uncopied(t):
    """list(X) where nothing was added: X."""
    while t.t == "mut" and t.a[0] is VECNEW and len(t.a) == 2 and t.a[1].a[0] == "extend":
        t = t.a[1].a[1]
    return t


def const_elems(t):
    """Elements of a set or list built from constants."""
    if t.t == "mut" and t.a[0] in (SETNEW, VECNEW):
        out = []
        for o in t.a[1:]:
            if o.a[0] in ("insert", "push") and isc(o.a[1]):
                out.append(o.a[1])
            elif o.a[0] in ("insert_all", "extend"):
                x = o.a[1]
                while x.t in ("seq", "coll"):
                    x = x.a[0]
                if x.t != "tup" or not all(isc(y) for y in x.a):
                    return None
                out += x.a
            else:
                return None
        return out
    if t.t == "op" and t.a[0] in ("call:frozenset", "call:set") and len(t.a) == 2:
        x = t.a[1]
        while x.t in ("seq", "coll"):
            x = x.a[0]
        return list(x.a) if x.t == "tup" and all(isc(y) for y in x.a) else const_elems(x)
    return None


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def _dedup(conts):
    d = {}
    for c in conts:
        k = (c.ev, tuple(sorted(((p.id, v.id) for p, v in c.upd.items()))))
        if k in d:
            d[k].conds, d[k].groups = join(d[k], c)
        else:
            d[k] = c
    return list(d.values())


def cat(parts):
    out = []
    for p in parts:
        for x in (p.a if p.t == "cat" else (p,)):
            if isc(x) and isinstance(cval(x), str):
                if not cval(x):
                    continue
                if out and isc(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = C(cval(out[-1]) + cval(x), "str")
                    continue
            elif isc(x) and type(cval(x)) in (int, bool):
                x = C(str(cval(x)), "str")
                if out and isc(out[-1]):
                    out[-1] = C(cval(out[-1]) + cval(x), "str")
                    continue
            out.append(x)
    if not out:
        return C("", "str")
    if len(out) == 1 and isc(out[0]):
        return out[0]
    return mk("cat", *out)
