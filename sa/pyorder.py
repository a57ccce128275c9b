"""Iterations of Python code whose order depends on the hash seed or on the file system."""
import ast

SETS = {"set", "frozenset"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
LISTING = {"listdir", "scandir", "iterdir", "rglob", "iglob", "walk", "glob"}
NEUTRAL = {"sorted", "len", "any", "all", "sum", "min", "max", "set", "frozenset", "bool", "isinstance", "Counter", "update", "issubset", "issuperset", "isdisjoint", "intersection_update",
           "difference_update", "union", "intersection", "difference", "symmetric_difference", "fsum"}
RANDOM = {"shuffle", "choice", "choices", "sample", "random", "randint", "randrange", "uuid4", "uuid1", "urandom", "token_hex", "getrandbits"}
CONTAINERS = {"list", "tuple", "enumerate", "zip", "map", "filter", "iter", "next", "reversed", "fromkeys", "join", "extend", "chain", "cycle", "deque", "islice", "from_iterable", "dict", "OrderedDict", "str",
              "repr", "format", "print", "writelines"}


def name_of(f):
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""


def own(fn):
    """The nodes of a function without those of functions inside it."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))


def annotated(a):
    if a is None:
        return False
    if isinstance(a, ast.Subscript):
        a = a.value
    n = name_of(a)
    return n in ("set", "frozenset", "Set", "FrozenSet", "AbstractSet", "MutableSet")


class Scope:
    def __init__(self, mod, fn, returns, attrs):
        self.mod, self.fn, self.returns, self.attrs = mod, fn, returns, attrs
        self.sets = set()
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs:
                if annotated(a.annotation):
                    self.sets.add(a.arg)
        for _ in range(4):
            n = len(self.sets)
            for x in own(fn):
                if isinstance(x, ast.Assign) and self.unordered(x.value):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.sets.add(t.id)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and (annotated(x.annotation) or x.value is not None and self.unordered(x.value)):
                    self.sets.add(x.target.id)
                elif isinstance(x, ast.NamedExpr) and self.unordered(x.value):
                    self.sets.add(x.target.id)
                elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and isinstance(x.iter, (ast.Tuple, ast.List)) \
                        and any(self.unordered(y) for y in x.iter.elts):
                    self.sets.add(x.target.id)
            if len(self.sets) == n:
                break
        for x in own(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and isinstance(x.func.value, ast.Name):
                self.sets.discard(x.func.value.id)
        # a name that is also given something ordered is not known to be a set
        for x in own(fn):
            if isinstance(x, ast.Assign) and not self.unordered(x.value):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        self.sets.discard(t.id)

    def unordered(self, x):
        """What makes the order of the expression's elements arbitrary, or None."""
        if isinstance(x, (ast.Set, ast.SetComp)):
            return "a set"
        if isinstance(x, ast.Name):
            return "a set" if x.id in self.sets else None
        if isinstance(x, ast.Attribute):
            return "a set" if x.attr in self.attrs else None
        if isinstance(x, ast.IfExp):
            return self.unordered(x.body) or self.unordered(x.orelse)
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            keys = lambda y: isinstance(y, ast.Call) and name_of(y.func) in ("keys", "items")
            if self.unordered(x.left) == "a set" or keys(x.left) and (keys(x.right) or self.unordered(x.right)):
                return "a set"
            return None
        if isinstance(x, ast.Call):
            n = name_of(x.func)
            if isinstance(x.func, ast.Name) and n in SETS:
                return "a set"
            if isinstance(x.func, ast.Attribute) and n in SETOPS and self.unordered(x.func.value) == "a set":
                return "a set"
            if n in LISTING and (isinstance(x.func, ast.Attribute) or n in self.imported()):
                if n in ("glob", "walk") and isinstance(x.func, ast.Attribute) and name_of(x.func.value) in ("ast", "self"):
                    return None
                return "a directory listing"
            if n in self.returns and isinstance(x.func, (ast.Name, ast.Attribute)):
                return "a set"
            if isinstance(x.func, ast.Name) and n in ("list", "tuple", "iter", "enumerate", "reversed", "map", "filter") and x.args:
                # still in the order of what it was made from
                for a in x.args:
                    r = self.unordered(a)
                    if r:
                        return r
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            return self.unordered(x.generators[0].iter)
        return None

    def imported(self):
        out = set()
        for x in ast.walk(self.mod):
            if isinstance(x, ast.ImportFrom) and x.module in ("os", "glob", "random", "uuid", "secrets"):
                out |= {a.asname or a.name for a in x.names}
        return out


def parents(fn):
    out = {}
    for x in ast.walk(fn):
        for y in ast.iter_child_nodes(x):
            out[y] = x
    return out


def neutral_use(x, up):
    """The value is consumed by something that does not care for its order."""
    while True:
        p = up.get(x)
        if isinstance(p, ast.Call) and x in p.args:
            n = name_of(p.func)
            if n in NEUTRAL or n == "fromkeys" and False:
                return True
            if n in ("list", "tuple", "iter", "map", "filter", "enumerate") and isinstance(p.func, ast.Name):
                x = p
                continue
            return False
        if isinstance(p, ast.Compare):
            return True
        if isinstance(p, (ast.GeneratorExp, ast.ListComp)) and isinstance(up.get(x), (ast.GeneratorExp, ast.ListComp)):
            x = p
            continue
        if isinstance(p, ast.comprehension) and p.iter is x:
            q = up[p]
            if isinstance(q, ast.SetComp):
                return True
            x = q
            continue
        if isinstance(p, ast.Starred):
            g = up.get(p)
            if isinstance(g, ast.Set) or isinstance(g, ast.Call) and name_of(g.func) in NEUTRAL:
                return True
            return False
        return False


def sorted_later(fn, x, up):
    """list(s) kept under a name that is sorted in place."""
    p = up.get(x)
    if isinstance(p, (ast.Assign, ast.AnnAssign)):
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        for t in ts:
            if isinstance(t, ast.Name):
                for y in own(fn):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and isinstance(y.func.value, ast.Name) and y.func.value.id == t.id:
                        return True
                uses = [y for y in own(fn) if isinstance(y, ast.Name) and y.id == t.id and isinstance(y.ctx, ast.Load)]
                if uses and all(neutral_use(y, up) for y in uses):
                    return True
    return False


ORDERED = {"append", "extend", "insert", "write", "writelines", "print", "appendleft"}


def body(stmts, names, fn):
    """(bad, unknown) of a loop's body run in an arbitrary order."""
    bad = unk = None
    for s in stmts:
        for x in [s] + list(ast.walk(s)):
            if isinstance(x, ast.Call):
                n = name_of(x.func)
                if n in ORDERED:
                    tgt = x.func.value.id if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) else None
                    if tgt and any(isinstance(y, ast.Call) and (isinstance(y.func, ast.Attribute) and y.func.attr == "sort" and isinstance(y.func.value, ast.Name) and y.func.value.id == tgt
                                   or name_of(y.func) == "sorted" and y.args and isinstance(y.args[0], ast.Name) and y.args[0].id == tgt) for y in own(fn)):
                        continue
                    bad = bad or n
                elif n not in ("add", "discard", "remove", "update", "len", "isinstance", "startswith", "endswith", "get", "str", "fnmatch", "getattr", "hasattr"):
                    unk = unk or "a call of " + n
            elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                bad = bad or "yield"
            elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and not isinstance(x.value, ast.Constant):
                unk = unk or "a running value"
            elif isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
                unk = unk or "a return"
            elif isinstance(x, ast.Assign):
                unk = unk or "an assignment"
    return bad, unk


def scan(mod_tree):
    """(kind, reason, function, line text) of every iteration; kind is bad, unk or ok."""
    fns = [mod_tree] + [x for x in ast.walk(mod_tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
    returns, attrs = set(), set()
    for f in fns:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and annotated(f.returns):
            returns.add(f.name)
    for x in ast.walk(mod_tree):
        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Attribute) and annotated(x.annotation):
            attrs.add(x.target.attr)
        elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and name_of(x.value.func) in SETS:
            attrs |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
    for f in fns:
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name not in returns:
            sc = Scope(mod_tree, f, returns, attrs)
            rs = [x.value for x in own(f) if isinstance(x, ast.Return) and x.value is not None]
            if rs and all(sc.unordered(r) == "a set" for r in rs):
                returns.add(f.name)
    up = parents(mod_tree)
    for f in fns:
        sc = Scope(mod_tree, f, returns, attrs)
        where = getattr(f, "name", "<module>")
        for x in own(f):
            if isinstance(x, (ast.For, ast.AsyncFor)):
                r = sc.unordered(x.iter)
                if r:
                    b, u = body(x.body, None, f)
                    yield ("bad" if b else "unk" if u else "ok"), "a loop over %s%s" % (r, " (%s)" % (b or u) if b or u else ""), where
            elif isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    r = sc.unordered(g.iter)
                    if r:
                        k = "ok" if neutral_use(x, up) or sorted_later(f, x, up) else "bad"
                        yield k, "a list made from %s" % r, where
            elif isinstance(x, ast.Call):
                n = name_of(x.func)
                if n in CONTAINERS and x.args:
                    for a in x.args:
                        v = a.value if isinstance(a, ast.Starred) else a
                        if isinstance(v, (ast.ListComp, ast.GeneratorExp)):
                            continue
                        r = sc.unordered(v)
                        if r and not (n in ("list", "tuple", "iter", "map", "filter", "enumerate") and (neutral_use(x, up) or sorted_later(f, x, up) or loop_source(x, up))):
                            if n in ("map", "filter", "zip", "chain") and neutral_use(x, up):
                                continue
                            yield "bad", "%s() of %s" % (n, r), where
                if n == "pop" and isinstance(x.func, ast.Attribute) and not x.args and sc.unordered(x.func.value) == "a set":
                    yield "bad", "an arbitrary element of a set", where
                if n in RANDOM and (isinstance(x.func, ast.Attribute) and name_of(x.func.value) in ("random", "uuid", "os", "secrets", "rng") or n in sc.imported()):
                    yield "bad", "a random choice (%s)" % n, where
                if n in ("sorted", "sort", "min", "max"):
                    for kw in x.keywords:
                        if kw.arg == "key":
                            for y in ast.walk(kw.value):
                                if isinstance(y, ast.Name) and y.id in ("hash", "id") and isinstance(y.ctx, ast.Load) and (y is kw.value or isinstance(up.get(y), ast.Call)):
                                    yield "bad", "an order by %s()" % y.id, where
            elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Call) and name_of(x.left.func) in ("hash", "id"):
                yield "bad", "a choice by %s()" % name_of(x.left.func), where
            elif isinstance(x, ast.Starred) and isinstance(x.ctx, ast.Load):
                r = sc.unordered(x.value)
                if r and isinstance(up.get(x), (ast.List, ast.Tuple)):
                    yield "bad", "a list made from %s" % r, where
            elif isinstance(x, ast.FormattedValue) and sc.unordered(x.value):
                yield "bad", "a text made from %s" % sc.unordered(x.value), where
            elif isinstance(x, ast.YieldFrom) and sc.unordered(x.value):
                yield "bad", "yield from %s" % sc.unordered(x.value), where


def loop_source(x, up):
    p = up.get(x)
    while isinstance(p, ast.Call) and name_of(p.func) in ("list", "tuple", "iter", "map", "filter", "enumerate"):
        x, p = p, up.get(p)
    return isinstance(p, (ast.For, ast.comprehension)) and p.iter is x
