"""File effects of the Python side: every call that writes, moves or deletes a file, and what its target is made of."""
import ast, copy
from . import pyx

# methods of a path (or of anything else) that change files
PATH = {"write_text", "write_bytes", "touch", "unlink", "rmdir", "mkdir", "symlink_to", "hardlink_to", "chmod", "lchmod", "rename", "copy_into", "move_into"}
OS = {"remove", "unlink", "rename", "replace", "mkdir", "makedirs", "rmdir", "removedirs", "renames", "symlink", "link", "chmod", "chown", "truncate", "mkfifo", "mknod", "utime", "open"}
SHUTIL = {"copy", "copy2", "copyfile", "copytree", "copymode", "copystat", "move", "rmtree", "make_archive", "unpack_archive", "chown"}
SECOND = {"copy", "copy2", "copyfile", "copytree"}          # the written one is the second argument
OPENERS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open", "logging.FileHandler", "shelve.open", "dbm.open", "sqlite3.connect",
           "logging.handlers.RotatingFileHandler"}
ALWAYS = {"logging.FileHandler", "logging.handlers.RotatingFileHandler", "shelve.open", "sqlite3.connect"}
TEMP = {"tempfile.mkdtemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.mkstemp", "tempfile.SpooledTemporaryFile"}
SAME = {"resolve", "absolute", "expanduser", "as_posix", "__fspath__"}
SAMEFN = {"pathlib.Path", "pathlib.PurePath", "str", "os.fspath", "os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser", "typing.cast"}
WRITES = set("wax+")


def dotted(m, n, binds=()):
    """The qualified name of a function expression, through the module's imports."""
    if isinstance(n, ast.Name):
        if n.id in binds:
            b = binds[n.id]
        else:
            b = m.names.get(n.id)
        if b is None:
            return n.id
        if b[0] == "mod":
            return b[1]
        if b[0] == "from":
            return (b[1] + "." + b[2]).replace("pathlib._local.", "pathlib.")
        return m.name + "." + n.id
    if isinstance(n, ast.Attribute):
        x = dotted(m, n.value, binds)
        return x + "." + n.attr if x else None
    return None


class Fn:
    def __init__(self, m, node, cls):
        self.m, self.node, self.cls = m, node, cls
        self.name = node.name if node is not None else "<module>"
        self.qual = m.name + "." + (cls + "." if cls else "") + self.name
        self.binds = {}        # imports made inside the function
        self.assigns = {}      # local name -> expressions it is bound to (None: not readable)
        body = node.body if node is not None else [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
        self.nodes = []
        stack = list(body)
        while stack:
            n = stack.pop()
            self.nodes.append(n)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for k, v in pyx.imports(n, m.pkg):
                    self.binds[k] = v
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    stack.append(c)
        put = lambda t, v: self.assigns.setdefault(t.id, []).append(v) if isinstance(t, ast.Name) else [put(x, v) if isinstance(v, tuple) else put(x, None) for x in getattr(t, "elts", [])]
        for n in self.nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            put(a, b)
                    else:
                        put(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                put(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                put(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                put(n.target, ("elem", n.iter))
            elif isinstance(n, ast.comprehension):
                put(n.target, ("elem", n.iter))
            elif isinstance(n, ast.AugAssign):
                put(n.target, None)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        put(i.optional_vars, i.context_expr)
        self.params = []
        if node is not None:
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args]
            self.kwonly = [x.arg for x in a.kwonlyargs]
            self.star = a.vararg.arg if a.vararg else None
            self.dstar = a.kwarg.arg if a.kwarg else None


class Package:
    def __init__(self):
        self.fns = []
        for m in pyx.modules().values():
            self.fns.append(Fn(m, None, ""))
            def visit(node, cls, outer):
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Fn(m, n, cls)
                        f.outer = outer
                        self.fns.append(f)
                        visit(n, "", f)
                    elif isinstance(n, ast.ClassDef):
                        visit(n, (cls + "." if cls else "") + n.name, outer)
                    else:
                        visit(n, cls, outer)
            visit(m.tree, "", None)
        self.calls = [(f, n) for f in self.fns for n in f.nodes if isinstance(n, ast.Call)]
        self.dest = set()
        for f, n in self.calls:
            if isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument" and any(isinstance(a, ast.Constant) and a.value == "--out" for a in n.args):
                d = next((k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)), None)
                self.dest.add(d or "out")
        # the other options of the worker
        self.others = {(a.value.lstrip("-").replace("-", "_")) for f, n in self.calls if isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument" for a in n.args
                       if isinstance(a, ast.Constant) and isinstance(a.value, str)} - self.dest
        self.memo = {}

    def args_for(self, f, name):
        """What callers pass for a parameter: [(caller, expression)], None for a call that cannot be read."""
        out = []
        if f.node is None:
            return out
        a = f.node.args
        method = bool(f.cls) and f.params and f.params[0] in ("self", "cls")
        ps = f.params[1:] if method else f.params
        defaults = dict(zip(reversed(f.params), reversed(a.defaults)))
        defaults.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        for g, n in self.calls:
            q = dotted(g.m, n.func, g.binds)
            fname = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            partial = q in ("functools.partial",) and n.args and self.same(g, n.args[0], f)
            if fname != f.name and not partial and not (f.name == "__init__" and fname == f.cls.split(".")[-1]):
                continue
            if fname == f.name and not f.cls and isinstance(n.func, ast.Attribute) and q != f.qual:
                continue
            args = n.args[1:] if partial else n.args
            if any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in n.keywords):
                out.append(None)
                continue
            kw = {k.arg: k.value for k in n.keywords}
            if name in kw:
                out.append((g, kw[name]))
            elif name in ps and ps.index(name) < len(args):
                out.append((g, args[ps.index(name)]))
            elif name in defaults:
                out.append((f, defaults[name]))
            else:
                out.append(None)
        return out

    def same(self, g, n, f):
        return isinstance(n, (ast.Name, ast.Attribute)) and (dotted(g.m, n, g.binds) == f.qual)

    def kind(self, f, n, seen=()):
        """'out' (the file named by --out), 'near' (in the directory of it, or of a temporary directory), 'fd', 'null' or 'other'; None: not known."""
        key = (id(n), f.qual)
        if key in seen or len(seen) > 30:
            return "cyc"
        if key in self.memo:
            return self.memo[key]
        k = self._kind(f, n, seen + (key,))
        if not seen:
            self.memo[key] = k
        return k

    def merge(self, ks):
        ks = {k for k in ks if k != "cyc"}
        if not ks:
            return None
        if len(ks) == 1:
            return ks.pop()
        if None in ks:
            return None
        return "other" if "other" in ks else "near"

    def _kind(self, f, n, seen):
        go = lambda x, g=f: self.kind(g, x, seen)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or isinstance(n.value, int):
                return "fd"
            if n.value is None:
                return "cyc"
            return "null" if n.value == "/dev/null" else "other"
        if isinstance(n, ast.NamedExpr):
            return go(n.value)
        if isinstance(n, ast.Name):
            g = f
            while g is not None:
                if n.id in g.assigns:
                    vs = g.assigns[n.id]
                    ks = [None if v is None or isinstance(v, tuple) and self.kind(g, v[1], seen) in ("out", "near", None) else "other" if isinstance(v, tuple) else self.kind(g, v, seen) for v in vs]
                    if n.id in g.params + (g.kwonly if g.node is not None else []):
                        ks += self.passed(g, n.id, seen)
                    return self.merge(ks)
                if g.node is not None and n.id in g.params + g.kwonly:
                    return self.merge(self.passed(g, n.id, seen) or [None])
                g = getattr(g, "outer", None)
            top = next((x for x in self.fns if x.m is f.m and x.node is None), None)
            if top is not None and top is not f and n.id in top.assigns:
                return self.merge([self.kind(top, v, seen) if isinstance(v, ast.AST) else None for v in top.assigns[n.id]])
            if n.id in ("__file__", "__name__", "__path__"):
                return "other"
            b = f.m.names.get(n.id)
            if b and b[0] == "from":
                q = b[1] + "." + b[2]
                if q == "os.devnull":
                    return "null"
                mod = pyx.modules().get(b[1])
                if mod is not None:
                    top = next((x for x in self.fns if x.m is mod and x.node is None), None)
                    if top is not None and b[2] in top.assigns:
                        return self.merge([self.kind(top, v, seen) if isinstance(v, ast.AST) else None for v in top.assigns[b[2]]])
            return None
        if isinstance(n, ast.Attribute):
            if dotted(f.m, n, f.binds) == "os.devnull":
                return "null"
            if n.attr in self.dest:
                return "out"
            if n.attr in ("__file__", "__path__"):
                return "other"
            if n.attr in ("parent", "stem", "name", "suffix"):
                k = go(n.value)
                return "near" if k in ("out", "near") and n.attr == "parent" else k if k != "out" else "other" if n.attr != "parent" else "near"
            if n.attr == "name" or n.attr == "parents":
                return go(n.value)
            if n.attr in self.others and isinstance(n.value, ast.Name) and any(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "parse_args" for v in f.assigns.get(n.value.id, ())):
                return "other"
            # a field of a record made somewhere in the package
            given = [(g, k.value) for g, c in self.calls for k in c.keywords if k.arg == n.attr]
            sets = [(g, x.value) for g in self.fns for x in g.nodes if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Attribute) and t.attr == n.attr]
            ks = [self.kind(g, v, seen) for g, v in given + sets]
            if ks:
                k = self.merge(ks)
                return k if k == "out" else None if any(x in ("out", "near", None) for x in ks) else k
            return None
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Constant) and n.slice.value in self.dest:
                return "out"
            if isinstance(n.value, ast.Attribute) and n.value.attr == "parents":
                k = go(n.value.value)
                return "near" if k in ("out", "near") else k
            k = go(n.value)
            return None if k in ("out", "near", None, "cyc") else k
        if isinstance(n, ast.BinOp):
            a, b = go(n.left), go(n.right)
            if isinstance(n.op, ast.Div):
                # an absolute right side would replace the left one
                return "near" if a == "near" and isinstance(n.right, ast.Constant) and not str(n.right.value).startswith(("/", "..")) else None if a in ("out", "near", None) else "other"
            if a in ("out", "near", None) or b in ("out", "near"):
                return None
            return "other"
        if isinstance(n, ast.JoinedStr):
            ks = [go(v.value) for v in n.values if isinstance(v, ast.FormattedValue)]
            return None if any(k in ("out", "near") for k in ks) or None in ks and not (n.values and isinstance(n.values[0], ast.Constant)) else "other"
        if isinstance(n, ast.IfExp):
            return self.merge([go(n.body), go(n.orelse)])
        if isinstance(n, ast.BoolOp):
            ks = [go(v) for v in n.values if not isinstance(v, ast.Constant)]
            return self.merge(ks or ["other"])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            g = copy.copy(f)
            g.assigns = dict(f.assigns)
            for c in n.generators:
                if isinstance(c.target, ast.Name):
                    g.assigns[c.target.id] = [("elem", c.iter)]
            return self.kind(g, n.elt, seen)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            return self.merge([go(x) for x in n.elts] or ["cyc"])
        if isinstance(n, ast.Starred):
            return go(n.value)
        if isinstance(n, ast.Call):
            q = dotted(f.m, n.func, f.binds)
            if q in SAMEFN and n.args:
                if len(n.args) == 1:
                    return go(n.args[0])
                if q == "typing.cast":
                    return go(n.args[1])
                a = go(n.args[0])
                return "near" if a == "near" else None if a in ("out", None) else "other"
            if q in ("sorted", "list", "set", "tuple", "reversed", "iter", "next", "frozenset") and n.args:
                return go(n.args[0])
            if q in ("os.path.dirname",) and n.args:
                k = go(n.args[0])
                return "near" if k in ("out", "near") else k
            if q == "os.path.join" and n.args:
                k = go(n.args[0])
                return "near" if k == "near" else None if k in ("out", None) else "other"
            if q in TEMP:
                d = next((k.value for k in n.keywords if k.arg == "dir"), None)
                if d is not None and not (isinstance(d, ast.Constant) and d.value is None):
                    return go(d)
                return "near"
            if q == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                return "out" if n.args[1].value in self.dest else None
            if q in ("pathlib.Path.cwd", "os.getcwd", "pathlib.Path.home", "tempfile.gettempdir", "os.environ.get", "os.getenv") or q in SAMEFN:
                return "other"
            if q in ("sys.stdout.fileno", "sys.stderr.fileno", "os.dup"):
                return "fd"
            if q and q.endswith(".fileno"):
                return "fd"
            target = next((g for g in self.fns if g.node is not None and g.qual == q), None)
            if target is not None:
                rets = [x.value for x in target.nodes if isinstance(x, ast.Return) and x.value is not None]
                return self.merge([self.kind(target, v, seen) for v in rets] or [None])
            if isinstance(n.func, ast.Attribute):
                k = go(n.func.value)
                if n.func.attr in SAME or n.func.attr == "fileno":
                    return k
                if n.func.attr in ("with_suffix", "with_name", "with_stem", "joinpath"):
                    return "near" if k in ("out", "near") and n.func.attr != "joinpath" else "near" if k == "near" and all(isinstance(a, ast.Constant) and not str(a.value).startswith(("/", "..")) for a in n.args) else None if k in ("out", "near", None) else "other"
                return None if k in ("out", "near", None, "cyc") else "other"
            return None
        return None

    def passed(self, g, name, seen):
        given = self.args_for(g, name)
        out = [None if x is None else self.kind(x[0], x[1], seen) for x in given]
        if not given and g.node is not None:
            # a function of the package that nothing in it calls: its caller names the file
            return [None]
        return out

    def const(self, f, n):
        """The texts a mode can be, or None."""
        if isinstance(n, ast.Constant):
            return {n.value}
        if isinstance(n, ast.IfExp):
            a, b = self.const(f, n.body), self.const(f, n.orelse)
            return a | b if a and b else None
        if isinstance(n, ast.Name):
            top = next((x for x in self.fns if x.m is f.m and x.node is None), None)
            vs = f.assigns.get(n.id) or (top.assigns.get(n.id) if top else None)
            if vs and all(isinstance(v, ast.AST) for v in vs):
                cs = [self.const(f, v) for v in vs]
                return set().union(*cs) if all(cs) else None
        return None

    def sinks(self):
        """(function, call, what, target expression or None, the mode is known)."""
        for f, n in self.calls:
            q = dotted(f.m, n.func, f.binds) or ""
            at = lambda i, *names: n.args[i] if len(n.args) > i and not isinstance(n.args[i], ast.Starred) else next((k.value for k in n.keywords if k.arg in names), None)
            if q in OPENERS or q == "builtins.open":
                mode = at(1, "mode", "flag")
                if q not in ALWAYS:
                    ms = self.const(f, mode) if mode is not None else {"r"}
                    if ms is not None and not any(set(str(x)) & WRITES for x in ms):
                        continue
                    yield f, n, q, at(0, "file", "filename", "name"), ms is not None
                else:
                    yield f, n, q, at(0, "file", "filename", "name", "database"), True
            elif q == "os.open":
                fl = ast.unparse(n.args[1]) if len(n.args) > 1 else ""
                if "O_WRONLY" in fl or "O_RDWR" in fl or "O_CREAT" in fl or "O_APPEND" in fl or "O_TRUNC" in fl:
                    yield f, n, q, at(0, "path"), True
            elif q.startswith("os.") and q[3:] in OS:
                yield f, n, q, at(1 if q[3:] in ("symlink", "link") else 0, "path", "src", "name"), True
                if q[3:] in ("rename", "replace", "renames"):
                    yield f, n, q, at(1, "dst"), True
            elif q.startswith("shutil.") and q[7:] in SHUTIL:
                yield f, n, q, at(1 if q[7:] in SECOND else 0, "dst", "path", "base_name", "src"), True
                if q == "shutil.move":
                    yield f, n, q, at(1, "dst"), True
            elif q in ("logging.basicConfig",):
                t = next((k.value for k in n.keywords if k.arg == "filename"), None)
                if t is not None:
                    yield f, n, q, t, True
            elif q in TEMP and q.split(".")[-1] not in ("TemporaryFile", "SpooledTemporaryFile"):
                t = next((k.value for k in n.keywords if k.arg == "dir"), None)
                if t is not None and not (isinstance(t, ast.Constant) and t.value is None):
                    yield f, n, q, t, True
            elif isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in PATH:
                    yield f, n, a, n.func.value, True
                    if a == "rename":
                        yield f, n, a, at(0, "target"), True
                elif a == "replace" and len(n.args) + len(n.keywords) == 1:
                    yield f, n, a, n.func.value, True
                    yield f, n, a, at(0, "target"), True
                elif a == "open":
                    if q.startswith("os.") or isinstance(f.m.names.get(q.split(".")[0], [None])[0], str) and f.m.names.get(q.split(".")[0], ("",))[0] == "mod" and q.count(".") == 1:
                        continue
                    mode = at(0, "mode")
                    ms = self.const(f, mode) if mode is not None else {"r"}
                    if ms is not None and not any(set(str(x)) & WRITES for x in ms):
                        continue
                    yield f, n, "open", n.func.value, ms is not None
                elif a == "dump_stats":
                    yield f, n, a, at(0, "filename"), True
