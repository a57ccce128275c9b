"""C20: collection problems and collect-only never lead to test execution."""
import ast
from .. import ctx, entry, pyx
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from . import c04, c07, c31
from .c16 import guard

PERFORM = "collection::nodes::Session::perform_collect"
MISSING = 4
FAILED = 1


def short(t):
    return show(t)[:80]


def emptiness(d, E):
    """What a path says of a list's emptiness: True, False or None."""
    for k, v in d.items():
        if k.t == "op":
            if k.a[0] == "is_empty" and E(k.a[1]):
                return v
            if k.a[0] in ("eq", "lt", "le") and len(k.a) == 3:
                z = [i for i, x in enumerate(k.a[1:]) if isc(x)]
                n = [x for x in k.a[1:] if x.t == "op" and x.a[0] == "len" and E(x.a[1])]
                if z and n:
                    c = cval(k.a[1 + z[0]])
                    # the number on the left: c < len, c <= len
                    if k.a[0] == "eq" and c == 0:
                        return v
                    if z[0] == 0 and (k.a[0], c) in (("lt", 0), ("le", 1)):
                        return not v
                    if z[0] == 1 and (k.a[0], c) in (("lt", 1), ("le", 0)):
                        return v
                    if v and (k.a[0] == "eq" and c > 0 or z[0] == 0 and k.a[0] in ("lt", "le") and c >= 1):
                        return False
        if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] in ("first", "last", "get") and E(k.a[0].a[1]) and v in ("Some", "None"):
            return v == "None"
    return None


def at_length(d, E, n):
    """Whether the conditions on a list hold when it has n elements (None: one of them is not read)."""
    known = True
    for k, v in d.items():
        if not contains(k, E):
            continue
        got = None
        if k.t == "op" and k.a[0] == "is_empty" and E(k.a[1]):
            got = n == 0
        elif k.t == "op" and k.a[0] in ("eq", "lt", "le") and len(k.a) == 3:
            xs = [cval(x) if isc(x) else n if x.t == "op" and x.a[0] == "len" and E(x.a[1]) else None for x in k.a[1:]]
            if all(isinstance(x, int) for x in xs):
                got = xs[0] == xs[1] if k.a[0] == "eq" else xs[0] < xs[1] if k.a[0] == "lt" else xs[0] <= xs[1]
        elif k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] in ("first", "last") and E(k.a[0].a[1]):
            got = "Some" if n else "None"
        if got is None:
            known = None
        elif got != v:
            return False
    return known


class Entry:
    def __init__(self, R, key, fn):
        self.R, self.key, self.fn = R, key, fn
        self.n = {"paths": 0, "runs": 0, "collects": 0, "codes": 0}

    def bad(self, what, msg):
        self.R.bad("%s:%s" % (self.key, what), ctx.where(self.fn), msg)

    def unk(self, what, msg):
        self.R.unk("%s:%s" % (self.key, what), msg)

    def collected(self, t):
        """The payload of collect_tests_rust."""
        return t.t == "op" and t.a[0] == "pl:Ok" and entry.is_call(t.a[1], entry.COLLECT)

    def errors(self, t):
        return t.t == "op" and t.a[0] == ".errors" and t.a[1].t == "op" and t.a[1].a[0] == ".1" and self.collected(t.a[1].a[1])

    def run(self):
        r, ps = entry.paths(self.R, self.fn)
        if r is None:
            raise Unk("cannot be read")
        for p in ps:
            for d in p.conds_list:
                self.n["paths"] += 1
                self.path(p, dict(d))
        R = self.R
        R.floor(self.key + ": paths", self.n["paths"], 4, ctx.where(self.fn))
        R.floor(self.key + ": paths that run tests", self.n["runs"], 1, ctx.where(self.fn))
        R.floor(self.key + ": paths that collect", self.n["collects"], 1, ctx.where(self.fn))
        return self.n

    def result(self, d, name):
        for k, v in d.items():
            if k.t == "discr" and entry.is_call(k.a[0], name) or k.t == "discr" and k.a[0].t == "op" and str(k.a[0].a[0]).startswith("call:") and k.a[0].a[0].split("::")[-1] == name:
                return v
            if k.t == "op" and k.a[0] in ("is_ok", "is_err") and k.a[1].t == "op" and str(k.a[1].a[0]).split("::")[-1] == name.split("::")[-1]:
                return "Ok" if v == (k.a[0] == "is_ok") else "Err"
        return None

    def mentions(self, d, f):
        return any(contains(k, f) for k in d)

    def path(self, p, d):
        names = [c[0] for c in p.calls]
        runs = [i for i, c in enumerate(p.calls) if c[0] in entry.RUNNERS or c[0] == "exec"]
        cols = [i for i, n in enumerate(names) if n == entry.COLLECT]
        main = self.fn == entry.MAIN
        got = self.result(d, entry.COLLECT)
        empty = emptiness(d, self.errors)
        for i in runs:
            self.n["runs"] += 1
            dd = dict(d)
            for c in p.calls[i][2]:
                dd.update(dict(c) if not isinstance(c, dict) else c)
            self.allowed(p, dd, i, cols, main)
        if cols:
            self.n["collects"] += 1
            if main:
                for what, name in (("mode", "validate_dist"), ("count", "get_num_processes")):
                    v = self.result(d, name)
                    at = next((i for i, n in enumerate(names) if n.split("::")[-1] == name), None)
                    if v == "Err":
                        self.bad(what, "tests are collected although %s failed" % name)
                    elif v is None:
                        if self.mentions(d, lambda y: y.t == "op" and str(y.a[0]).split("::")[-1] == name):
                            self.unk(what, "what is done with the result of %s is not understood" % name)
                        elif not d:
                            self.unk(what, "a path without conditions")
                        else:
                            self.bad(what, "tests are collected without %s having accepted the command line" % name)
                    elif at is not None and at > cols[0]:
                        self.bad(what, "%s is asked only after the collection" % name)
        self.codes(p, d, got, empty, main)

    def allowed(self, p, d, i, cols, main):
        who = p.calls[i][0].split("::")[-1]
        if not cols or cols[0] > i:
            # nothing collected at all, or only afterwards
            self.bad("uncollected", "%s runs before anything is collected" % who)
            return
        got, empty = self.result(d, entry.COLLECT), emptiness(d, self.errors)
        if got == "Err":
            self.bad("failed", "%s runs although collection failed" % who)
        elif got is None:
            self.unk("failed", "the result of the collection is not looked at in a way that was understood")
        if empty is False:
            self.bad("errors", "%s runs although there are collection errors" % who)
        elif empty is None and got == "Ok":
            n = next((n for n in (1, 2, 3, 7) if at_length(d, self.errors, n)), None)
            if n and self.mentions(d, lambda y: self.errors(y)):
                self.bad("errors", "%s runs with %d collection error%s" % (who, n, "s" if n > 1 else ""))
            elif all(at_length(d, self.errors, n) is False for n in (1, 2, 3, 7, 100)):
                pass
            elif self.mentions(d, lambda y: self.errors(y)):
                self.unk("errors", "what the path says of the collection errors is not understood")
            else:
                self.bad("errors", "%s runs without the collection errors having been looked at" % who)
        if main:
            only = next((v for k, v in d.items() if k.t == "op" and k.a[0] == ".collect_only"), None)
            if only is True:
                self.bad("only", "%s runs with --collect-only" % who)
            elif only is None:
                if self.mentions(d, lambda y: y.t == "op" and y.a[0] == ".collect_only"):
                    self.unk("only", "what the path says of --collect-only is not understood")
                else:
                    self.bad("only", "%s runs without --collect-only having been looked at" % who)

    def codes(self, p, d, got, empty, main):
        code = p.code
        num = cval(code) if isinstance(code, N) and isc(code) else None

        def want(ok, what, msg):
            self.n["codes"] += 1
            if num is None:
                self.unk(what, "the exit status is " + short(code) if isinstance(code, N) else "no exit status")
            elif not ok(num):
                self.bad(what, msg + " exits with status %s" % num)
        if main:
            for name, msg in (("validate_dist", "an unsupported distribution mode"), ("get_num_processes", "an unsupported number of processes")):
                if self.result(d, name) == "Err":
                    want(lambda n: n != 0, "code:" + name, msg)
                    return
        if got == "Err":
            kind = next((v for k, v in d.items() if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "pl:Err" and entry.is_call(k.a[0].a[1], entry.COLLECT)), None)
            if kind == "FileNotFound":
                want(lambda n: n == MISSING, "code:missing", "a path that does not exist")
            elif kind is None:
                want(lambda n: False, "code:kinds", "a collection failure of any kind (a path that does not exist and any other)")
            else:
                want(lambda n: n == FAILED, "code:failed", "a collection failure (%s)" % kind)
        elif got == "Ok" and empty is False:
            want(lambda n: n == FAILED, "code:errors", "a run with collection errors")


def looked(t):
    """A test of a file's existence, and the path."""
    if t.t == "op" and str(t.a[0]).split("::")[-1] in ("exists", "is_file", "is_dir") and len(t.a) == 2:
        return t.a[1]


def missing(R):
    """A path on the command line that does not exist is reported as not found."""
    r = ctx.run(R, PERFORM, opaque=ctx.named("collect_path", "read_pytest_config", "resolve_args"))
    if r is None:
        return
    e = r.e
    w = ctx.where(PERFORM)
    given = lambda y: y.t == "param" and y.a[0] == "arg1"
    loops = set()
    some = []
    for L, rec in e.loops.items():
        src, st = ctx.sources(rec)
        if src is None or not (contains(src, given) or any(isinstance(z, N) and contains(z, given) for z in st or ())):
            continue
        ps = [p for c in rec.conts for p in c.paths()]
        if ps and all(any(looked(k) is not None and v is True and str(k.a[0]).split("::")[-1] == "exists" for k, v in p.items()) for p in ps):
            loops.add(L)
        elif any(looked(k) is not None and str(k.a[0]).split("::")[-1] == "exists" and contains(k, lambda y: y.t == "elem" and y.a[1] == L) for p in ps + [q for x in rec.exits for q in [dict(x[1])]] for k in p):
            for p in ps:
                if not any(looked(k) is not None and v is True for k, v in p.items()):
                    some.append(L)
    if some and not loops:
        raise Bad("some", "collection goes on although a given path does not exist, or was not looked for")
    n = 0
    for s, v in r.outcomes():
        for p in s.paths():
            empty = emptiness(p, given)
            gone = any(looked(k) is not None and b is False and contains(k, lambda y: y.t == "elem") for k, b in p.items())
            if v.t == "agg" and v.a[1] == "Err" and gone:
                n += 1
                x = dict(v.a[2]).get("0")
                if x is not None and x.t == "agg" and x.a[1] != "FileNotFound":
                    raise Bad("kind", "a path that does not exist is reported as " + str(x.a[1]))
            if v.t == "agg" and v.a[1] == "Ok" and empty is not True:
                done = any(k.t == "exit" and k.a[0] in loops for k in p)
                if not done:
                    if any(contains(k, lambda y: y.t == "op" and str(y.a[0]).split("::")[-1] in ("exists", "try_exists", "metadata", "is_file", "is_dir")) for k in p) or r.e.unmodelled:
                        raise Unk("how the existence of the given paths is looked at is not understood")
                    raise Bad("unchecked", "collection of given paths succeeds without their existence having been looked at")
                n += 1
    if n < 2:
        raise Unk("no path that refuses a missing file was found")
    R.ok("missing", "every given path is known to exist when collection goes on")


def exported(R):
    """The statuses named in the Python package are the program's."""
    m = pyx.modules().get("rtest.exit_code")
    if m is None:
        raise Unk("there is no module of exit codes")
    want = {"OK": 0, "TESTS_FAILED": FAILED, "USAGE_ERROR": MISSING}
    n = 0
    for c in ast.walk(m.tree):
        if isinstance(c, ast.ClassDef):
            for s in c.body:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and t.id in want and s.value is not None:
                    v = s.value
                    if isinstance(v, ast.Call) and len(v.args) == 1:
                        v = v.args[0]
                    if isinstance(v, ast.Name):
                        b = m.names.get(v.id)
                        v = b[1] if b and b[0] == "expr" else v
                    if not isinstance(v, ast.Constant):
                        raise Unk("%s is not a constant" % t.id)
                    n += 1
                    if v.value != want[t.id]:
                        raise Bad("value", "ExitCodeValues.%s is %r, the program exits with %d" % (t.id, v.value, want[t.id]))
    if n < 3:
        raise Unk("the exit codes of the Python package are not understood")
    R.ok("exported", "%d names" % n)


def check(R):
    R.rule("On every path of the two entries, a call that starts test processes follows a collection known to have succeeded, a list of errors known to be empty and (for the command line) a collect_only "
           "known to be false; the collection follows an accepted mode and process count; every path of a refused command line, a missing path or an error ends with the status documented. "
           "The refusals themselves are the decision tables of validate_dist, get_num_processes and perform_collect.")
    R.assume("pyo3 passes the arguments as they are; std::process::exit ends the program")
    for key, fn in (("main", entry.MAIN), ("api", entry.API)):
        e = Entry(R, key, fn)
        if guard(R, key, fn, e.run):
            R.ok(key, "%(paths)d paths: %(runs)d with a start of test processes, %(codes)d with a fixed status" % e.n)
    guard(R, "missing", ctx.where(PERFORM), missing, R)
    guard(R, "exported", "python/rtest/exit_code.py", exported, R)
    guard(R, "count", ctx.where(c07.PARSE), c07.parsing, R)
    got = []
    guard(R, "modes", ctx.where(c31.FROM_STR), lambda: got.append(c31.tables(R)))
    if got and got[0]:
        guard(R, "modes", ctx.where(c31.VALIDATE), c31.validate, R, got[0])
