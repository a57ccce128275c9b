"""C11: the native runner (Rust) and the worker (Python) agree on options, records and exit status."""
import ast
import re

from .. import ctx, pyc, pyx
from ..pyc import events, brief, Unk
from ..terms import *
from . import c09, c12
from .c16 import guard
from ..lists import resolved

FN = "native_runner::execute_native"
MAIN = "rtest.worker.__main__:main"
# what the parameters of run_tests mean
ROLE = {"root": "root", "output_file": "out", "test_files": "files", "python_classes": "python_classes", "python_functions": "python_functions"}
WORD = {"root": "the root directory", "out": "the result file", "files": "the test files", "python_classes": "the class patterns", "python_functions": "the function patterns"}


def check(R):
    R.rule("Both sides are read from source: the command lines execute_native can start (every path) against the options the worker's parser declares and the "
           "arguments run_tests gets from them; the derived deserializer of TestResult (names, required fields, types) against every record the worker can "
           "write; the outcomes written against those the runner compares with; the exit status run_tests returns against those run_worker accepts.")
    R.assume("argparse, json and serde behave as documented; option values do not start with '-'")
    r = ctx.run(R, FN)
    m = pyc.analyse(R, MAIN, cut=pyc.CUT | {"run_tests"})
    if r is not None and m is not None:
        guard(R, "options", MAIN, options, R, r, m)
    guard(R, "entry", MAIN, entry, R)
    t = pyc.analyse(R, c12.FN)
    if t is not None:
        guard(R, "records", c12.FN, records, R, t)
    if r is not None and t is not None:
        guard(R, "exit", FN, exits, R, r, t, m)


# ---- A: options ----
class Opt:
    def __init__(self, names, kw):
        self.names, self.kw = names, kw
        self.pos = not names[0].startswith("-")
        self.action = self.const("action", "store")
        self.nargs = self.const("nargs", None)
        self.required = self.const("required", False)
        d = self.const("dest", None)
        if d is None:
            if self.pos:
                d = names[0]
            else:
                long = [n for n in names if n.startswith("--")] or names
                d = long[0].lstrip("-").replace("-", "_")
        self.dest = d

    def const(self, k, default):
        v = self.kw.get(k)
        if v is None:
            return default
        if not isc(v):
            raise Unk("the %s of option %s is not a constant" % (k, self.names[0]))
        return cval(v)

    @property
    def flag(self):
        return self.action in ("store_true", "store_false", "store_const", "append_const", "count", "help", "version")

    def arity(self):
        """(least, most) values of one use; most None is unbounded."""
        if self.flag:
            return 0, 0
        n = self.nargs
        if n is None:
            return 1, 1
        if n == "?":
            return 0, 1
        if n == "*":
            return 0, None
        if n == "+":
            return 1, None
        if isinstance(n, int):
            return n, n
        raise Unk("nargs=%r" % (n,))


def parser_opts(R, x):
    """The options declared on a path of main, and the parser's own settings."""
    opts, own, nparser = [], {}, 0
    for ev, nest in events_of(x.ev):
        if ev.a[0] == "lib" and ev.a[1] == "argparse.ArgumentParser":
            own = dict(ev.a[3])
            nparser += 1
        if ev.a[0] == "m" and ev.a[1] == "add_argument":
            if nest:
                raise Unk("options are declared in a loop")
            if not all(isc(y) for y in ev.a[3]):
                raise Unk("an option's name is not a constant")
            opts.append(Opt([cval(y) for y in ev.a[3]], dict(ev.a[4])))
    if not opts or nparser != 1:
        raise Unk("the worker does not declare its options on one argparse parser")
    return opts, own


def events_of(evs, nest=()):
    for ev in evs:
        if ev.a[0] == "loop":
            # the options are not declared in loops of the unchanged worker
            yield ev, nest + (ev.a[1],)
        else:
            yield ev, nest


class Item:
    """One piece of a command line: a constant word, a single value, or all elements of a collection."""

    def __init__(self, kind, v, nonempty=False, parts=None, sts=(), el=None, some=False):
        self.kind, self.v, self.nonempty, self.parts, self.sts, self.el, self.some = kind, v, nonempty, parts, sts, el, some


def items(e, cmd, conds):
    out = []
    for o in cmd.a[1:]:
        k = o.a[0]
        if k == "arg":
            out += word(o.a[1])
        elif k == "args":
            raise Unk("arguments given by " + show(o)[:80])
        elif k == "loop":
            L, pk = o.a[1], o.a[2]
            rec = e.loops[L]
            src, stages = ctx.sources(rec)
            seqs = []
            for c in rec.conts:
                ops = rec.ops.get(pk)
                u = c.upd.get(pk)
                if u is None or u.t == "lv":
                    seqs.append([])
                elif u.t == "mut":
                    bad = [y for y in u.a[1:] if y.a[0] != "arg"]
                    if bad:
                        if all(y.a[0] in ("env", "env_remove") for y in bad) and len(bad) == len(u.a) - 1:
                            seqs.append(None)
                            continue
                        raise Unk("a loop adds %s to the command" % show(bad[0])[:60])
                    seqs.append([w for y in u.a[1:] for w in word(y.a[1])])
                else:
                    raise Unk("a loop changes the command in a way not read")
            if all(s is None for s in seqs):
                continue
            if src is None:
                raise Unk("a loop over the command's arguments has no source")
            ne = nonempty(e, conds, src)
            words = [s for s in seqs if s]
            if any(s is None for s in seqs) or not words:
                raise Unk("a loop adds arguments only sometimes")
            if all(len(s) == 1 and s[0].kind == "v" for s in words) and len({s[0].v for s in words}) == 1:
                out.append(Item("many", src, ne and len(words) == len(seqs), None, stages, words[0][0].v, len(words) != len(seqs)))
            else:
                for s in words:
                    out.append(Item("rep", src, ne and len(words) == len(seqs), s, stages, None, len(words) != len(seqs)))
    return out


def word(t):
    if isc(t):
        return [Item("c", str(cval(t)))]
    if t.t == "cat" and isc(t.a[0]) and str(cval(t.a[0])).startswith("--") and "=" in str(cval(t.a[0])):
        head = str(cval(t.a[0]))
        name, rest = head.split("=", 1)
        if rest or len(t.a) != 2:
            raise Unk("an argument pieced together: " + show(t)[:80])
        return [Item("c=", name), Item("v", t.a[1])]
    return [Item("v", t)]


def nonempty(e, conds, src):
    base = src.a[0] if src.t == "seq" else src
    for k, v in conds.items():
        if v is False and k.t == "op" and k.a[0] == "is_empty" and k.a[1] in (base, src):
            return True
        if k.t == "op" and k.a[0] in ("eq", "lt") and k.a[1].t == "op" and k.a[1].a[0] == "len" and k.a[1].a[1] in (base, src) and v is False and isc(k.a[2]) and cval(k.a[2]) == (0 if k.a[0] == "eq" else 1):
            return True
        if k.t == "op" and k.a[0] == "lt" and isc(k.a[1]) and cval(k.a[1]) == 0 and v is True and k.a[2].t == "op" and k.a[2].a[0] == "len" and k.a[2].a[1] in (base, src):
            return True
    return False


def commands(e, r):
    """(conditions, command) of every process started, in threads or not."""
    out = []

    def go(conds, evs, d=0):
        for ev in evs:
            if ev.a[0] == "exec":
                out.append((conds, ev.a[2]))
            elif ev.a[0] == "spawn":
                for c2, evs2, ret in e.thread_paths(ev.a[1]):
                    go({**conds, **c2}, evs2, d + 1)
            elif ev.a[0] == "loop" and d < 8:
                for c in e.loops[ev.a[1]].conts:
                    for p in c.paths()[:64]:
                        go({**conds, **p}, c.ev, d + 1)
    for s, v in r.outcomes():
        go(dict(s.conds), s.ev)
    seen, res = set(), []
    for conds, cmd in out:
        key = (cmd, tuple(sorted((k.id, str(v)) for k, v in conds.items() if k.t == "op" and k.a[0] in ("is_empty", "eq", "lt"))))
        if key not in seen:
            seen.add(key)
            res.append((conds, cmd))
    return res


class Meaning:
    def __init__(self, e, conds=None):
        self.e = e
        self.conds = conds or {}
        self.memo = {}

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = set()
            r = self.memo[t] = frozenset(self.go(t))
        return r

    def zipped(self, t):
        """The collection a component of a zipped, numbered element comes from."""
        path = []
        while t.t == "op" and t.a[0] in (".0", ".1"):
            path.append(t.a[0])
            t = t.a[1]
        path.reverse()
        if t.t not in ("nextof", "elem") or not path:
            return None
        if t.t == "nextof":
            it = t.a[0]
            if it.t != "iter":
                return None
            src, stages = it.a[0], it.a[1]
        else:
            return None
        return self.stages(src, list(stages), path)

    def stages(self, src, stages, path):
        """A term for the part `path` of an element of src after the stages."""
        while stages:
            s = stages.pop()
            if s.t == "enumerate":
                if not path or path.pop(0) == ".0":
                    return "index"
            elif s.t == "zip":
                if not path:
                    return None
                if path.pop(0) == ".1":
                    it = s.a[0]
                    return self.stages(it.a[0], list(it.a[1]), path) if it.t == "iter" else None
            elif s.t in ("copied", "cloned", "rev", "filter", "take", "skip", "by_ref", "peekable"):
                continue
            else:
                return None
        return src if not path else None

    def go(self, t):
        if not isinstance(t, N):
            return set().union(*[self.of(x) for x in t]) if isinstance(t, tuple) and t else set()
        if t.t == "op":
            f = t.a[0]
            if f in (".root_path",):
                return {"root"}
            if f in (".python_classes", ".python_functions"):
                return {f[1:]}
            if f in (".python_files", ".python_executable"):
                return {f[1:]}
            if f == ".num_workers":
                return set()
            if f in ("len", "is_empty", "count"):
                return set()
            if f in (".0", ".1"):
                z = self.zipped(t)
                if z == "index":
                    return {"index"}
                if z is not None:
                    return self.of(z)
                vs = resolved(self.e, t)
                if vs:
                    return set().union(*[self.of(v) for v in vs])
        if t.t in ("idx", "idxf"):
            return {"index"}
        if t.t == "tempdir" or t.t == "op" and t.a[0] == "tempdir":
            return {"out"}
        if t is mk("param", "arg1"):
            return {"files"}
        if t.t == "o" and t.a[0] == "loop" or t.t in ("fold", "lv"):
            L, pk = (t.a[1], t.a[2]) if t.t == "o" else t.a[:2]
            rec = self.e.loops.get(L) if isinstance(self.e.loops, dict) else self.e.loops[L]
            out = set()
            if t.t != "o" and rec.init.get(pk) is not None:
                out |= self.of(rec.init[pk])
            us = rec.ops.get(pk)
            if us is not None:
                for u in us:
                    for o in u:
                        out |= self.of(o)
            else:
                for c in rec.conts:
                    if c.upd.get(pk) is not None:
                        out |= self.of(c.upd[pk])
            return out
        out = set()
        for y in t.a:
            if isinstance(y, (N, tuple)):
                out |= self.of(y) if isinstance(y, N) else self.go(y)
        return out

    def item(self, it):
        ms = set(self.of(it.v))
        if "out" in ms and ms - {"out"} == {"index"}:
            ms = {"out"}
        return ms


def options(R, r, m):
    e = r.e
    main = [(s, x) for s, x in m.rets if s[0] == "ret"] or [(s, x) for s, x in m.rets]
    if not main:
        raise Unk("main has no path")
    cmds = commands(e, r)
    R.floor("worker command lines", len(cmds), 1, FN)
    R.count("command line paths", len(cmds))
    M = Meaning(e)
    sides = []
    for s, x in main:
        opts, own = parser_opts(R, x)
        pc = own.get("prefix_chars")
        if pc is not None and not (isc(pc) and "-" in str(cval(pc))):
            R.bad("options:prefix", MAIN, "the worker's parser does not treat '-' as the start of an option")
        sides.append((opts, own, receives(R, m, s, x, opts)))
    for conds, cmd in cmds:
        its = program(R, items(e, cmd, conds))
        if its is None:
            continue
        for opts, own, recv in sides:
            given = parse(R, its, opts, own, conds)
            meanings(R, M, given, opts, recv)
    if not any(k.startswith("options") for k in list(R.bads) + [u for u, _ in R.unks]):
        R.ok("options", "%d command line paths against %d declared options" % (len(cmds), len(sides[0][0])))


def program(R, its):
    """The arguments after `-m rtest.worker`."""
    i = 0
    while i < len(its) and its[i].kind == "c" and its[i].v in ("-u", "-B", "-q", "-O", "-OO", "-b", "-v"):
        i += 1
    if i + 1 < len(its) and its[i].kind == "c" and its[i].v == "-m" and its[i + 1].kind == "c":
        name = its[i + 1].v
        mods = pyx.modules()
        if name + ".__main__" not in mods and name not in mods:
            R.bad("options:module", FN, "the workers are started as python module %r, which does not exist" % name)
            return None
        if name != "rtest.worker" and name != "rtest.worker.__main__":
            R.unk("options:module", "the workers are started as module " + name)
            return None
        return its[i + 2:]
    if any(it.kind == "c" and it.v == "rtest.worker" for it in its):
        R.bad("options:module", FN, "python is not asked to run the module rtest.worker (-m rtest.worker)")
    else:
        R.unk("options:module", "how the worker is started is not read: " + " ".join(str(it.v)[:20] for it in its[:4]))
    return None


def find(R, opts, own, name):
    for o in opts:
        if name in o.names:
            return o
    ab = own.get("allow_abbrev")
    if name.startswith("--") and not (ab is not None and isc(ab) and cval(ab) is False):
        c = [o for o in opts if any(n.startswith(name) for n in o.names)]
        if len(c) == 1:
            return c[0]
    return None


def parse(R, its, opts, own, conds):
    """What argparse does with the command line: [(option, value items, in a loop)]."""
    given, free = [], []
    i = 0
    when = brief({k: v for k, v in conds.items() if k.t == "op" and k.a[0] == "is_empty"})
    flat = []
    for it in its:
        if it.kind == "rep":
            flat += [(p, it) for p in it.parts]
        else:
            flat.append((it, None))
    dash = False
    after_var = None
    while i < len(flat):
        it, rep = flat[i]
        if not dash and it.kind == "c" and it.v == "--":
            dash = True
            i += 1
            continue
        if dash and it.kind in ("c", "c=") and it.v.startswith("-") and find(R, opts, own, it.v.split("=")[0]) is not None:
            R.bad("options:after-dashes:" + it.v, FN, "the runner passes %s after '--', where the worker takes it for a test file" % it.v)
        if not dash and it.kind in ("c", "c=") and it.v.startswith("-") and it.v != "-":
            name = it.v
            inline = None
            if it.kind == "c" and name.startswith("--") and "=" in name:
                name, val = name.split("=", 1)
                inline = [Item("c", val)]
            o = find(R, opts, own, name)
            if o is None:
                R.bad("options:unknown:" + name, FN, "the runner passes %s, which the worker's parser does not declare (%s)" % (name, ", ".join(o.names[0] for o in opts)))
                i += 1
                while i < len(flat) and not (flat[i][0].kind in ("c", "c=") and flat[i][0].v.startswith("-")):
                    i += 1
                continue
            lo, hi = o.arity()
            i += 1
            vals = []
            if it.kind == "c=":
                vals = [flat[i][0]]
                i += 1
                if o.flag:
                    R.bad("options:arity:" + name, FN, "the runner passes a value to %s, which takes none" % name)
                if lo > 1:
                    R.bad("options:arity:" + name, FN, "the runner passes one value to %s, which takes %s" % (name, o.nargs))
                given.append((o, vals, rep))
                continue
            if inline is not None:
                given.append((o, inline, rep))
                continue
            while i < len(flat) and (hi is None or len(vals) < hi):
                y = flat[i][0]
                if y.kind in ("c", "c=") and (y.v.startswith("-") and y.v != "-"):
                    break
                if y.kind == "many" and hi is not None:
                    if len(vals) < hi:
                        R.bad("options:arity:" + name, FN, "the runner passes every element of a list after %s, of which the worker's parser takes only %d (%s)" % (name, hi, when))
                        vals.append(y)
                        i += 1
                    break
                vals.append(y)
                i += 1
            n = sum(1 for y in vals if y.kind != "many" or y.nonempty)
            if n < lo:
                R.bad("options:arity:" + name, FN, "%s can be passed with no value, which the worker's parser refuses (%s)" % (name, when or "always"))
            given.append((o, vals, rep))
            if hi is None:
                after_var = o
            continue
        free.append((it, rep, dash))
        i += 1
    # an option given several times
    for o in {id(g): g for g, _, _ in given}.values():
        uses = [(v, rep) for g, v, rep in given if g is o]
        many = len(uses) > 1 or any(rep is not None for _, rep in uses)
        if many and o.action == "store":
            R.bad("options:repeated:" + o.names[0], FN, "the runner passes %s several times; the worker's parser keeps only the last" % o.names[0])
        if o.action == "append" and o.nargs is not None and o.nargs != "?":
            R.bad("options:nested:" + o.names[0], MAIN, "%s collects a list of lists (action append with nargs)" % o.names[0])
    pos = [o for o in opts if o.pos]
    if len(pos) == 1:
        o = pos[0]
        lo, hi = o.arity()
        if free:
            vs = [it for it, _, _ in free]
            if hi is not None and (len(vs) > hi or any(v.kind == "many" for v in vs)):
                R.bad("options:arity:" + o.names[0], FN, "the runner passes a list of %s, of which the worker's parser takes %d" % (o.names[0], hi))
            given.append((o, vs, None))
        elif lo > 0:
            swallowed = after_var is not None
            R.bad("options:missing:" + o.names[0], FN, "no value is left for the worker's %s%s (%s)" % (o.names[0], ": option %s takes all values that follow" % after_var.names[0] if swallowed else "", when or "always"))
    elif len(pos) > 1:
        R.unk("options:positional", "the worker declares %d positional arguments" % len(pos))
    elif free:
        R.bad("options:positional", FN, "the runner passes values that belong to no option of the worker")
    for o in opts:
        if not o.pos and o.required and not any(g is o for g, _, _ in given):
            R.bad("options:missing:" + o.names[0], FN, "the worker requires %s, which the runner does not pass (%s)" % (o.names[0], when or "always"))
    return given


def receives(R, m, s, x, opts):
    """parameter of run_tests -> (dest, wrapped in Path)."""
    e = m.e
    out = {}
    calls = [ev for ev, nest in events(e, x.ev) if ev.a[0] == "call" and ev.a[1] == "run_tests"]
    if len(calls) != 1:
        if not calls:
            if s[0] != "ret":
                return out
            R.bad("options:run", MAIN, "a path of main returns without running the tests (%s)" % brief(x.conds))
            return out
        raise Unk("run_tests is called more than once")
    fn = pyx.modules()["rtest.worker.runner"].names["run_tests"][1]
    names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    known = names + [a.arg for a in fn.args.kwonlyargs]
    i = 0
    for y in calls[0].a[2]:
        if y.t == "kw":
            k, v = y.a[0], y.a[1]
            if k not in known and fn.args.kwarg is None:
                R.bad("options:run", MAIN, "run_tests has no parameter %s" % k)
        else:
            k, v = (names[i] if i < len(names) else "?"), y
            i += 1
        out[k] = v
    for k in names[:len(names) - len(fn.args.defaults)] + [a.arg for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults) if d is None]:
        if k not in out:
            R.bad("options:run", MAIN, "run_tests is called without its parameter %s" % k)
    res = {}
    for k, v in out.items():
        if k not in ROLE:
            R.unk("options:param", "parameter %s of run_tests" % k)
            continue
        ds = dests(e, v)
        res[k] = (ds, v)
    return res


def dests(e, v, seen=None):
    """The parsed options a value comes from (through loops, too)."""
    seen = set() if seen is None else seen
    ds = set()
    for y in walk(v):
        if y.t == "op" and y.a[0].startswith(".") and contains(y.a[1], lambda z: z.t == "op" and z.a[0] in ("m:parse_args", "m:parse_known_args")) and not contains(y.a[1], lambda z: z.t == "op" and z.a[0].startswith(".")):
            ds.add(y.a[0][1:])
        if y.t == "o" and y.a[0] == "loop" or y.t in ("fold", "lv"):
            L, pk = (y.a[1], y.a[2]) if y.t == "o" else y.a[:2]
            if (L, pk) in seen:
                continue
            seen.add((L, pk))
            for c in e.loops[L].conts:
                if c.upd.get(pk) is not None:
                    ds |= dests(e, c.upd[pk], seen)
    return ds


def is_path(t):
    return t is not None and t.t == "g" and t.a[0].split(".")[-1] in ("Path", "PosixPath")


PARTS = ("filter", "skip", "take", "step_by", "take_while", "skip_while", "map_while")
CHANGES = ("trim", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "strip_prefix", "strip_suffix", "trim_start", "trim_end", "trim_matches")


def whole(R, role, stages, el):
    """Every element of the list is passed, as it is."""
    for s in stages:
        if s.t in PARTS and role != "files":
            R.bad("options:list:" + role, FN, "the runner leaves out some of %s (%s)" % (WORD[role], s.t))
    for y in walk(el):
        if y.t == "op" and y.a[0].split("::")[-1] in CHANGES and role != "files":
            R.bad("options:list:" + role, FN, "the runner changes %s before it passes them on: %s" % (WORD[role], show(el)[:100]))


def meanings(R, M, given, opts, recv):
    byd = {}
    for o in opts:
        byd.setdefault(o.dest, o)
    passed = {}
    for o, vals, rep in given:
        ms = set()
        for v in vals:
            m1 = M.item(v) if v.kind != "c" else {"=" + v.v}
            ms |= m1
            role = next((y for y in ("python_classes", "python_functions", "files") if y in m1), None)
            if role and v.kind == "v" and rep is None:
                R.bad("options:list:" + role, FN, "the runner passes %s as one word: %s" % (WORD[role], show(v.v)[:100]))
            elif role and v.kind == "v" and rep is not None:
                whole(R, role, rep.sts, v.v)
            elif role and v.kind == "many":
                whole(R, role, v.sts, v.el)
                if v.some and role != "files":
                    R.bad("options:list:" + role, FN, "the runner leaves out some of " + WORD[role])
        passed.setdefault(o.dest, set()).update(ms)
    for k, (ds, v) in recv.items():
        role = ROLE[k]
        if not ds:
            if isc(v):
                R.bad("options:meaning:" + k, MAIN, "run_tests gets the constant %s for %s" % (show(v), k))
            elif not contains(v, lambda z: z.t == "op" and z.a[0] in ("m:parse_args", "m:parse_known_args")):
                if any(role in ms for ms in passed.values()):
                    R.bad("options:meaning:" + k, MAIN, "run_tests does not get %s from the command line: %s" % (WORD[role], show(v)[:80]))
            else:
                R.unk("options:meaning:" + k, "run_tests gets " + show(v)[:100])
            continue
        for d in ds:
            o = byd.get(d)
            if o is None:
                R.bad("options:dest:" + d, MAIN, "main reads the option %s, which its parser does not define" % d)
                continue
            if d in passed:
                ms = passed[d] - {"index"}
                if not ms:
                    R.unk("options:meaning:" + k, "what the runner passes as %s is not read" % o.names[0])
                elif role not in ms and len(ds) == 1:
                    R.bad("options:meaning:" + k, FN, "run_tests gets as %s (%s) what the runner passes as %s: %s" % (k, WORD[role], o.names[0], ", ".join(WORD.get(y, y) for y in sorted(ms))))
                elif ms - {role} and role != "out" and not (role == "files" and ms == {"files", "root"}):
                    R.unk("options:meaning:" + k, "%s carries %s" % (o.names[0], sorted(ms)))
            ty = o.kw.get("type")
            if role in ("root", "out", "files"):
                conv = contains(v, lambda z: z.t == "op" and z.a[0] in ("call:pathlib.Path", "call:Path")) or contains(v, lambda z: z.t == "g" and is_path(z)) or v.t in ("mut", "fold") or contains(v, lambda z: z.t in ("mut", "coll"))
                if ty is None and not conv:
                    R.bad("options:type:" + k, MAIN, "%s is a text, but run_tests uses it as a path" % o.names[0])
                elif ty is not None and not is_path(ty) and not (ty.t == "g" and ty.a[0] in ("str", "os.fspath") and conv):
                    R.unk("options:type:" + k, "the type of %s is %s" % (o.names[0], show(ty)[:40]))
            elif ty is not None and not (ty.t == "g" and ty.a[0] in ("str",)):
                if ty.t == "g" and ty.a[0] in ("int", "float", "bool") or is_path(ty):
                    R.bad("options:type:" + k, MAIN, "the patterns of %s are converted to %s" % (o.names[0], show(ty)))
                else:
                    R.unk("options:type:" + k, "the type of %s is %s" % (o.names[0], show(ty)[:40]))
            if "choices" in o.kw:
                R.bad("options:choices:" + k, MAIN, "%s refuses values outside a fixed set" % o.names[0])
            lo, hi = o.arity()
            if role in ("files", "python_classes", "python_functions") and hi is not None and o.action not in ("append", "extend") and d in passed:
                R.bad("options:arity:" + o.names[0], MAIN, "%s takes one value, but run_tests needs a list" % o.names[0])
            if role in ("root", "out") and o.nargs is not None and o.nargs != "?" and not contains(v, lambda z: z.t == "op" and z.a[0] in ("index", "item")):
                R.bad("options:arity:" + o.names[0], MAIN, "%s gives a list, but run_tests needs one path" % o.names[0])
    # whatever the runner passes must be used
    used = {d for ds, _ in recv.values() for d in ds}
    for d, ms in passed.items():
        if d not in used and ms & set(WORD) and recv:
            R.bad("options:unused:" + d, MAIN, "the worker ignores %s, with which the runner passes %s" % (byd[d].names[0], ", ".join(WORD.get(y, y) for y in sorted(ms))))


# ---- the entry point ----
def entry(R):
    mods = pyx.modules()
    m = mods.get("rtest.worker.__main__")
    if m is None:
        R.bad("entry", MAIN, "there is no module rtest.worker.__main__")
        return
    tree = m.tree if hasattr(m, "tree") else ast.parse(m.src)
    body = []
    for st in tree.body:
        if isinstance(st, ast.If) and isinstance(st.test, ast.Compare):
            names = [n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)]
            if "__name__" in names and any(isinstance(n, ast.Constant) and n.value == "__main__" for n in ast.walk(st.test)):
                if len(st.test.ops) == 1 and isinstance(st.test.ops[0], ast.Eq):
                    body += st.body
                    continue
        body.append(st)

    def ismain(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "main"
    called = exits_ = False
    var = set()
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        for n in ast.walk(st):
            if ismain(n):
                called = True
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and ismain(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        var.add(t.id)
            if isinstance(n, ast.Call):
                f = ast.unparse(n.func)
                if f in ("sys.exit", "exit", "quit", "SystemExit", "os._exit", "_exit") and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "int" and a.args:
                        a = a.args[0]
                    if ismain(a) or isinstance(a, ast.Name) and a.id in var:
                        exits_ = True
    if not called:
        known = [st for st in body if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
        if any(isinstance(n, ast.Call) for st in known for n in ast.walk(st)):
            R.unk("entry", "running the module does not call main directly")
        else:
            R.bad("entry", MAIN, "running the module rtest.worker does not call main")
    elif not exits_:
        R.bad("entry", MAIN, "the worker's exit status is not the value main returns")
    else:
        R.ok("entry", "sys.exit(main())")


# ---- B: records ----
class Derived:
    """Names, required names and types of the fields a derived deserializer reads."""

    def __init__(self, R, ty):
        F = ctx.F()
        self.ok = False
        short = ty.split("::")[-1]
        vs = vm = None
        for f in F["fns"]:
            if "for %s>::deserialize::__" % ty in f:
                if f.endswith("::visit_str") and "__FieldVisitor" in f:
                    vs = F["fns"][f]
                elif f.endswith("::visit_map"):
                    vm = F["fns"][f]
        if vs is None or vm is None or ty not in F["types"]:
            raise Unk("%s has no derived deserializer" % short)
        fields = [f for f in F["types"][ty]["variants"][0]["fields"] if not any(re.search(r"\bskip(_deserializing)?\b(?!_)", a) for a in f["attrs"])]
        self.special = {f["name"] for f in fields if any(re.search(r"with|flatten|from|borrow", a) for a in f["attrs"])}
        self.names = {}
        self.deny = False
        self.blocks(vs, fields)
        self.required = set()
        for b in vm["blocks"]:
            t = b.get("t") or {}
            f = t.get("f") or {}
            if t.get("k") == "call" and str(f.get("path", "")).endswith("missing_field"):
                T = f["targs"][0]
                if not T.startswith("std::option::Option<"):
                    self.required.add(t["args"][0]["v"])
        self.F = fields

    def blocks(self, vs, fields):
        bl = vs["blocks"]

        def follow(i, d=0):
            """The __Field variant a block assigns."""
            b = bl[i]
            for s in b["s"]:
                if s[0] == "=" and isinstance(s[2], dict) and s[2].get("k") == "agg" and "__Field" in str(s[2].get("adt")):
                    return s[2]["variant"]
            t = b["t"]
            if t.get("k") == "goto" and d < 4:
                return follow(t["t"], d + 1)
            return None
        for b in bl:
            t = b["t"]
            p = str((t.get("f") or {}).get("path", "")) if t.get("k") == "call" else ""
            if p.endswith("unknown_field"):
                self.deny = True
            if p.endswith("PartialEq::eq") and t["args"][1].get("k") == "const":
                name = t["args"][1]["v"]
                sw = bl[t["t"]]["t"]
                tgt = None
                if sw.get("k") == "switch":
                    no = [c for v, c in sw["ts"] if v == 0]
                    yes = [c for v, c in sw["ts"] if v != 0] or ([sw["else"]] if no else [])
                    for c in yes:
                        v = follow(c)
                        if v and re.match(r"__field\d+$", v):
                            tgt = int(v[7:])
                if tgt is None or tgt >= len(fields):
                    raise Unk("the names of the derived deserializer are not read")
                self.names[name] = fields[tgt]


STR = {"call:str", "call:repr", "call:traceback.format_exc", "m:getvalue", "m:strip", "m:rstrip", "m:lstrip", "m:join", "m:replace", "m:decode", "m:format", "m:lower", "m:upper",
       ".__name__", ".__qualname__", "call:format", "m:read", "m:as_posix", "m:removeprefix", "m:removesuffix", "str", "repr", "fmt", "call:ascii"}
FLOAT = {"call:time.perf_counter", "call:time.time", "call:time.monotonic", "call:float", "float", "m:total_seconds", "call:time.process_time"}


def kind(t):
    """The JSON type of a Python value: str, int, float, null, bool, list, dict, object or None (not known)."""
    if isc(t):
        v = cval(t)
        if v is None:
            return "null"
        return {"str": "str", "int": "int", "float": "float", "bool": "bool", "bytes": "object"}.get(type(v).__name__)
    if t is NONE_():
        return "null"
    if t.t == "cat":
        return "str"
    if t.t in ("tup",):
        return "list"
    if t.t in ("exc", "pyfn", "pycls", "pyclo", "obj", "bound"):
        return "object"
    if t.t == "agg":
        return "object"
    if t.t == "mut":
        if t.a[0] is pyx.DICTNEW:
            return "dict"
        if t.a[0] is pyx.VECNEW:
            return "list"
        return None
    if t is pyx.DICTNEW:
        return "dict"
    if t is pyx.VECNEW:
        return "list"
    if t.t == "op":
        f = t.a[0]
        if f in STR:
            return "str"
        if f in FLOAT:
            return "float"
        if f in ("len", "call:len", "call:int", "int", "call:hash", "call:id"):
            return "int"
        if f in ("call:round", "round"):
            args = [y for y in t.a[1:] if isinstance(y, N) and y.t != "kw"]
            return "int" if len(args) == 1 else kind(args[0])
        if f in ("sub", "add", "mul", "div", "truediv", "max", "min", "call:max", "call:min", "call:abs", "neg"):
            ks = {kind(y) for y in t.a[1:] if isinstance(y, N)}
            if "float" in ks or f in ("div", "truediv"):
                return "float"
            if ks == {"int"}:
                return "int"
            if ks == {"str"}:
                return "str"
            return None
        if f == "floordiv":
            ks = {kind(y) for y in t.a[1:]}
            return "float" if "float" in ks else None
        if f in ("type", "call:type", ".__traceback__", ".__class__", "call:sys.exc_info"):
            return "object"
        if f in ("call:traceback.format_exception", "call:traceback.format_tb", "call:traceback.format_list", "m:splitlines", "m:split", "call:list", "call:sorted"):
            return "list"
        if f in pyx.BOOL or f in pyx.BOOLCALL or f == "call:bool":
            return "bool"
    return None


def NONE_():
    return pyx.NONE


def fits(ty, k):
    """Whether a JSON value of kind k is one serde reads as ty (None: not known)."""
    m = re.match(r"^std::option::Option<(.*)>$", ty)
    if m:
        return True if k == "null" else fits(m.group(1), k)
    if k is None:
        return None
    if k == "object":
        return False
    if ty in ("std::string::String", "&str", "std::borrow::Cow<'_, str>"):
        return k == "str"
    if ty in ("f64", "f32"):
        return k in ("float", "int")
    if re.match(r"^[iu](8|16|32|64|128|size)$", ty):
        return True if k == "int" else False
    if ty == "bool":
        return k == "bool"
    if ty.startswith("std::vec::Vec<"):
        return k == "list"
    if ty.startswith("serde_json::"):
        return True
    if ty in ctx.F()["types"]:
        return k == "dict"
    return None


class Recs(c12.Check):
    """The records written on each path of run_tests, with the changes made before they are written."""

    def gather(self):
        out = []
        for status, x in self.r.rets:
            if status[0] != "ret":
                continue
            self.src = pyc.Sources(self.e)
            self.items = []
            for ev, text, nest in self.writes(x):
                for t, n in self.texts(ev, text, nest):
                    d = next((y for y in walk(t) if y.t == "op" and y.a[0] in ("call:json.dumps", "m:encode_json")), None)
                    if d is None:
                        continue
                    out.append((x, ev, text, d, n))
        return out


def unwrap(a):
    """(record, changes, direct): what a value given to json.dumps is made of."""
    ops = []
    while True:
        if a.t == "mut" and a.a[0].t == "op" and a.a[0] not in (pyx.DICTNEW, pyx.VECNEW, pyx.SETNEW):
            ops = list(a.a[1:]) + ops
            a = a.a[0]
            continue
        if a.t == "mut" and a.a[0] is pyx.DICTNEW and len(a.a) >= 2 and a.a[1].a[0] == "extend":
            ops = list(a.a[2:]) + ops
            a = a.a[1].a[1]
            continue
        if a.t == "coll" and a.a[0].t == "seq":
            a = a.a[0].a[0]
            continue
        if a.t == "op" and a.a[0] in ("call:dataclasses.asdict", "call:vars", "vars", ".__dict__", "call:dict", "call:collections.OrderedDict", "m:copy", "items") and len([y for y in a.a[1:] if not (isinstance(y, N) and y.t == "kw")]) == 1:
            if len(a.a) > 2:
                return None, ops
            a = a.a[1]
            continue
        return a, ops


def records(R, t):
    T = Derived(R, "native_runner::TestResult")
    reads_with(R)
    I = None
    et = [f["ty"] for f in T.names.values() if "native_runner::" in f["ty"]]
    if et:
        m = re.search(r"native_runner::\w+", et[0])
        I = Derived(R, m.group(0))
    R.count("fields the runner reads", len(T.names))
    c = Recs(R, t)
    ws = c.gather()
    if not ws:
        raise Unk("no record is written")
    single = pyc.analyse(R, pyc.RUNNER + "_run_single_test", must=False)
    aggs = []
    seen = set()
    for x, ev, text, d, n in ws:
        line_format(R, c, x, ev, text, d)
        a = d.a[1]
        rec, ops = unwrap(a)
        if rec is None:
            R.unk("records:made", "a record made by " + show(a)[:80])
            continue
        if (rec, tuple(ops)) in seen:
            continue
        seen.add((rec, tuple(ops)))
        if rec.t == "mut" and rec.a[0] is pyx.DICTNEW or rec.t == "fold" or rec.t == "coll":
            built(R, c, T, I, rec, ops, aggs, x)
            continue
        made = source_aggs(c, rec, n, single)
        for g, conds, w in made:
            aggs.append((g, conds, w))
            one(R, T, I, dict(g.a[2]), ops, w, conds)
    if aggs or not any(k.startswith("records") for k, _ in R.unks):
        R.floor("kinds of records the worker writes", len({g.id for g, _, _ in aggs}), 1, c12.FN)
    outcomes(R, aggs)
    reason(R)
    told = list(R.bads) + [u for u, _ in R.unks]
    if not any(k.startswith("records") or k.startswith("line") for k in told):
        R.ok("records", "%d kinds of records against %d fields (%d required)" % (len({g.id for g, _, _ in aggs}), len(T.names), len(T.required)))
    if not any(k.startswith("outcome") for k in told):
        R.ok("outcomes", "every outcome written is known to the runner")


def source_aggs(c, rec, nest, single):
    """The dataclass values a written record can be."""
    out = []
    c.items = []
    try:
        c.record(rec, nest)
    except Unk as u:
        c.R.unk("records:source", str(u))
    for k, t, n in c.items:
        if k == "made":
            out.append((t, {}, c12.FN))
        elif k == "run" and single is not None:
            for st, y in single.rets:
                if st[0] == "ret":
                    v = single.e.freeze(y, st[1])
                    if v.t == "agg":
                        out.append((v, y.conds, single.qual))
                    else:
                        c.R.unk("records:result", "_run_single_test returns " + show(v)[:80])
    return out


def built(R, c, T, I, rec, ops, aggs, x):
    """A record that is a dictionary put together by the writer."""
    e = c.e
    if rec.t == "mut" and all(o.a[0] == "insert" and isc(o.a[1]) for o in rec.a[1:]):
        one(R, T, I, {cval(o.a[1]): o.a[2] for o in rec.a[1:]}, ops, c12.FN, x.conds, typed=False)
        for o in rec.a[1:]:
            for y in walk(o.a[2]):
                if y.t == "elem":
                    made = source_aggs(c, y, (), pyc.analyse(R, pyc.RUNNER + "_run_single_test", must=False))
                    aggs += made
                    break
        return
    loops = [o for o in (rec.a[1:] if rec.t == "mut" else ()) if o.a[0] == "loop"]
    if rec.t == "mut" and len(loops) == len(rec.a) - 1 == 1:
        L, pk = loops[0].a[1], loops[0].a[2]
        r = e.loops[L]
        src, stages = pyc.nextkey(e, L)
        if src is not None and contains(src, lambda y: y.t == "op" and y.a[0] in ("call:dataclasses.asdict", ".__dict__", "call:vars")):
            dropped = [cc for cc in r.conts if cc.upd.get(pk) is None or cc.upd[pk].t == "lv"]
            for cc in dropped:
                why = {k: v for k, v in cc.conds.items() if k.t != "next"}
                if any(k.t == "op" and k.a[0] == "isnone" and v is True for k, v in why.items()):
                    continue
                names = [cval(k.a[2]) for k, v in why.items() if k.t == "op" and k.a[0] == "eq" and v is True and isc(k.a[2])]
                if names and not any(nm in T.required for nm in names):
                    continue
                vals = [k for k, v in why.items() if k.t == "op" and k.a[0] in ("truth", "is_empty", "eq", "not") or k.t == "elem" or k.t == "op" and k.a[0] == ".1" or k.t == "op" and k.a[0] == "item"]
                if names or vals or any(contains(k, lambda y: y.t == "elem" and y.a[1] == L) for k in why):
                    R.bad("records:dropped", r.where, "a field can be left out of a record (%s), but the runner requires %s" % (brief(why), ", ".join(sorted(T.required))))
                else:
                    R.unk("records:dropped", "a record's fields are filtered: " + brief(why))
            base = [y for y in walk(src) if y.t == "op" and y.a[0] in ("call:dataclasses.asdict", ".__dict__", "call:vars")][0].a[1]
            made = source_aggs(c, base, (), pyc.analyse(R, pyc.RUNNER + "_run_single_test", must=False))
            for g, conds, w in made:
                aggs.append((g, conds, w))
                one(R, T, I, dict(g.a[2]), (), w, conds)
            return
    R.unk("records:made", "a record made by " + show(rec)[:100])


def one(R, T, I, fields, ops, where, conds, typed=True):
    fields = dict(fields)
    for o in ops:
        if o.a[0] == "insert" and isc(o.a[1]):
            fields[cval(o.a[1])] = o.a[2]
        elif o.a[0] in ("pop", "remove", "del") and len(o.a) > 1 and isc(o.a[1]):
            nm = cval(o.a[1])
            if nm in T.required:
                R.bad("records:dropped", where, "the field %s is removed from a record, but the runner requires it" % nm)
            fields.pop(nm, None)
            if nm in T.names:
                fields[nm] = None
        else:
            R.unk("records:changed", "a record is changed by " + show(o)[:80])
            return
    for nm in sorted(T.names):
        f = T.names[nm]
        alias = [n for n in T.names if T.names[n] is f]
        if not any(n in fields for n in alias):
            what = "which the runner requires" if nm in T.required else "so the runner always takes it as absent"
            R.bad("records:field:" + nm, where, "no record has a field %s, %s (it has %s)" % (nm, what, ", ".join(sorted(map(str, fields)))))
    for nm, v in fields.items():
        f = T.names.get(nm)
        if f is None:
            if T.deny:
                R.bad("records:extra:" + str(nm), where, "the runner refuses records with a field %s" % nm)
            continue
        if v is None or f["name"] in T.special:
            continue
        value(R, "records:" + str(nm), f["ty"], v, I, where, conds)


def value(R, key, ty, v, I, where, conds):
    for y, cs in alts(v):
        k = kind(y)
        ok = fits(ty, k)
        if ok is False:
            R.bad(key + ":type", where, "a record can be written with %s = %s, which the runner cannot read as %s (%s)" % (key.split(":")[1], show(y)[:60], ty, brief(conds)))
        if k == "dict" and I is not None and ok:
            inner(R, key, y, I, where, conds)


def alts(v):
    if v.t == "op" and v.a[0] in ("ite", "phi") and len(v.a) == 4:
        return alts(v.a[2]) + alts(v.a[3])
    return [(v, {})]


def inner(R, key, d, I, where, conds):
    ks = {}
    for o in (d.a[1:] if d.t == "mut" else ()):
        if o.a[0] == "insert" and isc(o.a[1]):
            ks[cval(o.a[1])] = o.a[2]
        else:
            R.unk(key + ":content", "a value made by " + show(o)[:60])
            return
    for k, v in ks.items():
        f = I.names.get(k)
        if f is None:
            if I.deny:
                R.bad(key + ":" + str(k), where, "the runner refuses a field %s in %s" % (k, key.split(":")[1]))
            continue
        if f["name"] not in I.special:
            if fits(f["ty"], kind(v)) is False:
                R.bad(key + ":" + str(k) + ":type", where, "%s.%s can be written as %s, which the runner cannot read as %s" % (key.split(":")[1], k, show(v)[:60], f["ty"]))
    for nm in sorted(I.required):
        if nm not in ks:
            R.bad(key + ":" + nm, where, "%s is written without the field %s, which the runner requires (%s)" % (key.split(":")[1], nm, brief(conds)))
    if ks and not set(ks) & set(I.names):
        R.bad(key + ":names", where, "%s is written with the fields %s, none of which the runner reads (%s)" % (key.split(":")[1], ", ".join(map(str, ks)), ", ".join(sorted(I.names))))


def line_format(R, c, x, ev, text, d):
    kw = {k.a[0]: k.a[1] for k in d.a if isinstance(k, N) and k.t == "kw"}
    if "indent" in kw and not (isc(kw["indent"]) and cval(kw["indent"]) is None):
        R.bad("line:spread", c12.FN, "a record is spread over several lines; the runner reads one record per line")
    sep = kw.get("separators")
    if sep is not None and sep.t == "tup" and len(sep.a) == 2 and all(isc(y) for y in sep.a) and (str(cval(sep.a[0])).strip() != "," or str(cval(sep.a[1])).strip() != ":"):
        R.bad("line:json", c12.FN, "the records are not JSON")
    raw = isc(kw["ensure_ascii"]) and cval(kw["ensure_ascii"]) is False if "ensure_ascii" in kw else False
    clean = contains(d.a[1], lambda y: y.t == "op" and y.a[0] in ("m:encode", "m:decode"))
    key = "line:surrogates"
    if not raw and not clean and "ensure_ascii" not in kw:
        R.bad(key, c12.FN, "a lone surrogate in a record is written as a \\ud800 escape, which the runner's JSON reader refuses, and with it every result of the file")
    encs = []
    for y in walk(text):
        if y.t == "op" and y.a[0] == "m:encode" and contains(y.a[1], lambda z: z is d):
            args = [z for z in y.a[2:] if not (isinstance(z, N) and z.t == "kw")]
            k2 = {z.a[0]: z.a[1] for z in y.a[2:] if isinstance(z, N) and z.t == "kw"}
            encs.append((args[0] if args else k2.get("encoding", C("utf-8", "str")), args[1] if len(args) > 1 else k2.get("errors")))
    if not encs:
        for y, _ in events(c.e, x.ev):
            if y.a[0] == "m" and y.a[1] == "open" or y.a[0] == "lib" and y.a[1] == "open":
                k2 = dict(y.a[-1])
                encs.append((k2.get("encoding"), k2.get("errors")))
            if y.a[0] == "m" and y.a[1] == "write_text":
                k2 = dict(y.a[-1])
                encs.append((k2.get("encoding"), k2.get("errors")))
    for enc, err in encs:
        name = str(cval(enc)).lower().replace("_", "-") if enc is not None and isc(enc) and cval(enc) is not None else None
        if enc is not None and not isc(enc):
            R.unk("line:encoding", "the encoding is not a constant")
            continue
        if name is not None and name not in ("utf-8", "utf8", "u8") and (raw or name not in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1")):
            R.bad("line:encoding", c12.FN, "the results are written as %s, the runner reads UTF-8" % name)
            continue
        if raw:
            if name is None:
                R.bad("line:encoding", c12.FN, "unescaped records are written in the locale's encoding, the runner reads UTF-8")
            e = cval(err) if err is not None and isc(err) else None
            if err is not None and not isc(err):
                R.unk(key, "the error handler is not a constant")
            elif e in (None, "strict") and not clean:
                R.bad(key, c12.FN, "a lone surrogate in a record cannot be encoded, which ends the worker before its results are written")
            elif e in ("surrogatepass", "surrogateescape", "backslashreplace", "namereplace") and not clean:
                R.bad(key, c12.FN, "a lone surrogate in a record is written by the error handler %r in a form the runner cannot read" % e)


def reads_with(R):
    """The runner parses each line as a TestResult."""
    F = ctx.F()
    n = 0
    for name, f in F["fns"].items():
        if not name.startswith("native_runner::") or "deserialize" in name:
            continue
        for b in f.get("blocks") or ():
            t = b.get("t") or {}
            p = str((t.get("f") or {}).get("path", "")) if t.get("k") == "call" else ""
            if p.startswith("serde_json::from_") or p.startswith("serde_json::de::from_"):
                n += 1
                if "native_runner::TestResult" not in str(t["f"].get("targs")):
                    R.unk("records:parsed", "%s reads JSON as %s" % (name, t["f"].get("targs")))
    if not n:
        R.unk("records:parsed", "no call that parses JSON")


# ---- C: outcomes ----
def known_outcomes(R):
    """Constants the runner compares outcomes with."""
    F = ctx.F()
    out = set()
    for name, f in F["fns"].items():
        if not name.startswith("native_runner::") or "deserialize" in name or "test" in name.split("::")[-1].split("_")[0:1]:
            continue
        for b in f.get("blocks") or ():
            t = b.get("t") or {}
            p = str((t.get("f") or {}).get("path", "")) if t.get("k") == "call" else ""
            if p.endswith("PartialEq::eq") or p.endswith("PartialEq::ne"):
                for a in t["args"]:
                    if a.get("k") == "const" and isinstance(a.get("v"), str):
                        out.add(a["v"])
    return out


def outcomes(R, aggs):
    known = known_outcomes(R)
    r = ctx.run(R, "native_runner::execute_native", events=("print",))
    for rec in r.e.loops.values() if r is not None else ():
        for c in rec.conts:
            known |= {c09.outcome(k) for p in c.paths() for k in p} - {None}
    if known:
        known.add("error")      # what any other outcome counts as (C10)
    if not known:
        R.unk("outcomes:known", "the runner compares outcomes with no constant")
        return
    n = 0
    for g, conds, w in aggs:
        o = dict(g.a[2]).get("outcome")
        if o is None:
            continue
        for y, _ in alts(o):
            if isc(y):
                n += 1
                if cval(y) not in known:
                    R.bad("outcomes:" + str(cval(y)), w, "the worker writes the outcome %r, which the runner does not know (%s)" % (cval(y), ", ".join(sorted(known & {"passed", "failed", "error", "skipped"}))))
            else:
                R.unk("outcomes:value", "an outcome " + show(y)[:80])
    R.count("outcomes written", n)


def reason(R):
    """The reason of a skip is text, whatever the user gave."""
    if not pyc.exists(pyc.RUNNER + "_is_skipped"):
        R.unk("records:reason", "there is no _is_skipped")
        return
    r = pyc.analyse(R, pyc.RUNNER + "_is_skipped", inline=("_is_skipped",), must=False)
    if r is None:
        return
    good = True
    for s, x in r.rets:
        if s[0] != "ret":
            continue
        v = r.e.freeze(x, s[1])
        if v.t != "tup" or len(v.a) != 2:
            continue
        for y, _ in alts(v.a[1]):
            k = kind(y)
            if k == "str" or k == "null":
                continue
            if y.t == "op" and (y.a[0] in ("getattr", "m:get", "index", "item") or y.a[0].startswith(".")):
                R.bad("records:reason", r.qual, "the reason of a skip is passed on as the user gave it (%s); the runner reads only text" % show(y)[:80])
                good = False
            elif k is not None:
                R.bad("records:reason", r.qual, "the reason of a skip is %s; the runner reads only text" % show(y)[:80])
                good = False
            elif y.t in ("fold", "lv"):
                pass
            else:
                R.unk("records:reason", "a reason " + show(y)[:80])
                good = False
    if good:
        R.ok("reason", "text on every path of _is_skipped")


# ---- D: exit status ----
def exits(R, r, t, m):
    codes = set()
    for s, x in t.rets:
        if s[0] != "ret":
            continue
        v = t.e.freeze(x, s[1])
        while v.t == "op" and v.a[0] in ("call:int", "int") and len(v.a) == 2:
            v = v.a[1]
        if isc(v):
            codes.add(0 if cval(v) is None else int(cval(v)))
        elif kind(v) == "bool":
            codes |= {0, 1}
        else:
            R.unk("exit:codes", "run_tests returns " + show(v)[:80])
    if m is not None:
        for s, x in m.rets:
            if s[0] != "ret":
                continue
            v = m.e.freeze(x, s[1])
            if isc(v):
                R.bad("exit:main", MAIN, "main returns %s instead of the value of run_tests" % show(v))
            elif not (v.t == "op" and v.a[0] == "py:run_tests") and not contains(v, lambda y: y.t == "op" and y.a[0] == "py:run_tests"):
                R.unk("exit:main", "main returns " + show(v)[:80])
    e = r.e
    paths = []
    for tid in e.threads:
        for conds, evs, ret in e.thread_paths(tid):
            if any(ev.a[0] == "exec" for ev in evs):
                paths.append((conds, ret))
    if not paths:
        R.unk("exit:accepted", "the workers' exit status is not read in a thread")
        return
    for c in sorted(codes):
        oks = errs = 0
        for conds, ret in paths:
            if not possible(conds, c):
                continue
            if ret.t == "agg" and ret.a[1] == "Ok":
                oks += 1
            elif ret.t == "agg" and ret.a[1] == "Err":
                errs += 1
            else:
                R.unk("exit:accepted", "a worker thread returns " + show(ret)[:60])
                return
        if not oks:
            R.bad("exit:%d" % c, FN, "the worker ends with status %d after writing its results, which the runner takes for a crash" % c)
    if not any(k.startswith("exit") for k in list(R.bads) + [u for u, _ in R.unks]):
        R.ok("exit", "status %s accepted" % sorted(codes))


def possible(conds, c):
    """Whether a process that ran and ended with code c can take a path."""
    for k, v in conds.items():
        if not contains(k, lambda y: y.t == "op" and y.a[0] == "ran"):
            continue
        if k.t == "discr":
            y = k.a[0]
            if y.t == "op" and y.a[0] == "ran" and v == "Err":
                return False
            if y.t == "op" and y.a[0].endswith("ExitStatus::code") and v == "None":
                return False
            continue
        if k.t == "op" and k.a[0].endswith("ExitStatus::success"):
            if v is not (c == 0):
                return False
        if k.t == "op" and k.a[0] in ("eq", "lt", "le") and len(k.a) == 3:
            a, b = (iscode(y) for y in k.a[1:])
            if a and isc(k.a[2]):
                x, y = c, cval(k.a[2])
            elif b and isc(k.a[1]):
                x, y = cval(k.a[1]), c
            else:
                continue
            w = x == y if k.a[0] == "eq" else x < y if k.a[0] == "lt" else x <= y
            if w is not v:
                return False
    return True


def iscode(t):
    if t.t == "agg" and len(t.a[2]) == 1:
        t = t.a[2][0][1]
    return t.t == "op" and (t.a[0] == "pl:Some" and t.a[1].t == "op" and t.a[1].a[0].endswith("ExitStatus::code") or t.a[0].endswith("unwrap_or") and iscode(op("pl:Some", t.a[1])))
