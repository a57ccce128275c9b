"""C06: every pytest process gets the configured program, arguments, tests, directory and environment."""
from .. import clapspec, ctx, strs
from ..terms import *
from ..pyc import Unk
from . import c04
from .c11 import commands, PARTS
from .c16 import guard

EXEC = "pytest_executor::execute_tests"
SPAWN = "worker::WorkerPool::spawn_worker"
PAR = "runner::execute_tests_parallel"
GROUP = "group_tests_by_subproject"
RELATIVE = "make_test_paths_relative"
NEW = ("runner::PytestRunner::new", "pyo3::PytestRunner::from_current_python_with_env")
ORDER = ("rev", "skip", "take", "step_by") + PARTS
SAME = ("copied", "cloned", "iter", "into_iter", "by_ref", "enumerate", "peekable", "fuse")
QUIET = ("stdout", "stderr", "stdin")
WORD = {"initial": "the initial arguments", "tests": "the tests of the batch", "extra": "the extra pytest arguments", "dir": "the directory"}


def check(R):
    R.rule("Every process start reachable from the three places that run pytest is read as a command line, path by path: program, arguments in order, --rootdir with "
           "the directory the process starts in, environment. Each list has to be passed element by element, whole, in order and unchanged; the configured "
           "environment is set pair by pair and nothing set later can hide it. The KEY=VALUE entries are split at their first '=' and none is dropped.")
    R.assume("std::process::Command passes on what it is given; entries of --env without '=' are not KEY=VALUE settings and are reported")
    p = lambda i: mk("param", "arg%d" % i)
    r = ctx.run(R, EXEC)
    if r is not None:
        guard(R, "sequential", EXEC, sites, R, r, EXEC, Plan(p(0), p(1), p(2), p(3), p(4), p(5)))
    f = lambda n, t: op("." + n, t)
    r = ctx.run(R, SPAWN)
    if r is not None:
        t = p(1)
        guard(R, "worker", SPAWN, sites, R, r, SPAWN, Plan(f("program", t), f("initial_args", t), f("tests", t), f("pytest_args", t), f("working_dir", t), f("env_vars", t)))
    r = ctx.run(R, PAR, opaque=c04.OPAQUE + ctx.named(GROUP, RELATIVE))
    if r is not None:
        c = p(0)
        guard(R, "parallel", PAR, sites, R, r, PAR, Plan(f("program", c), f("initial_args", c), None, None, None, f("env_vars", c), f("rootpath", c)))
    for fn in NEW:
        guard(R, "environment:" + fn, fn, runner, R, fn)
    guard(R, "callers", "pyo3::main_cli_with_args", callers, R)
    guard(R, "option", "cli::Args", option, R)


def option(R):
    """Every --env given is one entry of the list, whole."""
    w = ctx.where("cli::Args::get_num_processes")
    opts, cmd = clapspec.options(R)
    fl = clapspec.fields(R)
    if opts is None or fl is None:
        return
    src = {i for how, i in fl.get("env", ()) if how != "?"}
    how = {h for h, i in fl.get("env", ()) if h != "?"}
    if len(src) != 1 or next(iter(src)) not in opts:
        raise Unk("the environment is filled from %s" % sorted(src))
    o = opts[src.pop()]
    if o.text("long") != "env":
        R.bad("option", w, "--env does not fill the environment, --%s does" % o.text("long"))
        return
    if "value_delimiter" in o.calls or "use_value_delimiter" in o.calls:
        R.bad("option", w, "a value of --env is split at a delimiter")
        return
    if "value_terminator" in o.calls:
        R.bad("option", w, "a value of --env ends the list of values")
        return
    a = o.get("action")
    if how & {"remove_one", "get_one"} or a is not None and a.t == "agg" and a.a[1] != "Append":
        R.bad("option", w, "of several --env only one is kept")
        return
    for k in o.extra(("value_parser", "action", "required", "num_args")):
        if k in ("default_value", "default_values", "env"):
            R.bad("option", w, "--env has a value when it is not given (%s)" % k)
            return
        raise Unk("--env is declared with " + k)
    R.ok("option", "every --env given is kept, whole")


class Plan:
    def __init__(self, program, initial, tests, extra, wdir, env, root=None):
        self.program, self.initial, self.tests, self.extra, self.dir, self.env, self.root = program, initial, tests, extra, wdir, env, root


def base(t):
    return t.a[0] if t.t == "seq" else t


class Piece:
    """A part of a command line: a constant word, one value, or all elements of a list (el: what they became, if changed)."""

    def __init__(self, kind, v, sts=(), el=None, some=False):
        self.kind, self.v, self.sts, self.el, self.some = kind, v, tuple(sts), el, some


def pieces(e, cmd):
    out = []
    for o in cmd.a[1:]:
        if o.a[0] == "arg":
            out += word(o.a[1])
        elif o.a[0] == "args":
            out += flat(e, base(o.a[1]))
        elif o.a[0] == "loop":
            out += added(e, o.a[1], o.a[2], "arg")
    return out


def word(t):
    if isc(t):
        return [Piece("word", str(cval(t)))]
    if t.t == "cat" and len(t.a) == 2 and isc(t.a[0]) and str(cval(t.a[0])) == "--rootdir=":
        return [Piece("word", "--rootdir="), Piece("one", t.a[1])]
    if t.t == "mut" and isc(t.a[0]) and str(cval(t.a[0])) == "--rootdir=" and len(t.a) == 2 and t.a[1].a[0] == "call" and str(t.a[1].a[1]).endswith("OsString::push"):
        x = t.a[1].a[2]
        x = x[0] if isinstance(x, tuple) else x
        return [Piece("word", "--rootdir="), Piece("one", x)]
    return [Piece("one", t)]


def flat(e, t, d=0):
    """The parts, in order, of a list."""
    t = base(t)
    if d > 10:
        return [Piece("all", t)]
    if t.t == "arr":
        return [w for x in t.a for w in word(x)]
    if t.t == "coll" and t.a[0].t == "seq":
        return flat(e, t.a[0], d + 1)
    if t.t == "op" and t.a[0] == "seq_new" or t is ctx_new():
        return []
    if t.t == "mut":
        out = flat(e, t.a[0], d + 1)
        for o in t.a[1:]:
            if o.a[0] == "push":
                out += word(o.a[1])
            elif o.a[0] == "extend":
                out += flat(e, o.a[1], d + 1)
            elif o.a[0] == "loop":
                out += added(e, o.a[1], o.a[2], "push", d + 1)
            elif o.a[0] in ("reverse", "sort", "retain", "dedup", "truncate"):
                for pc in out:
                    pc.sts += (mk("rev"),)
            else:
                raise Unk("a list is built by " + show(o)[:80])
        return out
    return [Piece("all", t)]


def ctx_new():
    from .. import models
    return models.VECNEW


def flat_iter(e, src, stages, d):
    """The parts an iterator goes through: (immediate list, parts)."""
    for i in range(len(stages) - 1, -1, -1):
        if stages[i].t == "chain":
            it = stages[i].a[0]
            if it.t != "iter":
                raise Unk("a chained iterator")
            a = flat_iter(e, src, stages[:i], d + 1) + flat_iter(e, it.a[0], it.a[1], d + 1)
            for _, ps in a:
                for pc in ps:
                    pc.sts += tuple(stages[i + 1:])
            return a
    ps = flat(e, src, d + 1)
    for pc in ps:
        pc.sts += tuple(stages)
    return [(base(src), ps)]


def added(e, L, pk, what, d=0):
    """What a loop adds to a command or a list."""
    rec = e.loops[L]
    seqs = []
    for c in rec.conts:
        u = c.upd.get(pk)
        if u is None or u.t == "lv":
            seqs.append([])
        elif u.t == "mut":
            ws = []
            for y in u.a[1:]:
                if y.a[0] == what:
                    ws += word(y.a[1])
                elif y.a[0] == "loop":
                    ws += added(e, y.a[1], y.a[2], what, d + 1)
                elif y.a[0] == "extend" and what == "push":
                    ws += flat(e, y.a[1], d + 1)
                elif what == "arg" and y.a[0] in ("env", "env_remove", "env_clear"):
                    pass
                else:
                    raise Unk("a loop adds " + show(y)[:80])
            seqs.append(ws)
        else:
            raise Unk("a loop changes a list in a way not read")
    if not any(seqs):
        return []
    src, stages = ctx.sources(rec)
    if src is None:
        raise Unk("a loop over arguments has no source")
    its = flat_iter(e, src, list(stages), d)
    bysrc = {}
    missed = any(not s for s in seqs)
    for s in seqs:
        if not s:
            continue
        if len(s) != 1 or s[0].kind != "one":
            if len(its) == 1 and all(x.kind in ("one", "all") for x in s):
                return [Piece("all", s[0].v, stages, None, True)] if len(s) > 1 else [Piece("all", s[0].v, stages)]
            raise Unk("a loop adds several words each time")
        v = s[0].v
        for b, _ in its:
            if plain(v, b):
                bysrc.setdefault(b, []).append(None)
                break
            if contains(v, lambda y: y.t in ("elem", "nextof") and base(y.a[0]) is b):
                bysrc.setdefault(b, []).append(v)
                break
        else:
            raise Unk("a loop adds " + show(v)[:80])
    out = []
    for b, ps in its:
        us = bysrc.get(b)
        if us is None:
            for pc in ps:
                pc.some = True
        else:
            ch = [v for v in us if v is not None]
            for pc in ps:
                if missed:
                    pc.some = True
                if ch:
                    pc.el = ch[0]
        out += ps
    return out


def sites(R, r, fn, P):
    e = r.e
    w = ctx.where(fn)
    cmds = commands(e, r)
    n = len(R.bads) + len(R.unks)
    R.floor("process starts of " + fn, len(cmds), 1, w)
    for conds, cmd in cmds:
        one(R, e, fn, w, P, conds, cmd)
    if n == len(R.bads) + len(R.unks):
        R.ok("command:" + fn, "%d command lines, each complete and in order" % len(cmds))


def one(R, e, fn, w, P, conds, cmd):
    k = lambda s: "%s:%s" % (s, fn)
    if cmd.a[0] is not op("cmd", P.program):
        R.bad(k("program"), w, "a process is started with a program that is not the configured one: " + show(cmd.a[0])[:100])
    cwd = [o.a[1] for o in cmd.a[1:] if o.a[0] == "current_dir"]
    others = [o for o in cmd.a[1:] if o.a[0] not in ("arg", "args", "loop", "env", "envs", "env_clear", "env_remove", "current_dir") + QUIET]
    for o in others:
        R.unk(k("command"), "the command is given " + show(o)[:80])
    seq, root = [], []
    for pc in pieces(e, cmd):
        if pc.kind == "one" and seq and seq[-1].kind == "word" and seq[-1].v in ("--rootdir", "--rootdir="):
            seq[-1] = Piece("dir", pc.v)
            root.append(pc.v)
        else:
            seq.append(pc)
    if any(pc.kind == "word" and pc.v in ("--rootdir", "--rootdir=") for pc in seq):
        R.bad(k("rootdir"), w, "--rootdir is not followed by the directory")
        seq = [pc for pc in seq if pc.v not in ("--rootdir", "--rootdir=")]
    # which directory
    given = True
    if P.dir is not None:
        d = conds.get(mk("discr", P.dir))
        if d is None:
            if any(contains(x, lambda y: y is P.dir) for x in cwd + root):
                raise Unk("the working directory is used without a look whether there is one")
            if not cwd and not root:
                R.bad(k("dir"), w, "the working directory given is not used")
            given = None
        else:
            given = d == "Some"
    want = op("pl:Some", P.dir) if P.dir is not None else None
    if given:
        if not cwd:
            R.bad(k("dir"), w, "the process is not started in the working directory given")
        if not root:
            R.bad(k("rootdir"), w, "the working directory is not passed on as --rootdir")
        if len(root) > 1:
            R.bad(k("rootdir"), w, "--rootdir is passed %d times" % len(root))
        for what, x in [("cwd", y) for y in cwd[-1:]] + [("rootdir", y) for y in root]:
            if want is not None and x is not want:
                R.bad(k("dir:" + what), w, "the %s is not the working directory given: %s" % ("directory the process runs in" if what == "cwd" else "--rootdir", show(x)[:100]))
        if cwd and root and cwd[-1] is not root[-1] and not equal(conds, cwd[-1], root[-1]):
            R.bad(k("rootdir"), w, "the process runs in %s and is given --rootdir %s" % (show(cwd[-1])[:60], show(root[-1])[:60]))
    elif given is False:
        for x in cwd + root:
            R.bad(k("dir:none"), w, "a directory is set although none is given: " + show(x)[:80])
    for o in cmd.a[1:]:
        if o.a[0] == "loop" and early(e.loops[o.a[1]]):
            us = [c.upd.get(o.a[2]) for c in e.loops[o.a[1]].conts]
            if any(u is not None and u.t == "mut" and any(y.a[0] == "arg" for y in u.a[1:]) for u in us):
                R.bad(k("whole"), w, "a loop that passes arguments on can end before all are passed")
    used, order = {}, []
    tests = P.tests
    for pc in seq:
        if pc.kind == "dir":
            order.append("dir")
            continue
        if pc.kind == "word":
            R.bad(k("extra-word"), w, "the process is given %r, which nobody configured" % pc.v)
            continue
        src = pc.v
        role = "initial" if src is P.initial else "extra" if P.extra is not None and src is P.extra else "tests" if tests is not None and src is tests else None
        if role is None and tests is None and batch(src):
            role = "tests"
        if role is None:
            inner = [n for n, t in (("initial", P.initial), ("tests", tests), ("extra", P.extra)) if t is not None and contains(src, lambda y: y is t)]
            if tests is None and not inner and contains(src, is_dist):
                inner = ["tests"]
            if not inner:
                raise Unk("the process is given " + show(src)[:120])
            role = inner[0]
            if pc.kind == "one" and src.t != "mut":
                R.bad(k("separate:" + role), w, "%s are not passed as separate, whole arguments: %s" % (WORD[role], show(src)[:100]))
            elif pc.kind == "all" and (src.t in ("elem", "split", "op") or src.t.startswith("of:")):
                R.bad(k("separate:" + role), w, "%s are passed in pieces: %s" % (WORD[role], show(src)[:100]))
            else:
                raise Unk("the process is given " + show(src)[:120])
        elif pc.kind == "one":
            R.bad(k("separate:" + role), w, "%s are passed as one argument" % WORD[role])
        if pc.some:
            R.bad(k("whole:" + role), w, "some of %s are left out, or some are passed differently" % WORD[role])
        for s in pc.sts:
            if s.t in ORDER:
                R.bad(k("whole:" + role), w, "%s are not passed whole and in order (%s)" % (WORD[role], s.t))
            elif s.t not in SAME and s.t != "map":
                R.unk(k("whole:" + role), "%s pass through %s" % (WORD[role], s.t))
        if pc.el is not None:
            R.bad(k("changed:" + role), w, "%s are changed on the way: %s" % (WORD[role], show(pc.el)[:120]))
        used[role] = used.get(role, 0) + 1
        order.append(role)
        if role == "tests" and P.tests is None:
            pair(R, k, w, e, P, conds, src, cwd)
    for role in ("initial", "tests") + (("extra",) if P.extra is not None else ()):
        if role not in used:
            R.bad(k("missing:" + role), w, "%s are not passed on (%s)" % (WORD[role], "with a directory" if given else "without one"))
        elif used[role] > 1:
            R.bad(k("twice:" + role), w, "%s are passed %d times" % (WORD[role], used[role]))
    want_order = [x for x in ("initial", "tests", "extra") if x in order]
    if [x for x in dict.fromkeys(order) if x != "dir"] != want_order:
        R.bad(k("order"), w, "the arguments are in the order " + ", ".join(WORD[x] for x in order))
    if "dir" in order and "initial" in order and order.index("dir") < order.index("initial"):
        R.bad(k("order"), w, "--rootdir precedes the initial arguments, and so goes to the program instead of pytest")
    environment(R, e, k, w, P, cmd)


def plain(el, src):
    """el is the element of src itself (of a loop, or one position of it)."""
    while el is not None and el.t == "op" and el.a[0] in ("as_ref", "borrow", "to_owned", "clone", "to_string"):
        el = el.a[1]
    if el is not None and el.t == "tup" and len(el.a) == 2 and all(x.t == "op" and x.a[0] == ".%d" % i for i, x in enumerate(el.a)) and el.a[0].a[1] is el.a[1].a[1]:
        el = el.a[0].a[1]
    return el is not None and el.t in ("elem", "nextof") and base(el.a[0]) is src


def equal(conds, a, b):
    return a is b or conds.get(op("eq", a, b)) is True or conds.get(op("eq", b, a)) is True


def batch(src):
    """An element of what a scheduler handed out."""
    return src.t == "elem" and is_dist(base(src.a[0]))


def is_dist(t):
    return t.t == "op" and t.a[0].startswith("call:") and t.a[0].endswith("distribute_tests")


def pair(R, k, w, e, P, conds, src, cwd):
    """The directory of a batch is the one its ids are relative to."""
    d = base(src.a[0])
    ts = d.a[2]
    if len(cwd) != 1 and not cwd:
        return
    c = cwd[-1]
    if ts.t == "op" and ts.a[0].startswith("call:") and ts.a[0].endswith(RELATIVE):
        inner, root, to = ts.a[1], ts.a[2], ts.a[3]
        if not equal(conds, to, c):
            R.bad(k("pairing"), w, "the ids of a batch are made relative to %s, but its process runs in %s" % (show(to)[:80], show(c)[:80]))
        if root is not P.root and not equal(conds, root, P.root):
            R.bad(k("pairing"), w, "ids are made relative as if they were relative to " + show(root)[:80])
        g = group_of(inner)
        if g is None:
            raise Unk("the tests made relative are " + show(inner)[:100])
        if group_of(to, "map_keys") is not g:
            R.bad(k("pairing"), w, "the ids of one group are made relative to the directory of another: " + show(to)[:80])
        return
    if equal(conds, c, P.root):
        return
    g = group_of(ts)
    if g is None and ts.t != "param":
        raise Unk("the tests distributed are " + show(ts)[:100])
    R.bad(k("pairing"), w, "ids relative to the root are run in " + show(c)[:100])


def group_of(t, what="map_values"):
    """(map, loop) of the group a list of tests, or a directory, belongs to."""
    if t.t == "elem" and t.a[0].t == what:
        return op("group", t.a[0].a[0], C(t.a[1]) if not isinstance(t.a[1], N) else t.a[1])
    return None


def environment(R, e, k, w, P, cmd):
    """The configured pairs, all of them, in order, and nothing that hides one afterwards."""
    seen = 0
    for o in cmd.a[1:]:
        if o.a[0] in ("env_clear", "env_remove") and seen:
            R.bad(k("env:hidden"), w, "%s follows the configured environment" % o.a[0])
        elif o.a[0] == "env":
            if contains(o, lambda y: y is P.env):
                R.unk(k("env"), "the environment is set by " + show(o)[:80])
            elif seen:
                R.bad(k("env:hidden"), w, "%s is set after the configured environment and hides it" % show(o.a[1])[:60])
        elif o.a[0] == "envs":
            if base(o.a[1]) is P.env:
                seen += 1
            else:
                R.unk(k("env"), "the environment is set by " + show(o)[:80])
        elif o.a[0] == "loop":
            rec = e.loops[o.a[1]]
            pk = o.a[2]
            us = [c.upd.get(pk) for c in rec.conts]
            sets = [[y for y in u.a[1:] if y.a[0] in ("env", "env_remove", "env_clear")] if u is not None and u.t == "mut" else [] for u in us]
            if not any(sets):
                continue
            src, stages = ctx.sources(rec)
            if src is None:
                raise Unk("the environment is set from an unread loop")
            its = flat_iter(e, src, list(stages), 0)
            if len(its) != 1 or len(its[0][1]) != 1 or its[0][1][0].v is not P.env:
                if not contains(src, lambda y: y is P.env):
                    if seen:
                        R.bad(k("env:hidden"), w, "an environment from %s follows the configured one" % show(src)[:60])
                    continue
                if src.t in ("map_items",):
                    R.bad(k("env:whole"), w, "the configured environment goes through a map, which keeps one setting per name in no certain order")
                    seen += 1
                    continue
                raise Unk("the environment is set from " + show(src)[:80])
            seen += 1
            imm, pc = its[0][0], its[0][1][0]
            if pc.some:
                R.bad(k("env:whole"), w, "some of the configured variables are not set")
            if pc.el is not None:
                R.bad(k("env:changed"), w, "the configured variables are changed: " + show(pc.el)[:100])
            for s in pc.sts:
                if s.t in ORDER:
                    R.bad(k("env:whole"), w, "the configured environment is not set whole and in order (%s)" % s.t)
                elif s.t not in SAME and s.t != "map":
                    R.unk(k("env:whole"), "the environment passes through " + s.t)
            for c, ss in zip(rec.conts, sets):
                if len(ss) == 1 and ss[0].a[0] == "env":
                    a, b = ss[0].a[1], ss[0].a[2]
                    for i, t, what in ((0, a, "name"), (1, b, "value")):
                        if not (t.t == "op" and t.a[0] == ".%d" % i and plain(t.a[1], imm)):
                            R.bad(k("env:changed"), w, "a variable is not set as configured: its %s is %s" % (what, show(t)[:80]))
                elif not ss:
                    R.bad(k("env:whole"), w, "some of the configured variables are not set (%s)" % ", ".join(show(x)[:60] for x in c.conds if x.t != "next")[:120])
                elif ss[-1].a[0] in ("env_remove", "env_clear"):
                    R.bad(k("env:removed"), w, "a configured variable is removed from the environment (%s)" % ", ".join(show(x)[:60] for x in c.conds if x.t == "op"))
                else:
                    raise Unk("one configured variable leads to several settings")
            if early(rec):
                R.bad(k("env:whole"), w, "the loop over the configured environment can end early")
    if not seen:
        R.bad(k("env:missing"), w, "the configured environment is not set")


def field(v, name):
    if v.t == "agg":
        for x in v.a[2] if len(v.a) > 2 and isinstance(v.a[2], tuple) else ():
            if isinstance(x, tuple) and x[0] == name:
                return x[1]
    return None


def runner(R, fn):
    r = ctx.run(R, fn)
    if r is None:
        return
    e = r.e
    w = ctx.where(fn)
    n = len(R.bads) + len(R.unks)
    arg = mk("param", "arg%d" % (1 if fn.startswith("pyo3") else 0))
    for s, v in r.outcomes():
        env = field(v, "env_vars")
        if env is None:
            raise Unk("returns " + show(v)[:100])
        if not (env.t == "mut" and len(env.a) == 2 and env.a[1].a[0] == "loop"):
            raise Unk("the environment is " + show(env)[:100])
        L, pk = env.a[1].a[1], env.a[1].a[2]
        rec = e.loops[L]
        src, stages = ctx.sources(rec)
        if src is None or base(src) is not arg:
            raise Unk("the environment comes from " + (show(src)[:80] if src is not None else "?"))
        for st in stages:
            if st.t in ("rev", "skip", "take", "step_by", "take_while", "skip_while", "map_while"):
                R.bad("entries:whole:" + fn, w, "not every entry is kept, in order (%s)" % st.t)
        for c in rec.conts:
            for conds in c.paths():
                entry(R, fn, w, conds, c.upd.get(pk), pk, L, src)
        if early(rec):
            R.bad("entries:whole:" + fn, w, "entries after some entry are not looked at")
    if n == len(R.bads) + len(R.unks):
        R.ok("entries:" + fn, "every KEY=VALUE entry is kept, split at its first '='")


def early(rec):
    """The loop can end before its source is exhausted."""
    return any(not any(k.t == "next" and k.a[2] == rec.L and v is False for k, v in ex[1].items()) for ex in rec.exits)


def entry(R, fn, w, conds, u, pk, L, src):
    pushed = [] if u is None or u.t == "lv" else list(u.a[1:]) if u.t == "mut" else None
    if pushed is None or any(o.a[0] != "push" for o in pushed):
        raise Unk("an entry leads to " + show(u)[:100])
    el = next((y for t in [c for c in conds] + [o.a[1] for o in pushed] for y in walk(t) if y.t in ("elem", "nextof") and base(y.a[0]) is base(src)), None)
    if el is None:
        raise Unk("an entry is not looked at")
    n = strs.parts(conds, el, "=").get(None, (1, None))
    if n[1] == 1 and not pushed:
        return
    why = lambda: ", ".join("%s is %s" % (show(c)[:60], v) for c, v in conds.items() if c.t not in ("next", "exit"))
    if not pushed:
        # an empty name is not a setting
        if not any(v is True and c.t == "op" and c.a[0] == "is_empty" and strs.piece(c.a[1], el, "=") == (None, 0, 1) for c, v in conds.items()):
            R.bad("entries:dropped:" + fn, w, "a KEY=VALUE entry is dropped (%s)" % why())
        return
    if len(pushed) > 1:
        R.bad("entries:twice:" + fn, w, "one entry leads to %d settings" % len(pushed))
    t = pushed[0].a[1]
    if t.t != "tup" or len(t.a) != 2:
        raise Unk("an entry becomes " + show(t)[:100])
    for x, want, what in ((t.a[0], (None, 0, 1), "the name of a variable is not what precedes the first '='"), (t.a[1], (None, 1, None), "the value of a variable is not all that follows the first '='")):
        p = strs.piece(x, el, "=")
        if p != want and not (p == (None, 1, 2) and want == (None, 1, None) and n == (2, 2)):
            R.bad("entries:split:" + fn, w, what + ": " + show(x)[:100])


def callers(R):
    """The entries of the extension hand over the runner they built."""
    n = len(R.bads) + len(R.unks)
    found = 0
    for fn in ("pyo3::main_cli_with_args", "pyo3::run_tests"):
        r = ctx.run(R, fn, opaque=ctx.named(*c04.MAIN_OPAQUE) + ctx.named("from_current_python_with_env", "from_current_python"))
        if r is None:
            return
        w = ctx.where(fn)
        seen = set()
        for ev in r.e.all_events():
            if ev.t == "ev" and ev.a[0] == "call" and ev.a[1] in (EXEC, PAR) and ev not in seen:
                seen.add(ev)
                a = ev.a[2]
                a = a if isinstance(a, tuple) else a.a
                if ev.a[1] == EXEC:
                    prog, init, env, tests, wdir = a[0], a[1], a[5], a[2], a[4]
                else:
                    prog, init, env, tests, wdir = field(a[0], "program"), field(a[0], "initial_args"), field(a[0], "env_vars"), a[1], None
                found += 1
                one_caller(R, fn, w, prog, init, env, tests, wdir)
    R.floor("calls that run pytest", found, 3, "pyo3")
    if n == len(R.bads) + len(R.unks):
        R.ok("callers", "%d calls pass program, initial arguments and environment of the one runner" % found)


def one_caller(R, fn, w, prog, init, env, tests, wdir):
    runners = set()
    for name, t in (("program", prog), ("initial_args", init), ("env_vars", env)):
        if t is None:
            raise Unk("a field of the configuration")
        if not (t.t == "op" and t.a[0] == "." + name and contains(t.a[1], lambda y: y.t == "op" and "PytestRunner" in y.a[0])):
            R.bad("callers:%s:%s" % (fn, name), w, "pytest is not given the runner's %s but %s" % (name, show(t)[:100]))
        else:
            runners.add(t.a[1])
    if len(runners) > 1:
        R.bad("callers:%s:mixed" % fn, w, "pytest is given parts of different runners")
    for t in runners:
        if fn.endswith("main_cli_with_args") and not contains(t, lambda y: y.t == "op" and y.a[0] == ".env"):
            R.bad("callers:%s:env" % fn, w, "the --env settings do not reach the runner")
    if wdir is not None and tests is not None:
        d = wdir.a[-1] if wdir.t != "agg" else None
        d = field(wdir, "0") if wdir.t == "agg" else d
        if d is None:
            d = next((x[1] if isinstance(x, tuple) else x for x in wdir.a if isinstance(x, N)), None)
        if tests.t == "op" and tests.a[0].endswith(RELATIVE) and d is not None and tests.a[3] is not d:
            R.bad("callers:%s:pairing" % fn, w, "ids relative to %s are run in %s" % (show(tests.a[3])[:60], show(d)[:60]))
