"""C07: the number of workers is the number asked for, at most --maxprocesses, and at least one."""
from .. import ctx, batches, clapspec, entry
from ..terms import *
from ..pyc import Unk
from ..numbers import NoValue, num, consts, grid, consistent, bounded
from .c01 import strategies
from .c16 import guard
from .c06 import early

PARSE, CAP = "cli::Args::get_num_processes", "utils::determine_worker_count"
PARALLEL, NATIVE, SHARD = "runner::execute_tests_parallel", "native_runner::execute_native", "native_runner::shard_files"
DISTRIBUTE = "scheduler::Scheduler::distribute_tests"
CPUS = {"num_cpus::get_physical": "physical", "num_cpus::get": "logical"}


def check(R):
    R.rule("Every path of the parser yields the value its text stands for or an error; every path of the capping yields, for every order of the numbers involved, the "
           "smaller of the number asked for and the maximum; each runner hands its strategy that number, raised to one; no strategy makes more batches than that; and the "
           "number reaches the runners unchanged.")
    R.assume("clap fills a field from the option of its name as its generated code says; num_cpus counts the CPUs")
    guard(R, "options", "cli::Args", options, R)
    guard(R, "parsing", PARSE, parsing, R)
    guard(R, "capping", CAP, capping, R)
    guard(R, "parallel", PARALLEL, parallel, R)
    guard(R, "native", NATIVE, native, R)
    guard(R, "batches", DISTRIBUTE, counts, R)
    guard(R, "wiring", entry.MAIN, wiring, R)


DEFAULTS = ("default_value", "default_values", "default_value_os", "default_values_os", "default_value_if", "default_value_ifs", "env")


def options(R):
    w = ctx.where(PARSE)
    n0 = len(R.bads) + len(R.unks)
    opts, cmd = clapspec.options(R)
    fl = clapspec.fields(R)
    if opts is None or fl is None:
        return
    for f, long, short in (("numprocesses", "numprocesses", "n"), ("maxprocesses", "maxprocesses", None)):
        src = {i for how, i in fl.get(f, ()) if how != "?"}
        if len(src) != 1:
            raise Unk("the field %s is filled from %s" % (f, sorted(src)))
        o = opts.get(src.pop())
        if o is None:
            raise Unk("the field %s is filled from an option that is not declared" % f)
        names = {v for k in ("long", "alias", "visible_alias") for v in [o.text(k)] if v is not None}
        for k in ("aliases", "visible_aliases"):
            for x in o.calls.get(k, ()):
                names |= {str(cval(y)) for y in walk(x) if isc(y)}
        if long not in names:
            R.bad("options:" + f, w, "the option --%s does not fill %s, --%s does" % (long, f, ", --".join(sorted(names))))
        if short is not None and o.text("short") != short and o.text("short_alias") != short and o.text("visible_short_alias") != short:
            R.bad("options:" + f, w, "-%s does not fill %s" % (short, f))
        for k in o.extra(("value_parser", "action", "required", "num_args", "overrides_with", "conflicts_with", "requires", "value_name")):
            if k in DEFAULTS:
                R.bad("options:default", w, "--%s has a value when it is not given (%s)" % (long, k))
            elif k in ("value_delimiter", "default_missing_value", "ignore_case", "allow_hyphen_values", "allow_negative_numbers", "require_equals", "last", "global"):
                continue
            else:
                raise Unk("--%s is declared with %s" % (long, k))
    if n0 == len(R.bads) + len(R.unks):
        R.ok("options", "-n, --numprocesses and --maxprocesses fill their own fields, without defaults")


# ---- the parser ----
GIVEN = mk("op", ".numprocesses", mk("param", "arg0"))


def parsing(R):
    r = ctx.run(R, PARSE)
    if r is None:
        return
    w = ctx.where(PARSE)
    n0 = len(R.bads) + len(R.unks)
    n = 0
    for s, v in r.outcomes():
        for p in s.paths():
            n += 1
            parsed(R, w, p, v)
    R.floor("paths of the parser", n, 4, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("parsing", "%d paths: the value the text stands for, or an error" % n)


def agg(t, *path):
    """The innermost payload when t is nested variants of these names."""
    for name in path:
        if t.t != "agg" or t.a[1] != name:
            return None
        d = dict(t.a[2])
        t = d.get("0")
        if t is None:
            return True
    return t


def is_given(t):
    return t.t == "op" and t.a[0] == "pl:Some" and t.a[1].t == "op" and t.a[1].a[0] == ".numprocesses"


def known_text(p):
    """(texts it equals, texts it is known not to be)"""
    eq, ne = set(), set()
    for k, b in p.items():
        if k.t == "op" and k.a[0] == "eq" and is_given(k.a[1]) and isc(k.a[2]):
            (eq if b else ne).add(str(cval(k.a[2])))
    return eq, ne


def parsed(R, w, p, v):
    if v.t != "agg":
        # Option::map and the like can leave the value unread
        raise Unk("the parser returns " + show(v)[:100])
    given = next((b for k, b in p.items() if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == ".numprocesses"), None)
    if v.a[1] == "Err":
        eq, ne = known_text(p)
        if given == "None" or given is None:
            R.bad("parsing:none", w, "no -n is an error" if given == "None" else "the parser can fail whatever -n is")
        elif eq & {"auto", "logical"}:
            R.bad("parsing:refused", w, "-n %s is refused" % sorted(eq)[0])
        elif any(k.t == "discr" and b == "Ok" and is_parse(k.a[0]) and is_given(k.a[0].a[1]) for k, b in p.items()):
            R.bad("parsing:refused", w, "a number given with -n is refused (%s)" % cond(p))
        elif not any(is_parse(y) for k in p for y in walk(k)) and not {"auto", "logical"} <= ne:
            R.bad("parsing:refused", w, "an -n that may be valid is refused (%s)" % cond(p))
        return
    inner = agg(v, "Ok")
    if inner is None or inner.t != "agg":
        raise Unk("the parser returns " + show(v)[:100])
    if inner.a[1] == "None":
        if given != "None":
            R.bad("parsing:replaced", w, "an -n that was given is taken for none (%s)" % cond(p))
        return
    x = agg(inner, "Some")
    if x is None or x is True or x.t != "agg":
        raise Unk("the parser returns " + show(v)[:100])
    if given == "None":
        R.bad("parsing:none", w, "no -n is taken for " + show(x)[:60])
        return
    eq, ne = known_text(p)
    if x.a[1] in ("Auto", "Logical"):
        want = x.a[1].lower()
        if eq != {want}:
            R.bad("parsing:replaced", w, "-n %s is taken for '%s' (%s)" % (sorted(eq)[0] if eq else "with another text", want, cond(p)))
        return
    if x.a[1] != "Count":
        R.bad("parsing:replaced", w, "-n becomes " + show(x)[:80])
        return
    k = agg(x, "Count")
    if k.t == "op" and k.a[0] == "pl:Ok" and is_parse(k.a[1]) and is_given(k.a[1].a[1]):
        return
    for y in walk(k):
        if is_parse(y):
            if not is_given(y.a[1]):
                if k.t == "op" and k.a[0] == "pl:Ok" and k.a[1] is y and not any(is_given(z) for z in walk(y)):
                    raise Unk("the number parsed is " + show(y)[:80])
                R.bad("parsing:replaced", w, "the number is read from something else than the text given with -n: " + show(y.a[1])[:80])
                return
            R.bad("parsing:replaced", w, "the number given with -n becomes " + show(k)[:100])
            return
    if isc(k):
        if eq:
            one = next(iter(eq))
            if one.isdigit() and int(one) == cval(k):
                return
        R.bad("parsing:replaced", w, "-n %s is taken for %s (%s)" % (sorted(eq)[0] if eq else "with another text", cval(k), cond(p)))
        return
    raise Unk("the number is " + show(k)[:100])


def is_parse(t):
    return t.t == "op" and t.a[0] == "parse"


def cond(p):
    return ", ".join("%s is %s" % (show(k)[:70], v) for k, v in p.items() if k.t not in ("next", "exit"))[:200]


# ---- the cap ----
A0, A1 = mk("param", "arg0"), mk("param", "arg1")


def capping(R):
    r = ctx.run(R, CAP)
    if r is None:
        return
    w = ctx.where(CAP)
    n0 = len(R.bads) + len(R.unks)
    n = 0
    count = op("pl:Count", op("pl:Some", A0))
    mx = op("pl:Some", A1)
    for s, v in r.outcomes():
        for p in s.paths():
            which = "None"
            kinds = {}
            for k, b in p.items():
                if k.t == "discr":
                    kinds[k.a[0]] = b
            if kinds.get(A0) == "None":
                which = "None"
            elif kinds.get(A0) == "Some":
                which = kinds.get(op("pl:Some", A0))
                if which is None:
                    which = "any"
            else:
                which = "all"
            capped = kinds.get(A1)
            n += 1
            for wh in {"any": ("Auto", "Logical", "Count"), "all": ("None", "Auto", "Logical", "Count")}.get(which, (which,)):
                for cp in ((capped,) if capped else ("None", "Some")):
                    one(R, w, p, v, wh, cp, count, mx)
    R.floor("paths of the capping", n, 1, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("capping", "%d paths: min of what was asked for and the maximum, for every order of the numbers" % n)


def cpu_atoms(*ts):
    return {y: CPUS[y.a[0][5:]] for t in ts for y in walk(t) if y.t == "op" and y.a[0][:5] == "call:" and y.a[0][5:] in CPUS}


def one(R, w, p, v, which, capped, count, mx):
    cpus = cpu_atoms(v, *p)
    atoms = [count, mx] + list(cpus)
    what = {"None": "no -n", "Auto": "-n auto", "Logical": "-n logical", "Count": "-n N"}.get(which, str(which))
    for env in grid(atoms, p, v):
        if any(env[a] < 1 for a in cpus):
            continue
        if not consistent(p, env):
            continue
        try:
            got = num(v, env)
        except NoValue as x:
            R.bad("capping:number", w, "the number of workers cannot be computed for %s: %s" % (what, x))
            return
        want = {"None": 1, "Count": env[count]}.get(which)
        if want is None:
            mine = [a for a, k in cpus.items() if k == {"Auto": "physical", "Logical": "logical"}.get(which)]
            if not mine:
                if not cpus and not contains(v, lambda y: y.t == "op" and str(y.a[0]).startswith("call:")):
                    R.bad("capping:number", w, "%s does not stand for the number of CPUs: %s" % (what, show(v)[:80]))
                    return
                if cpus:
                    R.bad("capping:number", w, "%s stands for the wrong number of CPUs: %s" % (what, show(v)[:80]))
                    return
                raise Unk("%s stands for %s" % (what, show(v)[:80]))
            want = env[mine[0]]
        lim = want if capped == "None" else min(want, env[mx])
        if got not in (lim, max(lim, 1)):
            if capped == "Some" and got > env[mx]:
                R.bad("capping:exceeds", w, "with %s and --maxprocesses %d there are %d workers (%s)" % (what, env[mx], got, show(v)[:80]))
            else:
                R.bad("capping:number", w, "with %s%s there are %d workers, not %d (%s)" % (what if which != "Count" else "-n %d" % env[count], "" if capped == "None" else " and --maxprocesses %d" % env[mx], got, lim, show(v)[:80]))
            return


# ---- the runners ----
def calls_in(e, evs, name, conds=(), loops=()):
    for x in evs:
        if x.a[0] == "loop":
            for c in e.loops[x.a[1]].conts:
                yield from calls_in(e, c.ev, name, conds + tuple(c.paths()[:1]), loops + (x.a[1],))
        elif x.a[0] == "call" and x.a[1] == name:
            yield x, conds, loops


def workers(R, key, w, t, wc, p):
    """t is the number of workers asked for, raised to one; fewer when there are fewer tests than that."""
    lens = {y for x in [t] for y in walk(x) if y.t == "op" and y.a[0] == "len"}
    atoms = [wc] + list(lens)
    for env in grid(atoms, p, t):
        if any(env[a] < 1 for a in lens) or not consistent(p, env):
            continue
        try:
            got = num(t, env)
        except NoValue:
            got = -1
        want = max(1, env[wc])
        if got != want and not (got < want and got >= 1 and any(got == env[a] for a in lens)):
            if got < 1:
                R.bad(key + ":none", w, "with %d workers asked for the tests go to %s workers (%s)" % (env[wc], got, show(t)[:80]))
            else:
                R.bad(key + ":number", w, "with %d workers asked for the tests go to %d (%s)" % (env[wc], got, show(t)[:80]))
            return


def refusals(R, key, w, r, wc):
    """Nothing is run, successfully, because of the number of workers."""
    for s, v in r.outcomes():
        if not (isc(v) and cval(v) == 0):
            continue
        for p in s.paths():
            for k, b in p.items():
                if k.t == "op" and k.a[0] in ("eq", "lt", "le") and wc in k.a[1:] and all(x is wc or isc(x) for x in k.a[1:]):
                    vals = [x for x in sorted(consts(k) | {0, 1, 2, 50}) if num(k, {wc: x}) == b]
                    if vals == [0] and not list(calls_in(r.e, s.ev, DISTRIBUTE)) and not any(x.a[0] in ("loop", "spawn") for x in s.ev):
                        R.bad(key + ":none", w, "without a worker the run succeeds and no test runs (%s)" % cond(p))
                        return


def parallel(R):
    opaque = ctx.named("spawn_worker", "wait_for_all", "group_tests_by_subproject", "make_test_paths_relative", "create_scheduler") + (DISTRIBUTE, "<scheduler::DistributionMode as std::str::FromStr>::from_str")
    r = ctx.run(R, PARALLEL, opaque=opaque)
    if r is None:
        return
    w = ctx.where(PARALLEL)
    n0 = len(R.bads) + len(R.unks)
    wc = None
    n = 0
    for s, v in r.outcomes():
        for p in s.paths():
            for ev, cs, loops in calls_in(r.e, s.ev, DISTRIBUTE):
                n += 1
                t = ev.a[2][2] if len(ev.a[2]) > 2 else None
                if t is None:
                    raise Unk("a strategy is called with " + show(ev)[:80])
                wc = next((y for y in walk(t) if y.t == "op" and y.a[0] == ".worker_count"), None)
                q = dict(p)
                for c in cs:
                    q.update(c)
                if wc is None:
                    wc = next((y for k in q for y in walk(k) if y.t == "op" and y.a[0] == ".worker_count"), None)
                    if wc is None:
                        R.bad("parallel:number", w, "a strategy is given a number of workers that does not come from the configuration: " + show(t)[:80])
                        continue
                workers(R, "parallel", w, t, wc, q)
    R.floor("calls of a strategy", n, 1, w)
    if wc is not None:
        refusals(R, "parallel", w, r, wc)
    exceeding(R, w, r)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("parallel", "%d calls of a strategy, each with the configured number raised to one" % n)


def exceeding(R, w, r):
    """Between two waits, the processes started are those of one call of a strategy."""
    SPAWN, WAIT = "worker::WorkerPool::spawn_worker", "worker::WorkerPool::wait_for_all"
    found = False
    for s, v in r.outcomes():
        for ev, cs, loops in calls_in(r.e, s.ev, SPAWN):
            outer = [L for L in loops if any(True for x in calls_in(r.e, [mk("ev", "loop", L)], DISTRIBUTE))]
            for L in outer:
                if not any(True for x in calls_in(r.e, [mk("ev", "loop", L)], WAIT)):
                    found = True
    if found:
        R.bad("parallel:subprojects", w, "the workers of all subprojects run at once: the limit holds for each subproject, not for the run")


def native(R):
    r = ctx.run(R, NATIVE, opaque=ctx.named("shard_files", "run_worker", "parse_results_file", "aggregate_results", "print_summary"))
    if r is None:
        return
    w = ctx.where(NATIVE)
    n0 = len(R.bads) + len(R.unks)
    n = 0
    wc = None
    for s, v in r.outcomes():
        for p in s.paths():
            for ev, cs, loops in calls_in(r.e, s.ev, SHARD):
                n += 1
                t = ev.a[2][1]
                wc = next((y for x in [t] + list(p) for y in walk(x) if y.t == "op" and y.a[0] == ".num_workers"), None)
                if wc is None:
                    R.bad("native:number", w, "the files are split among a number of workers that does not come from the configuration: " + show(t)[:80])
                    continue
                workers(R, "native", w, t, wc, p)
    R.floor("calls of shard_files", n, 1, w)
    if wc is not None:
        refusals(R, "native", w, r, wc)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("native", "the files are split among the configured number of workers, raised to one")


# ---- no more batches than workers ----
def counts(R):
    st = strategies(R)
    if st is None:
        return
    todo = [(str(m), f, mk("param", "arg2"), mk("param", "arg1")) for m, f in sorted(st.items(), key=str)] + [("shards", SHARD, mk("param", "arg1"), mk("param", "arg0"))]
    for name, fn, n, tests in todo:
        if fn is None:
            R.unk("batches:" + name, "the strategy is not known")
            continue
        r = ctx.run(R, fn)
        if r is None:
            continue
        w = ctx.where(fn)
        ok = True
        for s, v in r.outcomes():
            for p in s.paths():
                if any(k.t == "op" and k.a[0] == "eq" and k.a[1] is n and isc(k.a[2]) and cval(k.a[2]) == 0 and b is True for k, b in p.items()):
                    continue
                bs = batches.bounds(r.e, v)
                one_worker = any(k.t == "op" and k.a[0] == "eq" and k.a[1] is n and isc(k.a[2]) and cval(k.a[2]) == 1 and b is True for k, b in p.items())
                if any(batches.le(b, n) for b in bs) or any(isc(b) and cval(b) <= 1 for b in bs):
                    continue
                if any(bounded(b, n, p) is True for b in bs):
                    continue
                ok = False
                if any(contains(b, lambda x: x is n) for b in bs) and not any(b.t == "op" and b.a[0] == "nchunks" and b.a[2].t == "op" and b.a[2].a[0] in ("div", "max") for b in bs):
                    R.unk("batches:" + name, "the number of batches is at most " + ", ".join(show(b)[:80] for b in bs))
                else:
                    R.bad("batches:" + name, w, "the number of batches is not bounded by the number of workers: " + ", ".join(show(b)[:80] for b in bs))
                break
            if not ok:
                break
        if ok:
            R.ok("batches:" + name, "at most as many batches as workers")
    R.count("strategies", len(todo))


# ---- from the command line to the runners ----
def wiring(R):
    n = 0
    n0 = len(R.bads) + len(R.unks)
    r, ps = entry.paths(R, entry.MAIN)
    if r is None:
        return
    w = ctx.where(entry.MAIN)
    for q in ps:
        for name, args, cs in q.called(*entry.RUNNERS):
            n += 1
            if name == entry.RUNNERS[0]:
                # one process: only when one worker was asked for, or no distribution
                for p in q.conds_list:
                    if not sequential(p):
                        R.bad("wiring:sequential", w, "the tests run in one process although more workers may be asked for (%s)" % cond(p))
                        break
                continue
            g = args[0]
            f = {"runner::execute_tests_parallel": "worker_count", "native_runner::execute_native": "num_workers"}[name]
            t = dict(g.a[2]).get(f) if g.t == "agg" else None
            if t is None:
                raise Unk("the runner is configured with " + show(g)[:80])
            if not entry.is_call(t, CAP):
                calls = entry.find_calls(t, CAP)
                if not calls or isc(t):
                    R.bad("wiring:number", w, "%s gets %s as its number of workers" % (name.split("::")[-1], show(t)[:80]))
                else:
                    atoms = list(dict.fromkeys(calls))
                    for env in grid(atoms, {}, t):
                        if num(t, env) not in (env[atoms[0]], max(1, env[atoms[0]])):
                            R.bad("wiring:number", w, "%s gets another number of workers than the one determined: %s" % (name.split("::")[-1], show(t)[:80]))
                            break
                t = calls[0] if calls else None
                if t is None:
                    continue
            a, b = t.a[1], t.a[2]
            if not (a.t == "op" and a.a[0] == "pl:Ok" and entry.is_call(a.a[1], PARSE)):
                R.bad("wiring:asked", w, "the number of workers is not determined from -n: " + show(a)[:80])
            if not (b.t == "op" and b.a[0] == ".maxprocesses"):
                R.bad("wiring:maximum", w, "the number of workers is not limited by --maxprocesses: " + show(b)[:80])
    R.floor("calls of a runner", n, 3, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("wiring", "%d calls of a runner, each with the number determined from -n and --maxprocesses" % n)


def sequential(p):
    for k, b in p.items():
        if k.t == "op" and k.a[0] in ("eq", "lt", "le") and any(entry.find_calls(x, CAP) for x in k.a[1:]):
            c = next(y for x in k.a[1:] for y in entry.find_calls(x, CAP))
            try:
                if all(x <= 1 for x in sorted(consts(k) | {0, 1, 2, 50}) if num(k, {c: x}) == b):
                    return True
            except (Unk, NoValue):
                continue
        if k.t == "op" and k.a[0] == "eq" and b is True and any(x.t == "op" and x.a[0] == ".dist" for x in k.a[1:]) and any(isc(x) and str(cval(x)) == "no" for x in k.a[1:]):
            return True
        if k.t == "discr" and b == "No":
            return True
    return False
