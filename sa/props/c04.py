"""C04: a fault of any pytest process makes the run's exit code non-zero."""
from .. import ctx
from ..flow import World, Flow, NZ, POS
from ..terms import *

OPAQUE = ("scheduler::create_scheduler", "<scheduler::DistributionMode as std::str::FromStr>::from_str")


def is_call(t, suffix):
    return t.t == "op" and t.a[0].startswith("call:") and t.a[0].endswith(suffix)


def worlds(code_bad=None):
    """The process faults, as truths of the branch conditions that observe them. code_bad(term) tells which conditions on
    the exit status of a process that did run are false for a bad status."""
    def ran(k):
        return k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] in ("ran", "childwait", "spawned")

    def joined(k):
        return k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "joined"

    def code(k):
        return is_call(k, "ExitStatus::code")

    def has_status(t):
        return contains(t, lambda x: x.t == "op" and x.a[0] in ("ran", "childwait"))

    def nostart(k):
        if ran(k):
            return "Err"
        if joined(k):
            return "Ok"

    def signal(k):
        if ran(k) or joined(k):
            return "Ok"
        if k.t == "discr" and code(k.a[0]):
            return "None"
        if is_call(k, "ExitStatus::success"):
            return False

    def status(k):
        if ran(k) or joined(k):
            return "Ok"
        if k.t == "discr" and code(k.a[0]):
            return "Some"
        if is_call(k, "ExitStatus::success"):
            return False
        if k.t == "op" and k.a[0] == "eq" and k.a[1].t == "op" and k.a[1].a[0] == "pl:Some" and code(k.a[1].a[1]) and isc(k.a[2]) and cval(k.a[2]) == 0:
            return False

    def panic(k):
        if joined(k):
            return "Err"
    return [World("cannot-start", nostart, "a process that cannot be started"),
            World("signal", signal, "a process killed by a signal"),
            World("status", status, "a process that exits with a non-zero status",
                  excludes=lambda t: (0,) if t.t == "op" and t.a[0] == "pl:Some" and is_call(t.a[1], "ExitStatus::code") else None),
            World("panic", panic, "a supervising thread that panics")]


def decide(R, r, fn, want, tag):
    """want: worlds that must be observed somewhere (by name)."""
    w = ctx.where(fn)
    for wd in worlds():
        fl = Flow(r.e, wd)
        res = fl.returns(r.rets)
        seen = fl.seen or any(wd.facts(k) is not None for s, _ in r.rets for c in s.paths() for k in c)
        key = "%s:%s" % (tag, wd.name)
        sees = observes(r, wd, fl)
        if wd.name in want and not sees:
            if fl.opaque:
                R.unk(key, "the results of the threads could not be followed")
            else:
                R.bad(key + ":ignored", w, "nothing observes %s: the exit code cannot depend on it" % wd.what)
            continue
        if not sees:
            continue
        bad = [x for x in res if x[2] == "bad"]
        unk = [x for x in res if x[2] == "unk"]
        if bad and not fl.opaque:
            conds, v, _ = bad[0]
            R.bad(key, w, "%s can leave the exit code zero: returns %s" % (wd.what, show(v)[:160]))
        elif bad or unk or fl.opaque:
            R.unk(key, "returns " + ", ".join(show(x[1])[:100] for x in (bad + unk)[:3]) + (" (thread results not followed)" if fl.opaque else ""))
        else:
            R.ok(key, "no return path compatible with the fault returns zero (%d loops carry it)" % len(fl.seen))


RUNNERS = ("pytest_executor::execute_tests", "runner::execute_tests_parallel", "native_runner::execute_native")
MAIN_OPAQUE = ("execute_tests", "execute_tests_parallel", "execute_native", "collect_tests_rust", "collect_test_files", "read_pytest_config",
               "group_tests_by_subproject", "make_test_paths_relative", "display_collection_results", "determine_worker_count", "get_num_processes",
               "validate_dist", "get_current_dir", "get_python_executable")


def is_runner(t, names=RUNNERS):
    return t.t == "op" and t.a[0].startswith("call:") and t.a[0][5:] in names


def entry(R, fn, names, tag):
    """The program's entry passes a runner's non-zero code on."""
    r = ctx.run(R, fn, opaque=ctx.named(*MAIN_OPAQUE))
    if r is None:
        return
    w = ctx.where(fn)

    def facts(k):
        if k.t == "op" and k.a[0] == "eq" and is_runner(k.a[1], names) and isc(k.a[2]) and cval(k.a[2]) == 0:
            return False
    start = lambda e: e.t == "ev" and e.a[0] == "call" and e.a[1] in names
    n = set()
    for e in r.e.all_events():
        if start(e):
            n.add(e.a[1])
    if not n:
        R.unk(tag + ":runner-calls", "no call to a runner was found in " + fn)
        return
    fl = Flow(r.e, World("runner-failed", facts, "a runner that returns a non-zero code"), start)
    bad = [x for x in fl.returns(r.outcomes()) if x[2] in ("bad", "unk")]
    # the code of the one call itself
    bad = [x for x in bad if not is_runner(x[1], names)]
    real = [x for x in bad if x[2] == "bad"]
    if real:
        R.bad(tag + ":exit-code", w, "a non-zero code of %s can end as exit code %s" % (", ".join(sorted(n)), show(real[0][1])[:120]))
    elif bad:
        R.unk(tag + ":exit-code", "exit code " + show(bad[0][1])[:160])
    else:
        R.ok(tag + ":exit-code", "every path that calls %s ends with its code, or with a sticky non-zero code" % ", ".join(sorted(n)))


def observes(r, wd, fl):
    """Some condition in the function, its loops or its threads observes the fault."""
    def any_(conds):
        return any(sees(k, wd) for k in conds)
    if fl.seen:
        return True
    if any(any_(c) for s, _ in r.rets for c in s.paths()):
        return True
    if any(any_(c) for rec in r.e.loops.values() for cont in rec.conts for c in cont.paths()):
        return True
    if any(any_(conds) for alts in r.e.threads.values() for conds, _, _ in alts):
        return True
    return any(sees(k, wd) for _, v in r.rets for k in walk(v))


def sees(k, wd):
    v = wd.facts(k) if wd.sees(k) else None
    if v is None and k.t == "op":
        v = wd.facts(op("eq", k, C(0, "i32")))
        if v is not None and not (k.a[0] == "pl:Some"):
            v = None
    if v is None:
        return False
    return not (k.t == "discr" and v == "Ok")


def check(R):
    R.rule("Each process fault (not started, killed by a signal, non-zero status, panicked supervisor) is followed from the condition that observes it "
           "through every loop and thread to the returned exit code: an iteration that sees it must make an accumulator non-zero that no other iteration "
           "can clear, or leave the loop on a failing path.")
    R.assume("std::process and std::thread behave as documented; a process exit status is in 0..255 on this platform")
    r = ctx.run(R, "runner::execute_tests_parallel", opaque=OPAQUE)
    if r:
        R.floor("process start sites reached from execute_tests_parallel", n_exec(r), 1, ctx.where("runner::execute_tests_parallel"))
        decide(R, r, "runner::execute_tests_parallel", ("cannot-start", "signal", "status", "panic"), "parallel")
    r = ctx.run(R, "pytest_executor::execute_tests")
    if r:
        R.floor("process start sites reached from execute_tests", n_exec(r), 1, ctx.where("pytest_executor::execute_tests"))
        decide(R, r, "pytest_executor::execute_tests", ("cannot-start", "signal", "status"), "sequential")
    entry(R, "pyo3::main_cli_with_args", RUNNERS[:2], "main")
    entry(R, "pyo3::run_tests", RUNNERS[:2], "run_tests")


def n_exec(r):
    n = set()

    def evs(es):
        for e in es:
            if e.t == "ev" and e.a[0] == "exec":
                n.add(e.a[-1])
    for s, _ in r.rets:
        evs(s.ev)
    for alts in r.e.threads.values():
        for _, ev, _ in alts:
            evs(ev)
    for rec in r.e.loops.values():
        for c in rec.conts:
            evs(c.ev)
    return len(n)
