"""C09: a native run succeeds only if every worker delivered and every test passed."""
from .. import ctx
from ..flow import World, Flow
from ..terms import *
from . import c04
from .c04 import is_call

FN = "native_runner::execute_native"


def has_file(t):
    return contains(t, lambda x: x.t == "op" and x.a[0].startswith("call:") and x.a[0].split("::")[-1] in ("open", "read_to_string", "read"))


def opened(k):
    """discr of opening or reading a file."""
    return k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0].startswith("call:") and any(k.a[0].a[0].endswith(x) for x in ("File::open", "fs::read_to_string", "fs::read", "OpenOptions::open"))


def exists(k):
    return k.t == "op" and k.a[0].startswith("call:") and k.a[0].split("::")[-1] in ("exists", "is_file")


def meta(k):
    return k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0].startswith("call:") and k.a[0].a[0].split("::")[-1] in ("metadata", "symlink_metadata", "try_exists", "canonicalize")


def line(k):
    """discr of a line read from a reader."""
    return k.t == "discr" and k.a[0].t in ("elem", "nth") and contains(k.a[0].a[0], lambda x: x.t == "iolines" or (x.t == "op" and x.a[0].endswith(("::lines", "iolines"))))


def parsed(k):
    return k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0].startswith("call:") and k.a[0].a[0].split("::")[-1] in ("from_str", "from_slice", "from_reader", "from_value")


def outcome(k):
    """eq(<record>.outcome, 'x'): the text it is compared with."""
    if k.t == "op" and k.a[0] == "eq" and isc(k.a[2]) and isinstance(cval(k.a[2]), str) and k.a[1].t == "op" and k.a[1].a[0] == ".outcome":
        return cval(k.a[2])


def dropped(e):
    """Paths of an iteration that reads a record and keeps nothing of it: [loop, conditions]."""
    for L, rec in e.loops.items():
        for c in rec.conts:
            keeps = any(isinstance(u, N) and u.t == "mut" and any(o.a[0] in ("push", "insert", "extend", "push_front", "vinsert") for o in u.a[1:]) for u in c.upd.values())
            if keeps or any(x.a[0] == "print" for x in c.ev):
                continue
            for p in c.paths():
                if any(parsed(k) and v == "Ok" for k, v in p.items()) and not any(changed(rec, pk, u) for pk, u in c.upd.items()):
                    yield L, p


def changed(rec, pk, u):
    return isinstance(u, N) and u is not rec.lv.get(pk) and u.t not in ("iter",)


def outcomes_of(p):
    """Which outcomes a record can have on a path."""
    return [o for o in ("passed", "failed", "error", "skipped", "\0other") if all((outcome(k) == o) == v for k, v in p.items() if outcome(k) is not None)]


def worlds():
    out = [w for w in c04.worlds() if w.name in ("cannot-start", "signal", "panic")]

    def crash(k):
        if c04.worlds()[2].facts(k) is not None:
            return c04.worlds()[2].facts(k)
        # a status other than 0 and 1
        if k.t == "op" and k.a[0] == "eq" and isc(k.a[2]) and cval(k.a[2]) in (0, 1) and not isinstance(cval(k.a[2]), bool) and contains(k.a[1], lambda x: is_call(x, "ExitStatus::code")):
            return False
    out.append(World("crash", crash, "a worker that exits with a status other than 0 and 1",
                     excludes=lambda t: (0, 1) if t.t == "op" and t.a[0] == "pl:Some" and is_call(t.a[1], "ExitStatus::code") else None))

    def missing(k):
        if exists(k):
            return False
        if opened(k) or meta(k):
            return "Err"
    out.append(World("missing-file", missing, "a result file that does not exist"))

    def unreadable(k):
        if exists(k):
            return True
        if opened(k):
            return "Err"
    out.append(World("unreadable-file", unreadable, "a result file that cannot be opened", opened))

    def ioerr(k):
        if exists(k):
            return True
        if opened(k):
            return "Ok"
        if line(k):
            return "Err"
    out.append(World("read-error", ioerr, "a result file that cannot be read to its end", line))

    def badline(k):
        if exists(k):
            return True
        if opened(k) or line(k):
            return "Ok"
        if parsed(k):
            return "Err"
    out.append(World("bad-line", badline, "a line of a result file that is not a valid record", parsed))
    for name, what in (("failed", "a failed test"), ("error", "an errored test"), ("\0other", "a record with an unknown outcome")):
        def oc(k, name=name):
            if exists(k):
                return True
            if opened(k) or line(k) or parsed(k):
                return "Ok"
            o = outcome(k)
            if o is not None:
                return o == name
        out.append(World("outcome-" + name.strip("\0"), oc, what, lambda k: parsed(k) or outcome(k) is not None))
    return out


def check(R):
    R.rule("Each worker fault (not started, killed, crashed, panicked supervisor; result file missing, unreadable, cut short or malformed) and each bad "
           "outcome (failed, error, unknown) is followed from the condition that observes it through every loop to the exit code of execute_native, which must be non-zero.")
    R.assume("std and serde_json behave as documented")
    r = ctx.run(R, FN)
    if r is None:
        return
    w = ctx.where(FN)
    R.floor("worker start sites", c04.n_exec(r), 1, w)
    for wd in worlds():
        fl = Flow(r.e, wd)
        fl.needs_start = True
        res = fl.returns(r.rets)
        if not c04.observes(r, wd, fl):
            if wd.name in ("missing-file", "read-error", "unreadable-file") or fl.opaque:
                R.unk(wd.name, "the way the result files are read is not one the rule recognises" if not fl.opaque else "thread results not followed")
            else:
                R.bad(wd.name + ":ignored", w, "nothing observes %s: the exit code cannot depend on it" % wd.what)
            continue
        bad = [x for x in res if x[2] == "bad"]
        if bad and not fl.opaque:
            R.bad(wd.name, w, "%s can leave the exit code zero: returns %s" % (wd.what, show(bad[0][1])[:160]))
        elif res or fl.opaque:
            R.unk(wd.name, "returns " + ", ".join(show(x[1])[:100] for x in res[:3]) + (" (thread results not followed)" if fl.opaque else ""))
        else:
            R.ok(wd.name, "no return path compatible with %s returns zero (%d loops carry it)" % (wd.what, len(fl.seen)))
    lost = {o for L, p in dropped(r.e) for o in outcomes_of(p)} & {"failed", "error", "\0other"}
    if lost:
        R.bad("dropped", w, "a record (%s) that was read from a results file can be dropped" % ", ".join(sorted(x.strip("\0") for x in lost)))
    c04.entry(R, "pyo3::main_cli_with_args", c04.RUNNERS[2:], "main")
