"""C27: the runner cannot deadlock on its workers."""
from .. import ctx
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from .c16 import guard
from .c32 import calls, target

NATIVE, POOL, SINGLE = "native_runner::execute_native", "runner::execute_tests_parallel", "pytest_executor::execute_tests"
STREAMS = ("stdout", "stderr")
EVENTS = ("drop", "read", "lock", "recv")


def short(t):
    return show(t)[:70]


def thread(e, x):
    return e.thread_paths(x.a[1])


def flat(e, evs, d=0, loops=()):
    """Everything that happens on one thread, in order: (event, loops around it)."""
    for x in evs:
        yield x, loops
        if x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                yield from flat(e, c.ev, d + 1, loops + (x.a[1],))


def runs(e, evs, d=0):
    """A process is run on this thread or one it starts."""
    for x, _ in flat(e, evs):
        if x.a[0] == "exec":
            return True
        if x.a[0] == "spawn" and d < 6 and any(runs(e, v, d + 1) for _, v, _ in thread(e, x)):
            return True
    return False


# ---- the output of a process is drained ----

def piped(cmd):
    """{stream: what it is connected to}"""
    out = {"stdout": "inherit", "stderr": "inherit", "stdin": "inherit"}
    t = cmd
    while t.t == "mut":
        for o in t.a[1:]:
            if o.a[0] in out:
                v = o.a[1]
                n = str(v.a[0]).split("::")[-1] if v.t == "op" else ""
                if n in ("piped", "null", "inherit"):
                    out[o.a[0]] = n
                elif n in ("from", "into"):
                    out[o.a[0]] = "file"
                else:
                    raise Unk("a stream is connected to " + short(v))
            elif o.a[0] == "loop":
                pass
        t = t.a[0]
    return out


def stream_of(t):
    for y in walk(t):
        if y.t == "op" and y.a[0] in (".stdout", ".stderr") and contains(y.a[1], lambda z: z.t == "op" and z.a[0] == "ran"):
            yield y.a[0][1:]


def drained(e, evs, sites):
    """Every process run on this thread has its pipes emptied while it runs."""
    seq = list(flat(e, evs))
    n = 0
    for i, (x, loops) in enumerate(seq):
        if x.a[0] != "exec":
            continue
        n += 1
        how, cmd = x.a[1], x.a[2]
        p = piped(cmd)
        pipes = [k for k in STREAMS if p[k] == "piped"]
        if how == "output":
            continue
        if how == "status":
            if pipes:
                raise Bad("pipe", "a process is waited for while nothing reads its piped %s" % " and ".join(pipes))
            continue
        if p["stdin"] == "piped":
            raise Unk("a process is given an input pipe")
        if not pipes:
            continue
        read, other = [], set()
        for y, _ in seq[i + 1:]:
            if y.a[0] == "exec":
                break
            if y.a[0] == "spawn":
                for _, v, _ in thread(e, y):
                    for z, _ in flat(e, v):
                        if z.a[0] == "read":
                            other |= set(stream_of(z.a[2]))
                        elif z.a[0] == "loop":
                            other |= set(loop_stream(e, z.a[1]))
            elif y.a[0] == "read":
                new = [k for k in stream_of(y.a[2]) if k not in read]
                check_read(pipes, read, other, new)
                read += new
            elif y.a[0] == "loop":
                new = [k for k in loop_stream(e, y.a[1]) if k not in read]
                check_read(pipes, read, other, new)
                read += new
            elif y.a[0] == "childwait":
                if y.a[1] == "wait_with_output":
                    break
                if y.a[1] in ("wait", "try_wait"):
                    left = [k for k in pipes if k not in read and k not in other]
                    if left:
                        raise Bad("pipe", "a process is waited for while nothing reads its piped " + " and ".join(left))
                    break
        else:
            if not read and not other:
                # the start failed, or nothing waits
                sites.setdefault(x.a[3], False)
                continue
        sites[x.a[3]] = True
    return n


def loop_stream(e, L):
    src, st = ctx.sources(e.loops[L])
    if src is not None:
        yield from stream_of(src)


def check_read(pipes, read, other, new):
    for k in new:
        left = [q for q in pipes if q != k and q not in read and q not in other]
        if left:
            raise Bad("pipe", "a process's %s is read to its end while nothing reads its piped %s" % (k, left[0]))


# ---- all are started before any is waited for ----

def is_worker_join(e, x):
    """A wait for a thread that runs a process."""
    from ..models import resolve_handles
    try:
        hs = resolve_handles(e, x.a[1])
    except Exception:
        hs = None
    if hs:
        for h in hs:
            if h.t == "handle" and not any(runs(e, v) for _, v, _ in e.threads.get(h.a[0], [])):
                return False
    return True


def endless(e, L):
    """A loop over no list: it goes on until something happens."""
    src, st = ctx.sources(e.loops[L])
    return src is None


def started(e, evs):
    """Starts come before waits."""
    top = list(evs)
    n = 0
    waits = []
    for i, x in enumerate(top):
        sub = [(x, ())] + (list(flat(e, [x]))[1:] if x.a[0] == "loop" else [])
        sp = [(y, ls) for y, ls in sub if y.a[0] == "spawn" and any(runs(e, v) for _, v, _ in thread(e, y))]
        inner = [ls for y, ls in sp]
        jn = [(y, ls) for y, ls in sub if y.a[0] == "join" and is_worker_join(e, y) or y.a[0] == "recv" or y.a[0] == "poll" and any(endless(e, L) for L in ls if not any(L in k for k in inner))]
        n += len(sp)
        if sp and jn:
            raise Bad("serial", "a worker is waited for before the others are started")
        if sp and waits:
            raise Bad("serial", "workers are started after others were waited for")
        if jn:
            waits.append(x)
    return n


# ---- no lock is held while waiting ----

def locks(e, evs, what):
    """No wait happens between taking a lock and releasing it."""
    held = []
    n = 0
    for x, loops in flat(e, evs):
        if x.a[0] == "lock":
            n += 1
            held.append(x)
        elif x.a[0] == "drop" and any(g in str(x.a[2]) for g in ("Guard", "StdoutLock", "StderrLock")) or x.a[0] == "release":
            if held:
                held.pop()
        elif held and (x.a[0] in ("join", "recv", "childwait") or x.a[0] == "exec" and x.a[1] in ("output", "status")):
            k = held[-1].a[1]
            if "std" in k.split("::")[-1] or "Stdout" in k or "Stderr" in k:
                raise Unk("standard output is locked during a wait")
            raise Bad("lock", "%s with a lock held" % {"join": "a worker is waited for", "exec": "a process is run", "childwait": "a process is waited for"}.get(x.a[0], "something is waited for"))
    return n


def channel(e, evs):
    """Receiving until every sender is gone, with a sender kept."""
    top = list(flat(e, evs))
    for i, (x, loops) in enumerate(top):
        src = None
        if x.a[0] == "loop":
            src, st = ctx.sources(e.loops[x.a[1]])
            if src is None or not contains(src, lambda y: y.t == "op" and "mpsc" in str(y.a[0])):
                continue
        elif x.a[0] != "recv":
            continue
        before = any(y.a[0] == "drop" and "Sender" in str(y.a[2]) for y, _ in top[:i])
        after = any(y.a[0] == "drop" and "Sender" in str(y.a[2]) for y, _ in top[i + 1:])
        if src is not None and not before and after:
            raise Bad("channel", "the runner receives until every sender is gone and holds one itself")


BLOCKING = ("std::sync::Condvar::wait", "std::sync::Barrier::wait", "std::thread::park")


def odd(R, e):
    for f in e.inlined:
        for b in ctx.F()["fns"][f]["blocks"]:
            t = b.get("t") if isinstance(b, dict) else None
            p = str(t.get("f", {}).get("path", "")) if isinstance(t, dict) and isinstance(t.get("f"), dict) else ""
            for k in BLOCKING:
                if p.replace("::<", "<").split("<")[0].startswith(k):
                    raise Unk("a thread blocks in " + k)


def entry(R, fn, floor):
    r = ctx.run(R, fn, events=EVENTS)
    if r is None:
        return None
    e = r.e
    odd(R, e)
    n = m = 0
    sites = {}
    for s, v in r.outcomes():
        n += drained(e, s.ev, sites)
        m += started(e, s.ev)
        locks(e, s.ev, "main")
        channel(e, s.ev)
    threads = 0
    for tid, alts in sorted(e.threads.items()):
        for conds, evs, ret in e.thread_paths(tid):
            k = drained(e, evs, sites)
            n += k
            threads += 1
            locks(e, evs, "worker")
    if not n:
        raise Unk("no process is run")
    for x, ok in sites.items():
        if not ok:
            raise Unk("a process is started and not waited for here")
    if floor and not m:
        raise Unk("no thread is started")
    return "%d processes run, %d starts of threads, %d thread paths" % (n, m, threads)


def check(R):
    R.rule("On every path of the runners: a process with piped streams is run by something that empties both pipes at once (output, wait_with_output, or a reader thread each), never waited for or read one pipe after the other; every start of a worker thread comes before every wait for one; no lock is held while a process or thread is waited for; no channel is emptied while the receiving side keeps a sender.")
    R.assume("Command::output and wait_with_output read both pipes until the process ends, as documented")
    for key, fn, floor in (("native", NATIVE, True), ("parallel", POOL, True), ("single", SINGLE, False)):
        out = []
        if guard(R, key, fn, lambda: out.append(entry(R, fn, floor))) and out and out[0]:
            R.ok(key, out[0])
