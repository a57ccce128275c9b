"""C26: native workers never share a result file."""
from .. import ctx
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from .c16 import guard
from .c32 import calls, leaves, natural, target, LOSSY

FN = "native_runner::execute_native"
READ = "parse_results_file"
KEPT = {"into_path", "keep", "forget", "leak", "disable_cleanup"}


def short(t):
    return show(t)[:80]


def is_dir(t):
    """The temporary directory made for the run."""
    t = target(t)
    while t.t == "op" and t.a[0] in ("pl:Ok", "pl:Some", "tdpath") or t.t == "op" and len(t.a) == 2 and str(t.a[0]).split("::")[-1] in KEPT or t.t == "op" and len(t.a) == 2 and (calls(t, "path") or calls(t, "as_ref")):
        t = target(t.a[1])
    return t.t == "op" and t.a[0] == "tempdir"


class Exec:
    """A worker process: its command, and the loops and thread around its start."""

    def __init__(self, cmd, loops, conds):
        self.cmd, self.loops, self.conds = cmd, loops, conds


def execs(e, evs, loops=(), conds=(), d=0):
    for x in evs:
        if x.a[0] == "exec":
            yield Exec(x.a[2], loops, conds)
        elif x.a[0] == "spawn":
            for c2, evs2, ret in e.thread_paths(x.a[1]):
                yield from execs(e, evs2, loops, conds + (c2,), d + 1)
        elif x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                yield from execs(e, c.ev, loops + (x.a[1],), conds + (c.conds,), d + 1)


def out_of(cmd):
    """The value of --out."""
    if cmd.t != "mut":
        raise Unk("a command " + short(cmd))
    ops = cmd.a[1:]
    for i, o in enumerate(ops):
        if o.a[0] == "arg" and isc(o.a[1]) and str(cval(o.a[1])) == "--out":
            if i + 1 < len(ops) and ops[i + 1].a[0] == "arg":
                return ops[i + 1].a[1]
            raise Unk("the value of --out is not an argument")
    raise Unk("a worker is given no --out")


class File:
    """How a result file is named: the directory, the name with one number in it, and what counts the number."""

    def __init__(self, e, t, used):
        self.e = e
        t = target(t)
        self.list = self.L = None
        if t.t == "elem" and t.a[0].t == "seq" and not looks_like_range(t.a[0].a[0]):
            # the file at the worker's place in a list of files
            self.list, self.L = t.a[0].a[0], t.a[1]
            ls, ops = leaves(e, self.list)
            for o in ops:
                if o.a[0] not in ("sort", "reverse"):
                    raise Unk("the result files go through " + o.a[0])
            if len(ls) != 1 or len(ls[0][1]) != 1:
                raise Unk("the result files are listed in several ways")
            v, chain = ls[0]
            self.where = chain[0][0]
            t = target(v)
            if t.t == "elem":
                # a copy of a list
                inner = File(e, t, used)
                self.__dict__.update({k: v for k, v in inner.__dict__.items() if k not in ("list", "L")})
                return
        else:
            i = next((y for y in walk(t) if picked(y)), None)
            if i is not None:
                self.picked(e, i, used)
                return
        self.name(t)

    def picked(self, e, i, used):
        """One of a list, by a number."""
        k = i.a[2]
        if isc(k):
            raise Bad("shared", "every worker is given the result file of place %s" % cval(k))
        if k.t == "op" and k.a[0] in ("rem", "div", "shr", "bitand", "min", "saturating_sub"):
            raise Bad("shared", "workers of different numbers are given the result file of place " + short(k))
        raise Unk("the result file is " + short(i))

    def name(self, t):
        if t.t != "op" or t.a[0] != "pjoin" or len(t.a) != 3:
            if calls(t, "temp_dir") or contains(t, lambda y: calls(y, "temp_dir")):
                raise Bad("private", "the result file is not in a directory of this run's own: " + short(t))
            raise Unk("a result file is " + short(t))
        base, name = t.a[1], t.a[2]
        if not is_dir(base):
            if contains(base, lambda y: is_dir(y)):
                raise Unk("a result file is in " + short(base))
            raise Bad("private", "the result file is not in the temporary directory of the run: " + short(base))
        self.base = base
        self.text = name
        self.nums = [y for y in pieces(name) if not isc(y)]
        if not self.nums:
            raise Bad("shared", "every worker is given the result file %s" % short(name))

    def distinct(self, loops):
        """Different workers are given different names."""
        loops = tuple(loops) + ((self.where,) if self.list is not None else ())
        for n in self.nums:
            n0 = n
            if n.t == "op" and n.a[0] in ("add",) and any(isc(x) for x in n.a[1:]):
                n = next(x for x in n.a[1:] if not isc(x))
            if counts(n, loops):
                # not beside another number without a separator
                ps = pieces(self.text)
                i = [k for k, y in enumerate(ps) if y is n0][0]
                for j in (i - 1, i + 1):
                    if 0 <= j < len(ps) and not isc(ps[j]):
                        raise Unk("a name with two numbers side by side")
                return True
            if n.t == "op" and n.a[0] in ("rem", "div", "shr", "bitand", "min", "saturating_sub"):
                raise Bad("shared", "workers of different numbers are given the result file " + short(self.text))
            if n.t == "op" and n.a[0] == "len":
                raise Bad("shared", "the result file's name holds a length: " + short(self.text))
            if any(calls(n, f) for f in ("now", "id", "elapsed", "as_millis", "as_nanos", "as_secs")):
                raise Bad("shared", "workers can be given the same result file: " + short(self.text))
        if all(n.t == "op" and str(n.a[0]).startswith(".") and n.a[1].t == "param" or n.t == "param" for n in self.nums):
            raise Bad("shared", "every worker is given the result file " + short(self.text))
        raise Unk("a result file's name is " + short(self.text))


def looks_like_range(t):
    return t.t == "range" or t.t == "op" and str(t.a[0]).startswith("range")


def picked(y):
    return y.t == "op" and y.a[0] in ("index", "nth", "get") and len(y.a) == 3


def pieces(t):
    if t.t == "op" and t.a[0] in ("cat", "fmt") or t.t in ("cat", "fmt"):
        out = []
        for x in (t.a[1:] if t.t == "op" else t.a):
            out += pieces(x) if isinstance(x, N) else []
        return out
    if t.t == "op" and t.a[0] in ("to_string", "display", "ptext") and len(t.a) == 2:
        return pieces(t.a[1])
    if t.t == "fa" and len(t.a) == 2 and isinstance(t.a[1], N):
        # the same radix for every worker
        return pieces(t.a[1])
    return [t]


def counts(n, loops):
    """A number that differs in every round of the loop."""
    if n.t in ("idx", "idxf") and any(x in loops for x in n.a):
        return True
    if n.t == "elem" and n.a[1] in loops:
        s = show(n.a[0])
        return s.startswith("range") or s.startswith("seq[range") or "range" in s.split("(")[0]
    return False


def flat(e, evs, d=0, top=None):
    """Everything that happens, in order: (event, place of the top-level event it is part of)."""
    for i, x in enumerate(evs):
        k = i if top is None else top
        yield x, k
        if x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                for y, _ in flat(e, c.ev, d + 1, k):
                    yield y, k


def names(R, r, s):
    e = r.e
    n = 0
    first = None
    for x in execs(e, s.ev):
        n += 1
        f = File(e, out_of(x.cmd), x)
        if not x.loops:
            raise Unk("a worker is started outside of a loop")
        if f.list is not None:
            if f.L not in x.loops:
                if f.L in e.loops:
                    raise Bad("shared", "a worker is given the result files of others")
                raise Unk("a worker's result file is chosen outside of its loop")
            if len(x.loops) > 1 and f.L != x.loops[-1]:
                raise Bad("shared", "workers started in an inner loop share a result file")
        elif len(x.loops) > 1:
            raise Unk("workers are started in nested loops")
        f.distinct(x.loops)
        if first is None:
            first = (f, x)
    return n, first


def reading(e, s, first):
    """The files read are those the workers were given."""
    f, x = first
    got = 0
    for y, k in flat(e, s.ev):
        if y.a[0] != "call" or str(y.a[1]).split("::")[-1] != READ:
            continue
        got += 1
        t = target(y.a[2][0])
        if t.t == "elem" and t.a[0].t == "seq" and f.list is not None and t.a[0].a[0] is f.list:
            L = t.a[1]
            src, st = ctx.sources(e.loops[L])
            lost = [str(z.t) for z in st or () if isinstance(z, N) and z.t in LOSSY]
            if lost:
                raise Bad("unread", "not every result file is read (%s)" % lost[0])
            continue
        g = File(e, t, None)
        if same_name(f, g):
            continue
        raise Bad("unread", "the result file read is %s, the one written %s" % (short(g.text), short(f.text)))
    if not got:
        raise Unk("no result file is read")
    return got


def same_name(f, g):
    a, b = pieces(f.text), pieces(g.text)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isc(x) != isc(y) or isc(x) and cval(x) != cval(y):
            return False
        if not isc(x) and (x.t == "op") != (y.t == "op"):
            return False
    return True


def life(e, s):
    """The directory is removed, after everything that needs it."""
    evs = list(flat(e, s.ev))
    made = [k for x, k in evs if x.a[0] == "tempdir"]
    if not made:
        raise Unk("no temporary directory is made")
    drops = [k for x, k in evs if x.a[0] == "drop" and contains(x.a[1], lambda y: y.t == "op" and y.a[0] == "tempdir") and "TempDir" in str(x.a[2])]
    needs = [(x, k) for x, k in evs if x.a[0] in ("spawn", "join", "exec") or x.a[0] == "call" and str(x.a[1]).split("::")[-1] == READ]
    for x, k in evs:
        if x.a[0] == "exit":
            raise Bad("left", "the program exits before the temporary directory is removed")
    if not drops:
        kept = [y for x, k in evs for t in x.a if isinstance(t, N) for y in walk(t) if y.t == "op" and str(y.a[0]).split("::")[-1] in KEPT]
        kept += [x.a[1] for x, k in evs if x.a[0] == "kept" and contains(x.a[2], is_dir)]
        kept += sorted(x for x in e.unmodelled if x.startswith("TempDir::") and x.split("::")[-1] in KEPT)
        if kept:
            raise Bad("left", "the temporary directory is not removed (%s)" % str(kept[0].a[0] if isinstance(kept[0], N) else kept[0]).split("::")[-1])
        raise Unk("the temporary directory is not seen to be removed")
    for x, k in needs:
        if k > min(drops):
            what = {"spawn": "workers are started", "join": "workers are waited for", "exec": "workers run"}.get(x.a[0], "the results are read")
            raise Bad("early", "the temporary directory is removed before " + what)


def run(R):
    op_ = ctx.named(READ, "aggregate_results", "print_summary")
    if not ctx.named(READ):
        raise Unk("no " + READ)
    r = ctx.run(R, FN, opaque=op_, events=("drop",) + ctx.named(READ))
    if r is None:
        return None
    n = 0
    for s, v in r.outcomes():
        k, first = names(R, r, s)
        if not first:
            continue
        n += 1
        reading(r.e, s, first)
        life(r.e, s)
    if not n:
        raise Unk("no worker is started")
    return "%d paths that start workers" % n


def check(R):
    R.rule("On every path of the native runner that starts workers: the value of --out of every worker is a path in the temporary directory made on that path, whose name holds the worker's own number, whole; the files read afterwards are the same list; the directory is dropped after the last wait and the last reading, and not kept.")
    out = []
    if guard(R, "files", FN, lambda: out.append(run(R))) and out and out[0]:
        R.ok("files", out[0])
