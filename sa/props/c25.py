"""C25: the same project gives the same plan on every run."""
import re
from .. import ctx, mir, pyorder, pyx
from ..pyc import Unk
from ..rows import Bad
from ..terms import *
from . import c04
from .c16 import guard

ITERS = {"iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "extract_if", "difference", "union", "intersection", "symmetric_difference"}
CLOCKS = ("std::time::SystemTime::now", "std::time::Instant::now", "std::process::id", "std::thread::current", "RandomState", "rand::", "fastrand", "getrandom", "uuid")
RUNNERS = ("native_runner::execute_native", "runner::execute_tests_parallel", "pytest_executor::execute_tests")
EVENTS = ("print", "recv", "lock")
WHOLE = {"cmp", "partial_cmp", "path", "to_str", "to_string_lossy", "as_os_str", "as_path", "to_path_buf", "nodeid", "id", "clone", "to_owned", "as_str", "to_string", "lossy", "text", "as_bytes", "into_path", "then_with", "reverse", "pl:Ok", "pl:Some", "unwrap_or_default", "as_ref"}
PARTIAL = {"len", "file_name", "file_stem", "extension", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "depth", "count", "parent", "starts_with", "ends_with", "is_dir", "is_file", "metadata", "is_empty", "rem", "div", "has_sep", "contains", "before", "after"}


def base(ty):
    """The outer type of a value."""
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty or "").strip()
    return ty.split("<")[0]


def hashed(ty):
    return base(ty).split("::")[-1] in ("HashMap", "HashSet")


def short(t):
    return show(t)[:90]


def root(f):
    return f.split("::{closure")[0]


def calls():
    for f, d in ctx.F()["fns"].items():
        for b in d["blocks"]:
            t = b.get("t") if isinstance(b, dict) else None
            if isinstance(t, dict) and t.get("k") == "call" and isinstance(t.get("f"), dict) and t["f"].get("path"):
                yield f, t


def unordered_site(t):
    """What makes the order of this call's result arbitrary."""
    p = t["f"]["path"]
    last = p.split("::")[-1].split("<")[0]
    tys = t.get("argtys") or []
    if p in ("std::fs::read_dir", "std::path::Path::read_dir") or p.endswith("Path::read_dir"):
        return "directory entries"
    if last in ITERS and tys and hashed(tys[0]):
        return "a hash table"
    if last in ITERS and tys and base(tys[0]) == "walkdir::WalkDir":
        return "directory entries"
    if any(hashed(x) for x in tys[1:]) and last in ("extend", "chain", "zip", "append", "extend_from_slice", "eq", "cmp"):
        return None if hashed(tys[0]) or last == "eq" else "a hash table"
    if last in ("from_iter", "from") and tys and hashed(tys[0]) and not hashed(t.get("dty", "")) and "BTree" not in t.get("dty", ""):
        return "a hash table"
    if last in ("recv", "try_recv", "recv_timeout", "iter", "try_iter", "into_iter") and tys and "mpsc::Receiver" in base(tys[0]):
        return "a channel"
    return None


class Orders:
    """Which values of one run depend on an arbitrary order."""

    def __init__(self, e, made=()):
        self.e = e
        self.made = {"call:" + f for f in made}      # functions whose result is in an arbitrary order
        self.why = {}          # loop -> reason
        self.memo = {}
        changed = True
        while changed:
            changed = False
            self.memo = {}
            for L, rec in e.loops.items():
                if L in self.why:
                    continue
                src, st = ctx.sources(rec)
                if src is None:
                    continue
                y = self.src(src) or next((self.src(z.a[0].a[0]) for z in st or () if isinstance(z, N) and z.t in ("zip", "chain") and isinstance(z.a[0], N) and z.a[0].t == "iter" and self.src(z.a[0].a[0])), None)
                if y and not (isinstance(st, tuple) and any(isinstance(z, N) and z.t == "sorted" for z in st)):
                    self.why[L] = y
                    changed = True

    def src(self, s):
        """The reason why a source gives its elements in an arbitrary order."""
        if not isinstance(s, N):
            return None
        if s.t in ("map_items", "map_values", "map_keys", "mvals", "mseq") and "hash" in s.a:
            return "a hash table"
        if s.t == "setitems":
            return "a hash table"
        if s.t == "of:WalkDir::into_iter":
            return None if self.walk_sorted(s.a[0]) else "directory entries"
        if s.t in ("seq", "mseq"):
            v = s.a[0] if s.t == "seq" else s.a[1]
            x = v
            while x.t == "op" and x.a[0] in ("pl:Ok", "pl:Some") and len(x.a) == 2:
                x = x.a[1]
            if x.t == "op" and str(x.a[0]).split("::")[-1] == "read_dir":
                return "directory entries"
            if contains(x, lambda y: y.t == "op" and "mpsc::" in str(y.a[0]) and str(y.a[0]).split("::")[-1] in ("channel", "sync_channel")) and x.t == "op" and x.a[0] == ".1":
                return "a channel"
            if x.t == "op" and str(x.a[0]).startswith("call:") and "WalkDir" in str(x.a[0]):
                return None if self.walk_sorted(x) else "directory entries"
            return self.of(v)
        if s.t in ("range", "rangei"):
            return None
        for y in s.a:
            if isinstance(y, N):
                r = self.of(y)
                if r:
                    return r
        return None

    def walk_sorted(self, t):
        while isinstance(t, N) and t.t == "op":
            last = str(t.a[0]).split("::")[-1]
            if last == "sort_by_file_name":
                return True
            if last in ("sort_by", "sort_by_key"):
                raise Unk("the walk is sorted by " + short(t.a[-1]))
            if len(t.a) < 2 or not isinstance(t.a[1], N):
                return False
            t = t.a[1]
        return False

    def effect(self, L, pk):
        """The variable's order depends on the order of the rounds: False, or the reason."""
        rec = self.e.loops[L]
        for c in rec.conts:
            u = c.upd.get(pk)
            if u is None or u is rec.lv.get(pk):
                continue
            r = self.update(rec, L, pk, u)
            if r:
                return r
        return None

    def update(self, rec, L, pk, u):
        lv = rec.lv.get(pk)
        other = lambda t: contains(t, lambda y: y.t == "lv" and y.a[0] == L and y.a[1] is not pk and y.a[1] != pk)
        own = lambda t: contains(t, lambda y: y.t == "lv" and y.a[0] == L and y.a[1] == pk)
        if u.t == "op" and u.a[0] in ("add", "or", "and", "bitor", "bitand", "bitxor", "max", "min", "mul") and any(x is lv for x in u.a[1:]):
            rest = [x for x in u.a[1:] if x is not lv]
            return None if not any(own(x) or other(x) for x in rest) else "a running value"
        if isc(u):
            return None
        if u.t == "mut" and u.a[0] is lv:
            for o in u.a[1:]:
                n = o.a[0]
                vals = [x for x in o.a[1:] if isinstance(x, N)]
                if n in ("insert", "remove"):
                    if any(own(x) or other(x) for x in vals):
                        return "a running value"
                    continue
                if n == "loop":
                    if o.a[1] in self.e.loops:
                        r = self.effect(o.a[1], o.a[2])
                        if r:
                            return r
                    continue
                return "a list"
            return None
        if u.t in ("iter",):
            return None
        return "the last round" if contains(u, lambda y: y.t in ("elem", "idx", "next") and y.a and L in y.a) or own(u) else None

    def total(self, o):
        """A sort that leaves nothing to the order it started from."""
        name, keys = o.a[1], o.a[2] if len(o.a) > 2 else ()
        if name in ("slice::sort", "slice::sort_unstable"):
            return True
        keys = [k for k in keys if isinstance(k, N)]
        if not keys:
            raise Unk("a sort by " + name)
        if any(injective(k) for k in keys):
            return True
        part = [n for k in keys for n in partial(k)]
        if part:
            return False
        raise Unk("a sort by " + short(keys[0]))

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = ""
            r = self.memo[t] = self.go(t) or ""
        return r or None

    def go(self, t):
        if t.t == "coll":
            return self.src(t.a[0])
        if t.t == "mut":
            r = self.of(t.a[0])
            for o in t.a[1:]:
                n = o.a[0]
                if n == "sort":
                    if r and self.total(o):
                        r = None
                elif n == "loop":
                    if o.a[1] in self.why:
                        if self.effect(o.a[1], o.a[2]):
                            r = self.why[o.a[1]]
                    else:
                        r = r or self.inner(o.a[1], o.a[2])
                elif n in ("dedup",):
                    continue
                else:
                    for x in o.a[1:]:
                        if isinstance(x, N) and not isinstance(x, str):
                            r = r or self.of(x)
            return r
        if t.t in ("fold", "lv"):
            L, pk = t.a[0], t.a[1]
            if L in self.why:
                return self.why[L] if self.effect(L, pk) else None
            if t.t == "fold":
                init = self.e.loops[L].init.get(pk)
                return (self.of(init) if init is not None else None) or self.inner(L, pk)
            return None
        if t.t in ("elem", "nextof", "idx", "nth") or t.t == "op" and t.a[0] == "nth":
            for y in t.a:
                if isinstance(y, N):
                    r = self.src(y) if y.t != "iter" else self.src(y.a[0])
                    if r:
                        return r
            return None
        if t.t == "op":
            if t.a[0] in self.made:
                return "what %s gives" % t.a[0][5:].split("::")[-1]
            if t.a[0] in ("len", "is_empty", "contains", "count", "in"):
                return None
            if str(t.a[0]).startswith("pl:Err"):
                return None
        if t.t == "clo":
            return None
        if t.t == "agg" and t.a[1] == "Err":
            return None
        return self.deep(t.a)

    def deep(self, xs):
        for y in xs:
            if isinstance(y, N):
                r = self.of(y)
            elif isinstance(y, tuple):
                r = self.deep(y)
            else:
                r = None
            if r:
                return r
        return None

    def inner(self, L, pk):
        """What an orderly loop adds that depends on another order."""
        for c in self.e.loops[L].conts:
            u = c.upd.get(pk)
            if u is None:
                continue
            for y in walk(u):
                if y.t == "mut" and y.a[0].t == "lv":
                    for o in y.a[1:]:
                        for x in o.a[1:]:
                            if isinstance(x, N):
                                r = self.outside(x, L)
                                if r:
                                    return r
        return None

    def outside(self, x, L):
        return self.of(x)


def injective(k):
    """A sort key that is different for different elements: the element, its path or id, or the key of a table's entry."""
    while True:
        if k.t == "elem":
            return True
        if k.t == "tup":
            return any(injective(x) for x in k.a)
        if k.t == "agg":
            return any(injective(x) for _, x in k.a[2])
        if k.t != "op" or len(k.a) < 2 or not isinstance(k.a[1], N):
            return False
        n = str(k.a[0]).split("::")[-1]
        if n in (".0", "nth", "first", "index") or n in WHOLE or n in ("some", "Some", "then", "chain"):
            k = k.a[1]
            continue
        if n in ("lt", "le", "eq"):
            return injective(k.a[1])
        return False


def partial(k):
    for y in walk_key(k):
        n = str(y.a[0]).split("::")[-1] if y.t == "op" else str(y.t).split("::")[-1]
        if n in PARTIAL or n in ("components", "chars", "fold"):
            yield n


def walk_key(k):
    if isinstance(k, tuple):
        for z in k:
            yield from walk_key(z)
    elif isinstance(k, N):
        yield k
        if k.t not in ("elem", "mut", "coll"):
            for y in k.a:
                yield from walk_key(y)


def printed(evs):
    return [x for x in evs if x.a[0] == "print"]


def where(e, evs, o, inside=None, d=0):
    """Effects whose order, or whose content, depends on an arbitrary order."""
    for x in evs:
        k = x.a[0]
        if k == "loop":
            L = x.a[1]
            w = o.why.get(L) or inside
            for c in e.loops[L].conts:
                yield from where(e, c.ev, o, w, d + 1)
            continue
        if k not in ("exec", "print", "spawn", "call"):
            continue
        if k == "call":
            r = o.deep([y for y in x.a[2] if isinstance(y, N)])
            if r and "call:" + x.a[1] not in o.made:
                yield k, r, x
            continue
        if inside:
            yield k, inside, x
            continue
        if k == "spawn":
            continue
        vals = [y for y in x.a[1:] if isinstance(y, N) and y.t != "site"]
        r = o.deep(vals)
        if r:
            yield k, r, x


WORDS = {"exec": "the command line of a process", "print": "what is printed", "spawn": "the order workers are started in", "call": "what another function is given"}


def look(fn, made=()):
    """(what leaves the function in an arbitrary order or None, sources seen)."""
    class Silent:
        def __init__(self):
            self.said = []

        def __getattr__(self, n):
            return lambda *a, **k: self.said.append(a)
    R = Silent()
    caps = list(mir.CAPS)
    r = ctx.run(R, fn, events=EVENTS, opaque=ctx.named(*c04.MAIN_OPAQUE)) if fn.startswith("pyo3::") else ctx.run(R, fn, events=EVENTS)
    mir.CAPS[:] = caps
    if r is None:
        raise Unk("%s cannot be read: %s" % (fn, str(R.said[:1])[:80]))
    e = r.e
    o = Orders(e, made)
    outs = r.outcomes() if hasattr(r, "outcomes") else r.rets
    for s, v in outs:
        for k, why, x in where(e, s.ev, o):
            raise Bad("order", "%s depends on the order of %s: %s" % (WORDS[k], why, short(x.a[2]) if k in ("exec", "print") else short(x) if k == "spawn" else x.a[1]))
    for tid in e.threads:
        for conds, evs, ret in e.thread_paths(tid):
            for k, why, x in where(e, evs, o):
                raise Bad("order", "%s depends on the order of %s" % (WORDS[k], why))
    left = None
    for s, v in outs:
        r1 = o.of(v)
        if r1:
            left = ("returns", r1, short(v))
        for pk, v in s.env.items():
            if isinstance(v, N) and "param" in str(pk):
                r1 = o.of(v)
                if r1:
                    left = ("hands back", r1, short(v))
    return left, o, e


def callers(fn):
    return sorted({root(f) for f, t in calls() if (t["f"].get("res") or t["f"]["path"]) == fn and root(f) != fn})


def decide(fn, what, seen=(), need=True):
    """Follows an arbitrary order from the function it arises in to where it is made definite."""
    left, o, e = look(fn, seen)
    if need and not o.why:
        if what == "a hash table" or what == "a channel" or what == "directory entries":
            # the iteration may be consumed by something that does not care
            pass
    if left is None:
        return 1
    up = [c for c in callers(fn) if c not in seen]
    inl = [c for c in up]
    if not inl:
        raise Bad("order", "%s %s in the order of %s: %s" % (fn, left[0], left[1], left[2]))
    n = 1
    for c in inl:
        n += decide(c, what, seen + (fn,), False)
    return n


def rust(R):
    found = {}
    n = 0
    for f, t in calls():
        n += 1
        w = unordered_site(t)
        if w:
            found.setdefault((root(f), w), 0)
            found[(root(f), w)] += 1
    R.floor("calls looked at", n, 400, "src")
    for (f, w), k in sorted(found.items()):
        out = []
        if guard(R, "%s:%s" % (f.split("::", 1)[-1] if not f.startswith("<") else f, w), f, lambda: out.append(decide(f, w))) and out:
            R.ok("%s:%s" % (f, w), "the order of %s (%d sites) does not reach anything beyond a sort, %d functions" % (w, k, out[0]))
    if not found:
        R.ok("orders", "no hash table, directory or channel is iterated in %d calls" % n)


# ---- completion order, clocks ----

def expand(e, t, seen):
    """All terms a value is made of, through the loops that fill it."""
    for y in walk(t):
        yield y
        if y.t == "o" and y.a[0] == "loop" or y.t in ("fold", "lv"):
            L, pk = (y.a[1], y.a[2]) if y.t == "o" else y.a[:2]
            if (L, pk) in seen or L not in e.loops:
                continue
            seen.add((L, pk))
            for c in e.loops[L].conts:
                u = c.upd.get(pk)
                if u is not None:
                    yield from expand(e, u, seen)
                # where a list is extended inside another
                for q, w in c.upd.items():
                    if q != pk and str(q)[:12] == str(pk)[:12]:
                        yield from expand(e, w, seen)


def clock(t):
    return t.t == "op" and str(t.a[0]).startswith("call:") and any(c in t.a[0] for c in CLOCKS)


def clocks(R):
    found = {}
    for f, t in calls():
        p = str(t["f"].get("res") or "") + " " + t["f"]["path"]
        for c in CLOCKS:
            if c in p:
                found.setdefault(root(f), set()).add(t["f"]["path"])
    for f, ps in sorted(found.items()):
        def one():
            todo, seen, n = [f], set(), 0
            while todo:
                g = todo.pop()
                if g in seen:
                    continue
                seen.add(g)
                left, o, e = look(g)
                n += 1
                up = False
                for s, v in e_outs(e, g):
                    if any(clock(y) for y in expand(e, v, set())):
                        up = True
                        if "Vec<" in ctx.F()["fns"][g].get("ret", "Vec<") and v.t in ("mut", "coll", "fold"):
                            raise Bad("clock", "%s returns a list that depends on %s" % (g, sorted(ps)[0]))
                    for x in execs(e, s.ev):
                        if any(clock(y) for y in expand(e, x.a[2], set())):
                            raise Unk("a command line depends on " + sorted(ps)[0])
                if up:
                    todo += callers(g)
            return n
        out = []
        if guard(R, "clock:" + f, f, lambda: out.append(one())) and out:
            R.ok("clock:" + f, "%s does not reach a list or a command line" % ", ".join(sorted(ps)))


def e_outs(e, g):
    r = ctx.run(Quiet(), g, events=EVENTS)
    if r is None:
        return
    for s, v in r.outcomes():
        e.loops = r.e.loops
        yield s, v


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def execs(e, evs, d=0):
    for x in evs:
        if x.a[0] == "exec":
            yield x
        elif x.a[0] == "loop" and d < 10:
            for c in e.loops[x.a[1]].conts:
                yield from execs(e, c.ev, d + 1)


PICK = {"position", "find", "find_map", "partition", "retain", "filter", "filter_map", "sort_by_key", "max_by_key", "min_by_key", "rposition", "extract_if", "take_while", "skip_while", "sort_by"}
GROW = {"push", "push_back", "push_str", "extend", "insert", "append", "push_front"}


def closures_of(t):
    """The closures given to a call."""
    for x in t["f"].get("tcl") or []:
        for y in x if isinstance(x, list) else [x]:
            yield y


def ready(R):
    """Lists filled in the order workers end."""
    fns = ctx.F()["fns"]
    polls = {f for f, t in calls() if t["f"]["path"].split("::")[-1] in ("is_finished", "try_wait", "try_recv", "recv_timeout")}
    sorts = {root(f) for f, t in calls() if t["f"]["path"].split("::")[-1].startswith("sort")}
    n = 0
    for f, t in calls():
        last = t["f"]["path"].split("::")[-1]
        if last in PICK and any(c in polls for c in closures_of(t)):
            n += 1
            if root(f) in sorts:
                raise Unk("workers are picked as they end")
            raise Bad("ready", "%s picks workers in the order they end (%s)" % (root(f), last))
        if last == "spawn" and "thread" in t["f"]["path"]:
            for c in closures_of(t):
                if c not in fns:
                    continue
                inside = [x for g, x in calls() if g == c or g.startswith(c + "::{closure")]
                if any(x["f"]["path"].split("::")[-1] == "lock" and "Mutex" in x["f"]["path"] for x in inside) and \
                   any(x["f"]["path"].split("::")[-1] in GROW and any(w in x["f"]["path"] for w in ("vec::Vec", "string::String", "VecDeque")) or x["f"]["path"].split("::")[-1] == "extend" for x in inside):
                    n += 1
                    if root(f) in sorts:
                        raise Unk("threads fill a shared list that is perhaps sorted")
                    raise Bad("shared", "the threads %s starts fill a list in the order they get to it, and nothing sorts it" % root(f))
    if polls:
        for f in polls:
            if root(f) == f:
                raise Unk("%s asks which worker has ended" % f)
    return n


def completion(R):
    for fn in RUNNERS:
        def one():
            left, o, e = look(fn)
            if left and "int" not in left[2][:3]:
                raise Bad("order", "%s %s in the order of %s: %s" % (fn, left[0], left[1], left[2]))
            return len(o.why)
        out = []
        if guard(R, "runner:" + fn, fn, lambda: out.append(one())) and out:
            R.ok("runner:" + fn, "processes are started and results shown in a fixed order (%d arbitrary orders inside)" % out[0])


def python(R):
    n, bad = 0, {}
    for name, m in sorted(pyx.modules().items()):
        R.count("python modules scanned", 1)
        for kind, why, fn in pyorder.scan(m.tree):
            n += 1
            key = "python:%s:%s" % (name, fn)
            if kind == "bad":
                if key not in bad:
                    R.bad(key, "%s:%s" % (name, fn), "the order depends on %s" % why)
                bad[key] = 1
            elif kind == "unk":
                R.unk(key, why)
    if not pyx.modules():
        R.unk("python", "there is no Python module")
    elif not bad:
        R.ok("python", "%d iterations over sets or directories, none decides an order" % n)


def check(R):
    R.rule("At every call of the crate that yields elements in an arbitrary order (hash tables, directory listings, walks, channels), whatever is gathered from it is independent of the order of the rounds, or is sorted by a key that leaves nothing open before it is returned by a public function, printed, or given to a process.")
    R.assume("which of several errors is reported first may depend on the order of a directory's entries")
    rust(R)
    completion(R)
    clocks(R)
    python(R)
    out = []
    if guard(R, "ready", "src", lambda: out.append(ready(R))):
        R.ok("ready", "no list is filled in the order workers end")
