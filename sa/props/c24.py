"""C24: no user input makes the program panic."""
import re
from .. import ctx, mir, panics, witness
from ..panics import *

# results that depend on the world or on the text given, and can be an error or absent
WORLD = re.compile(r"(^std::fs::|File::(open|create|options|metadata)$|OpenOptions::open$|path::Path::(canonicalize|metadata|read_dir|symlink_metadata|read_link)$|process::Command::(output|status|spawn)$"
                   r"|Child::(wait|wait_with_output|try_wait|kill)$|env::(current_dir|var|var_os|current_exe|home_dir|set_current_dir)$|tempfile::|io::(Read|BufRead|Write|Seek)::|ExitStatus::code$|DirEntry::"
                   r"|ExitStatusExt::signal$|read_to_string$|read_line$|glob::glob$|WalkDir)")
LEXICAL = re.compile(r"(^toml::(\w+::)*(from_str|Value::get|Value::as_\w+|Map::get|Map<.*>::get)$|^serde_json::(\w+::)*Value::(get|as_\w+)$|str::(parse|from_utf8|strip_prefix|strip_suffix|split_once|rsplit_once|find|rfind|get)$|<impl str>::(parse|strip_prefix|strip_suffix|split_once|rsplit_once|find|rfind|get)$|String::from_utf8$"
                     r"|(Path|OsStr|OsString|PathBuf)::(to_str|into_string|parent|file_name|file_stem|extension|strip_prefix)$|Regex::new$|RegexBuilder::build$|glob::Pattern::new$|^serde_json::(de::)?from_|^toml::(de::)?from_|FromStr::from_str$"
                     r"|char::to_digit$|<impl char>::to_digit$|::checked_\w+$|clap::Parser::try_parse_from$|::captures$|Captures\w*(::|<.*>::)(get|name)$|TryFrom::try_from$|HashMap::get$|slice::(first|last|get)$)")
SAFE = re.compile(r"(Mutex::lock$|RwLock::(read|write)$|JoinHandle::join$|fmt::Write::|Mutex::into_inner$)")
NAMED = re.compile(r"^(std::path::Path::|std::path::PathBuf::)(parent|file_name|file_stem)$")
ALLOC = {"Vec::with_capacity": 0, "String::with_capacity": 0, "vec::from_elem": 1, "Vec::resize": 1, "Vec::reserve": 1, "String::reserve": 1, "str::repeat": 1, "slice::repeat": 1, "HashMap::with_capacity": 0,
         "HashSet::with_capacity": 0, "VecDeque::with_capacity": 0}
NONZERO = {"slice::chunks", "slice::chunks_mut", "slice::chunks_exact", "slice::rchunks", "slice::windows", "Iterator::step_by", "usize::div_ceil", "usize::next_multiple_of"}
INSIDE = {"Vec::remove", "Vec::swap_remove"}
UPTO = {"Vec::insert", "Vec::split_off", "slice::split_at", "slice::split_at_mut", "VecDeque::insert", "VecDeque::split_off", "slice::rotate_left", "slice::rotate_right"}
RANGES = {"Vec::drain", "Vec::splice", "VecDeque::drain", "Vec::extend_from_within"}
TEXT = {"str::split_at", "str::split_at_mut", "String::split_off", "String::insert", "String::insert_str", "String::truncate", "String::remove"}
TEXTRANGE = {"String::drain", "String::replace_range"}
# wrappers the pyo3 macros generate: they hand over whatever Python gave
GLUE = re.compile(r"__pyfunction_|_PYO3_DEF|__pymethod|::trampoline")
# what the library offers: anything can be given to it
API = re.compile(r"^(config::read_pytest_config|native_runner::(collect_test_files|execute_native)|pytest_executor::execute_tests|runner::(execute_tests_parallel|PytestRunner::new)|<scheduler::\w+ as scheduler::Scheduler>::distribute_tests"
                 r"|subproject::(group_tests_by_subproject|make_test_paths_relative)|utils::determine_worker_count|cli::Args::\w+|<scheduler::\w+ as std::str::FromStr>::from_str|collection_integration::(collect_tests_rust|display_collection_results)"
                 r"|collection::utils::glob_match|python_discovery::pattern::matches|worker::WorkerPool::\w+|pyo3::(main_cli_with_args|run_tests))$")
MAYBE = "maybe"
# functions left out of a first function that is too large to follow with them; each is followed on its own
HEAVY = ("collect_tests_rust", "expand_cases", "parse_single_decorator", "extract_literal", "extract_argvalues", "combine_and_expand_specs", "execute_tests_parallel", "execute_native", "execute_tests",
         "collect_test_files", "display_collection_results", "read_pytest_config", "visit_expr", "glob_match", "load_module", "discover_tests")


def about(view, k):
    """What a condition is about."""
    if k.t == "exit":
        rec = view.e.loops.get(k.a[0])
        try:
            return subjects(ctx.sources(rec)[0])
        except Exception:
            return set()
    return subjects(k)


def external(k, given=()):
    """A condition that is about the state of the world, not about the text or number in it."""
    if k.t == "op" and fn_of(k) and re.match(r"std::path::Path::(exists|is_file|is_dir|try_exists)$", fn_of(k)):
        return True
    if k.t != "discr":
        return False
    x = k.a[0]
    return x.t == "op" and bool(fn_of(x) and WORLD.search(fn_of(x)) or x.a[0] in ("ran", "tempdir") or x.a[0] == "pl:Ok" and x.a[1].t == "op" and x.a[1].a[0] == "joined")


class S2(Site):
    def __init__(self, view, conds):
        super().__init__(view, conds)
        self.conds, self.given = conds, ()

    def related(self, bases):
        xs = set()
        for x in bases:
            xs |= subjects(x)
        given = {y for x in bases for y in walk(x)}
        return [k for k, b in self.unread if not structural(k, b, given) and not external(k, given) and touch(k, xs, given)]

    def plain(self):
        """The state itself is the problem: can its conditions hold together?"""
        try:
            ts = list(dict.fromkeys(f[0] for f in self.facts))
            for env in self.envs(*ts):
                if self.impossible(env):
                    continue
                if any(weak(a) for a in self.atoms):
                    return MAYBE
                ks = [k for k, b in self.unread if not external(k) and not structural(k, b, self.given)]
                if any(weak(k) for k in ks):
                    return MAYBE
                of = [about(self.v, k) for k in ks] + ([set().union(*(subjects(a) for a in self.atoms))] if self.atoms else [])
                for i, a in enumerate(of):
                    if any(a & b for b in of[i + 1:]):
                        return MAYBE
                return "the conditions leading there can hold together"
        except Odd:
            return MAYBE
        return None


def boundary(s, x, pos):
    """Is this byte position of text x between characters? True, False or 'maybe'."""
    v = s.v
    c = text(x)
    p = v.norm(pos)
    ln = op("len", x)
    known = []
    for k, b in s.conds.items():
        if b is True and k.t == "op" and len(k.a) >= 2 and k.a[1] is x:
            known.append((last(k), k.a[2] if len(k.a) > 2 else None))
    if any(n == "is_ascii" or n == "is_char_boundary" and v.norm(q) is p for n, q in known):
        return True
    if isc(p):
        n = cval(p)
        if n == 0 or c is not None and 0 <= n <= len(c.encode()) and ok_at(c, n):
            return True
        if any(m == "starts_with" and text(q) is not None and ok_at(text(q), n) for m, q in known):
            return True
    if p is ln or p is v.length(x):
        return True
    if p.t == "op":
        o = p.a[0]
        if o in ("find", "rfind") and p.a[1] is x:
            return True
        if o == "len" and any(m == "starts_with" and q is p.a[1] for m, q in known):
            return True
        if o == "add":
            for a, b in ((p.a[1], p.a[2]), (p.a[2], p.a[1])):
                if a.t == "op" and a.a[0] in ("find", "rfind") and a.a[1] is x:
                    w = text(a.a[2])
                    if isc(b) and w is not None and ok_at(w, cval(b)) or b is v.length(a.a[2]):
                        return True
        if o == "sub" and p.a[1] is ln:
            k = p.a[2]
            for m, q in known:
                if m == "ends_with":
                    w = text(q)
                    if isc(k) and w is not None and ok_at(w, len(w.encode()) - cval(k)) or k is v.length(q):
                        return True
        if o in ("min", "max"):
            rs = [boundary(s, x, y) for y in p.a[1:]]
            if all(r is True for r in rs):
                return True
            if MAYBE in rs:
                return MAYBE
    if any(y.t == "op" and re.search(r"char_indices|char_boundary|match_indices|len_utf8", str(y.a[0])) or y.t == "of" for y in walk(p)):
        return MAYBE
    if weak(p) or weak(x) or not subjects(x) or s.related([x]):
        return MAYBE
    return False


def ok_at(w, n):
    b = w.encode()
    if not 0 <= n <= len(b):
        return False
    try:
        b[:n].decode()
        return True
    except UnicodeDecodeError:
        return False


def unwrapped(s, v, kind):
    """A value taken out of an Option or a Result."""
    good = ("Err",) if kind.endswith("_err") else ("Some", "Ok")
    if v.t == "agg" and v.a[1] in ("Some", "None", "Ok", "Err"):
        return None if v.a[1] in good else s.plain()
    d = s.conds.get(mk("discr", v))
    if d in ("Some", "None", "Ok", "Err"):
        return None if d in good else s.plain()
    p = fn_of(v) if v.t == "op" else None
    if v.t == "op" and v.a[0] in ("ran", "tempdir"):
        return "%s can fail" % {"ran": "running a program", "tempdir": "making a directory"}[v.a[0]]
    if v.t == "op" and v.a[0] == "parse":
        p = "str::parse"
    if p:
        if SAFE.search(p):
            return None
        if WORLD.search(p):
            return "%s can fail" % last(v)
        if LEXICAL.search(p):
            args = [a for a in v.a[1:] if isinstance(a, N)]
            if args and all(isc(a) for a in args[:1]):
                return None
            if NAMED.match(p) and args[0].t == "op" and last(args[0]) == "join" and text(args[0].a[-1]) not in (None, "", "/", ".."):
                return None
            pre = {"strip_prefix": "starts_with", "strip_suffix": "ends_with"}.get(last(v))
            for k, b in s.conds.items():
                if pre and b is True and k.t == "op" and last(k) == pre and tuple(k.a[1:]) == tuple(v.a[1:]):
                    return None
            if any(weak(a) or not subjects(a) and not isc(a) for a in args[:1]) or s.related(args):
                return MAYBE
            return "%s has no result for every %s" % (last(v), show(args[0])[:60] if args else "input")
        return MAYBE
    if v.t in ("param",) or subjects(v) == {v}:
        return MAYBE if s.related([v]) else "%s can be absent" % show(v)[:60]
    return MAYBE


def shape(argtys, i=0):
    t = (argtys or [""])[i] if len(argtys or []) > i else ""
    t = re.sub(r"^(&('\w+ )?(mut )?)+", "", t)
    return t


def judge(view, kind, ops, conds, ty, types=None):
    """None: cannot panic; 'maybe'; or how it can."""
    r = judged(view, kind, ops, conds, ty)
    if r == MAYBE:
        r = witness.search(view, kind, ops, conds, types or {}, external) or MAYBE
    return r


def judged(view, kind, ops, conds, ty):
    panics.CUR, panics.STATE = view, conds
    s = S2(view, conds)
    s.given = {y for x in ops if isinstance(x, (N, list)) for z in (x if isinstance(x, list) else [x]) if isinstance(z, N) for y in walk(z)}
    N_ = view.norm
    if kind == "other" or kind.startswith("overflow"):
        if kind != "overflow Sub":
            return None
        if re.search(r"\b[iu]size\b|\bu\d+\b", ty or "usize") is None or re.search(r"\bi(8|16|32|64|128|size)\b", ty or ""):
            return None
        v = ops[0]
        if v.t != "op" or len(v.a) < 4:
            return MAYBE
        a, b = N_(v.a[2]), N_(v.a[3])
        return s.can(lambda e: value(a, e) < value(b, e), a, b)
    if kind in ("bounds", "div0", "rem0") or kind.startswith(("bounds", "div", "rem")) and len(ops) == 2:
        c, exp = N_(ops[0]), ops[1]
        if isc(c):
            return None if bool(cval(c)) == exp else s.plain()
        return s.can(lambda e: value(c, e) != exp, c)
    args, f, argtys = ops
    if kind == "panic":
        return s.plain()
    if kind in ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err"):
        return unwrapped(s, args[0], kind)
    if kind in ("Index::index", "IndexMut::index_mut"):
        sh = shape(argtys)
        x, i = args
        if sh in ("str", "std::string::String"):
            return cut(s, x, i)
        if "Map<" in sh:
            if s.conds.get(op("contains", x, i)) is True:
                return None
            return MAYBE if weak(x) or s.related([x, i]) else "the key may be missing"
        if sh.startswith("[") or sh.startswith("std::vec::Vec<") or sh.startswith("std::collections::VecDeque<"):
            if "Range" in shape(argtys, 1):
                return ends(s, x, i)
            n, j = N_(op("len", x)), N_(i)
            return s.can(lambda e: value(j, e) >= value(n, e), j, n)
        if "toml::" in sh:
            return MAYBE if s.related([x]) else "the key may be missing"
        return MAYBE
    if kind in INSIDE or kind in UPTO:
        n, j = N_(op("len", args[0])), N_(args[1])
        return s.can(lambda e: value(j, e) >= value(n, e) + (kind in UPTO), j, n)
    if kind in RANGES:
        return ends(s, args[0], args[1])
    if kind in NONZERO:
        n = N_(args[1])
        return s.can(lambda e: value(n, e) == 0, n)
    if kind in ALLOC:
        return huge(s, N_(args[ALLOC[kind]]))
    if kind in TEXT:
        n, j = N_(op("len", args[0])), N_(args[1])
        r = s.can(lambda e: value(j, e) > value(n, e), j, n)
        return r or whole(boundary(s, args[0], args[1]))
    if kind in TEXTRANGE:
        return cut(s, args[0], args[1])
    if kind in ("slice::swap", "VecDeque::swap"):
        n, i, j = (N_(x) for x in (op("len", args[0]), args[1], args[2]))
        return s.can(lambda e: max(value(i, e), value(j, e)) >= value(n, e), i, j, n)
    if kind == "Ord::clamp":
        a, b = N_(args[1]), N_(args[2])
        return s.can(lambda e: value(a, e) > value(b, e), a, b)
    if kind in ("env::args", "env::vars"):
        return "an argument or variable need not be text"
    if kind.startswith("Duration::"):
        x = args[0]
        while x.t == "op" and x.a[0] in ("div", "mul") and isc(x.a[2]):
            x = x.a[1]
        if x.t == "fold" and sums(x.a[0], x.a[1]):
            return "the number of seconds can be negative or not a number"
        return MAYBE if isc(args[0]) or weak(args[0]) or not subjects(args[0]) or s.related(args) else "the number of seconds can be negative or not a number"
    if kind in ("Sub::sub", "SubAssign::sub_assign"):
        if shape(argtys) not in ("usize", "u64", "u32", "u16", "u8", "u128"):
            return MAYBE
        a, b = N_(args[0]), N_(args[1])
        return s.can(lambda e: value(a, e) < value(b, e), a, b)
    if kind in ("Div::div", "Rem::rem", "DivAssign::div_assign", "RemAssign::rem_assign"):
        if re.match(r"f(32|64)", shape(argtys)):
            return None
        n = N_(args[1])
        return s.can(lambda e: value(n, e) == 0, n)
    return MAYBE


def sums(L, pk, d=0):
    """Whether a loop adds numbers from outside to a value."""
    rec = panics.CUR.e.loops.get(L)
    for c in rec.conts if rec is not None and d < 4 else ():
        u = c.upd.get(pk)
        if u is not None and u.t == "fold" and sums(u.a[0], u.a[1], d + 1):
            return True
        if u is not None and u.t == "op" and u.a[0] in ("add", "fadd") and u.a[1].t == "lv" and subjects(u.a[2]) == {u.a[2]} and free(u.a[2]):
            return True
    return False


def huge(s, n):
    """More room asked for than there can be."""
    if isc(n):
        return None
    lens = lambda e: all(e[a] < 1 << 40 for a in s.atoms if a.t == "op" and a.a[0] == "len" or a.t in ("idx",) or a.t == "op" and a.a[0] in ("find", "rfind"))
    return s.can(lambda e: lens(e) and value(n, e) > 1 << 45, n, big=True)


def whole(b):
    return None if b is True else MAYBE if b == MAYBE else "the cut can fall inside a character"


def ends(s, x, r):
    """A range of a sequence: start <= end <= length."""
    n = s.v.norm(op("len", x))
    try:
        a, b = (s.v.norm(y) for y in s.v.range(r, n))
    except Odd:
        return MAYBE
    return s.can(lambda e: value(a, e) > value(b, e) or value(b, e) > value(n, e), a, b, n) or sub_ok(s, a, b)


def sub_ok(s, *ts):
    return None


def cut(s, x, r):
    """A range of a text."""
    got = ends(s, x, r)
    if got:
        return got
    a, b = s.v.range(r, s.v.norm(op("len", x)))
    for p in (a, b):
        w = whole(boundary(s, x, p))
        if w:
            return w
    return None


def put(t, m, memo=None):
    """A term with the parameters replaced, and fields of what is now known looked up."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not t.a:
        return t
    def go(x):
        return put(x, m, memo) if isinstance(x, N) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
    a = tuple(go(x) for x in t.a)
    if t.t == "op" and isinstance(a[0], str) and a[0].startswith(".") and len(a) == 2 and a[1].t == "agg":
        f = dict(a[1].a[2])
        if a[0][1:] in f:
            memo[t] = f[a[0][1:]]
            return memo[t]
    memo[t] = rebuild(t.t, a) if a != t.a else t
    return memo[t]


def blur(t):
    """A term whose parts that depend on a loop of the caller are unknown."""
    if t.t == "agg":
        return mk("agg", t.a[0], t.a[1], tuple((k, blur(v)) for k, v in t.a[2]))
    if any(y.t in ("lv", "fold", "elem", "idx", "next", "exit") for y in walk(t)):
        return mk("fold", "caller", show(t)[:40])
    return t


def expand(conds, groups, cap=48):
    """The alternatives of a merged state; None when there are too many."""
    n = 1
    for g in groups:
        n *= max(1, len(g))
    if n > cap:
        return None
    return mir.dnf(conds, groups, cap)


def sites():
    """Every construct of the crate that can panic: {(function, block): (kind, place)}."""
    out = {}
    from .. import models as M
    for f, d in ctx.F()["fns"].items():
        for i, b in enumerate(d["blocks"]):
            t = b.get("t") if isinstance(b, dict) else None
            if not isinstance(t, dict):
                continue
            if t["k"] == "assert" and t["msg"] != "other":
                out[(f, i)] = (t["msg"], t.get("sp", ""), t)
            elif t["k"] == "call" and isinstance(t.get("f"), dict) and t["f"].get("path"):
                sh = mir.short(t["f"]["path"])
                if sh in M.RISKY or "panicking::" in t["f"]["path"]:
                    out[(f, i)] = (sh if sh in M.RISKY else "panic", t.get("sp", ""), t)
    return out


class Panics:
    def __init__(self, R):
        self.R, self.runs, self.callers_, self.logs = R, {}, {}, {}
        self.sites = sites()

    def root(self, f):
        return f.split("::{closure")[0]

    def callers(self, f):
        """The functions that mention f."""
        if not self.callers_:
            self.text = {g: json.dumps(d["blocks"]) for g, d in ctx.F()["fns"].items()}
        if f not in self.callers_:
            names = [f]
            m = re.match(r"<(.+) as ([\w:]+)(<.*>)?>::(\w+)$", f)
            if m:
                names.append(m.group(2) + "::" + m.group(4))
            rx = re.compile("|".join(r'(?<![\w:])' + re.escape(n) + r'(?![\w:])' for n in names))
            self.callers_[f] = sorted({self.root(g) for g, t in self.text.items() if rx.search(t) and self.root(g) != f and not GLUE.search(g)})
        return self.callers_[f]

    def run(self, f, chain=()):
        """The risks reached from function f: {site: verdict}, and the functions followed (those of the chain in any case)."""
        f0, f = f, (f, tuple(sorted(c for c in chain if c.split("::")[-1] in HEAVY)))
        if f[1] and self.runs.get((f0, ())) and set(f[1]) <= self.runs[(f0, ())][1]:
            f = (f0, ())
        if f not in self.runs:
            self.runs[f] = None
            r = None
            big = tuple(g for g, d in ctx.F()["fns"].items() if len(d["blocks"]) > 40 and "{closure" not in g and g not in chain)
            for opaque, steps in (((), 60000), (ctx.named(*HEAVY), 120000), (big, 120000)):
                try:
                    r = ctx.Run(f0, risks=True, opaque=tuple(o for o in opaque if o != f0 and o not in f[1]), steps=steps)
                    break
                except (mir.TooComplex, RecursionError, KeyError):
                    pass
            if r is None:
                return None
            view = View(r.e)
            types = {mk("param", "arg%d" % i): t for i, t in enumerate(ctx.F()["fns"][f0]["locals"][1:1 + ctx.F()["fns"][f0].get("argc", 12)])}
            got, why = {}, {}
            done = {}
            log = list(r.e.rlog)
            for L, rec in r.e.loops.items():
                log += self.grown(rec, L)
            self.logs[f] = view, log
            for site, kind, ops, conds, groups in log:
                if kind == "enter":
                    continue
                key = (site, kind, tuple(tuple(x) if isinstance(x, list) else x if isinstance(x, (N, bool)) else None for x in ops), frozenset(conds.items()), groups)
                if key in done:
                    continue
                done[key] = 1
                t = self.sites.get(site, (None, None, None))[2]
                ty = ""
                if t is not None and t["k"] == "assert":
                    ty = self.type_of(site, t)
                alts = expand(conds, groups)
                for c in alts if alts is not None else [conds]:
                    j = judge(view, kind, ops, c, ty, types)
                    if j and alts is None:
                        j = MAYBE
                    if j and (site not in got or got[site] == MAYBE or got[site] is None):
                        got[site] = j
                    got.setdefault(site, None)
            self.runs[f] = got, set(r.e.inlined)
            self.R.count("functions analysed", len(r.e.inlined))
        return self.runs[f]

    def grown(self, rec, L):
        """A loop that collects something for each number of a range asks for that much room."""
        try:
            src, stages = ctx.sources(rec)
        except Exception:
            return []
        if src is None or src.t != "range" or any(st.t in ("filter", "take", "take_while", "skip_while", "filter_map", "map_while", "step_by") for st in stages or ()):
            return []
        if len(rec.exits) > 1 or not any(ops and any(any(y.t == "o" and y.a[0] == "push" for y in o) for o in ops) for ops in rec.ops.values()):
            return []
        key = rec.key
        at = (key[2], key[3]) if key[0] == "consume" else (key[0], key[1])
        return [(at, "Vec::with_capacity", ([op("saturating_sub", src.a[1], src.a[0])], None, None), dict(rec.entry_conds), getattr(rec, "entry_groups", ()))]

    def type_of(self, site, t):
        try:
            o = t["o"]
            pl = o.get("p") if isinstance(o, dict) else o
            l = pl["l"] if isinstance(pl, dict) else pl[0] if isinstance(pl, list) else pl
            return ctx.F()["fns"][site[0]]["locals"][l]
        except Exception:
            return ""

    def through(self, site, g, f):
        """The site as reached from a call of g in f, when g is too large to follow there: the arguments are put in place of g's parameters."""
        at = [k for k in self.runs if k[0] == f and self.runs[k]]
        if not at or not self.runs.get((g, ())):
            return MAYBE
        view, log = self.logs[(g, ())]
        worst, n = None, 0
        mine = [x for x in log if x[0] == site and x[1] != "enter"]
        for _, kind, ops, conds, groups in mine:
            pass
        for _, kind, (args, callee), cc, cg in [x for x in self.logs[at[0]][1] if x[1] == "enter"]:
            if callee != g:
                continue
            n += 1
            if any(y.t in ("lv", "fold", "elem", "idx", "next", "exit") for a in args for y in walk(a)):
                # loops of the caller have no meaning in the callee
                args = [a if not any(y.t in ("lv", "fold", "elem", "idx", "next", "exit") for y in walk(a)) else blur(a) for a in args]
            m = {mk("param", "arg%d" % i): a for i, a in enumerate(args)}
            callers = expand(cc, cg)
            for c0 in callers if callers is not None else [cc]:
                c0 = {k: b for k, b in c0.items() if not any(y.t in ("lv", "fold", "elem", "idx", "next", "exit") for y in walk(k))}
                for _, kind, ops, conds, groups in mine:
                    for c in expand(conds, groups) or [conds]:
                        both = dict(c0)
                        for k, b in c.items():
                            both[put(k, m)] = b
                        o2 = tuple([put(y, m) if isinstance(y, N) else y for y in x] if isinstance(x, list) else put(x, m) if isinstance(x, N) else x for x in ops)
                        t = self.sites.get(site, (None, None, None))[2]
                        j = judge(view, kind, o2, both, self.type_of(site, t) if t is not None and t["k"] == "assert" else "")
                        if j and j != MAYBE and callers is not None:
                            return j
                        worst = worst or j
        return worst if n else MAYBE

    def verdict(self, site, f, seen=()):
        """The site as reached from f: None, 'maybe' or how it panics."""
        r = self.run(f, seen)
        if r is None:
            r = self.run(f)
        if r is None:
            return MAYBE
        got, inl = r
        if site[0] not in inl:
            return self.through(site, seen[-1], f) if seen else MAYBE
        v = got.get(site)
        if v is None or v == MAYBE or API.search(f):
            return v
        cs = [c for c in self.callers(f) if c not in seen and "tests::" not in c]
        if not cs or len(seen) > 5:
            return v
        worst = None
        for c in cs:
            w = self.verdict(site, c, seen + (f,))
            if w and w != MAYBE:
                return w
            worst = worst or w
        return worst


def check(R):
    R.rule("Every construct of the crate that can panic (unwrap, expect, indexing, cutting text, subtraction, division, chunk sizes, room asked for, explicit panics) is listed from the MIR; the conditions on each path to it must "
           "exclude the panic, in the function alone or in every caller. A panic the conditions allow for some input is a violation; what the conditions leave open is undecided.")
    P = Panics(R)
    sl = dict(P.sites)
    for f in {P.root(s[0]) for s in sl}:
        r = P.run(f)
        if r:
            for s in r[0]:
                if s not in sl and (P.root(s[0]) == f):
                    sl[s] = ("room", "", None)
    # loops that collect are found by following every function with a range of numbers
    for f in sorted(ctx.F()["fns"]):
        if "::{closure" in f or "tests::" in f or (f, ()) in P.runs:
            continue
        d = ctx.F()["fns"][f]
        if not any(b["t"].get("k") == "call" and any("std::ops::Range<" in a for a in b["t"].get("argtys") or ()) for b in d["blocks"] if isinstance(b.get("t"), dict)):
            continue
        r = P.run(f)
        if r:
            for s in r[0]:
                if s not in sl and P.root(s[0]) == f:
                    sl[s] = ("room", "", None)
    n = 0
    for s, (kind, sp, _) in sorted(sl.items(), key=lambda x: (x[0][0], x[0][1])):
        if "tests::" in s[0] or kind.startswith("overflow") and kind != "overflow Sub":
            continue
        n += 1
        v = P.verdict(s, P.root(s[0]))
        if v == MAYBE and "::{closure" in s[0]:
            w = P.verdict(s, s[0])
            v = None if w is None else v
        where = "%s (%s)" % (s[0], sp.replace("/repo/", "") or "a loop over a range")
        key = "%s@%s" % (kind, s[0])
        if v is None:
            R.ok("%s.%d" % (key, s[1]))
        elif v == MAYBE:
            R.unk("%s.%d" % (key, s[1]), "the conditions at %s do not settle it" % where)
        else:
            R.bad(key, where, "%s can panic: %s" % ({"room": "room asked for", "panic": "an explicit panic"}.get(kind, kind), v))
    R.count("places that can panic", n)
    if n < 15:
        R.unk("sites", "only %d places found" % n)
