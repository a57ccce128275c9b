"""C31: the names of the distribution modes: accepted, parsed, printed, served."""
from .. import ctx, batches, clapspec, entry
from ..numbers import bounded
from ..models import cat
from ..pyc import Unk
from ..terms import *
from .c01 import strategies
from .c07 import calls_in, cond, DISTRIBUTE, PARALLEL
from ..rows import Bad
from .c16 import guard

MODE = "scheduler::DistributionMode"
FROM_STR = "<%s as std::str::FromStr>::from_str" % MODE
DISPLAY = "<%s as std::fmt::Display>::fmt" % MODE
ERROR = "<scheduler::ParseDistributionModeError as std::fmt::Display>::fmt"
VALIDATE = "cli::Args::validate_dist"


def names(p, atom):
    """What a path's conditions say of a text: (the one text it equals or None, the texts it is known not to be, other conditions on it)."""
    pos, neg, other = set(), set(), []
    for k, v in p.items():
        if not contains(k, lambda y: y is atom):
            continue
        if k.t == "op" and k.a[0] == "eq" and len(k.a) == 3:
            a, b = k.a[1], k.a[2]
            if isc(a):
                a, b = b, a
            if a is atom and isc(b):
                (pos if v is True else neg).add(str(cval(b)))
                continue
        if k.t == "op" and k.a[0] in ("is_empty",) and k.a[1] is atom:
            (pos if v is True else neg).add("")
            continue
        other.append((k, v))
    return pos, neg, other


def holds(k, atom, text):
    """A condition on a text, decided for one concrete text; None when it is not read."""
    def ev(t):
        if t is atom:
            return text
        if isc(t):
            return cval(t)
        if t.t == "op":
            a = [ev(x) if isinstance(x, N) else x for x in t.a[1:]]
            if any(x is None for x in a):
                return None
            o = t.a[0].split("::")[-1]
            if o == "len":
                return len(a[0].encode())
            if o == "is_empty":
                return a[0] == ""
            if o == "eq":
                return a[0] == a[1]
            if o == "lt":
                return a[0] < a[1]
            if o == "le":
                return a[0] <= a[1]
            if o == "starts_with":
                return str(a[0]).startswith(str(a[1]))
            if o == "ends_with":
                return str(a[0]).endswith(str(a[1]))
            if o in ("has_sep", "contains"):
                return str(a[1]) in str(a[0])
            if o in ("lower", "to_lowercase", "to_ascii_lowercase"):
                return a[0].lower()
            if o in ("upper", "to_uppercase", "to_ascii_uppercase"):
                return a[0].upper()
            if o in ("trim", "strip"):
                return a[0].strip()
            if o == "eq_ignore_ascii_case":
                return a[0].lower() == a[1].lower()
            if o in ("trim_start", "trim_left"):
                return a[0].lstrip()
            if o in ("trim_end", "trim_right"):
                return a[0].rstrip()
            if o == "trim_matches":
                return a[0].strip(a[1])
            if o == "not":
                return not a[0]
        return None
    return ev(k)


def table(R, key, w, rets, atom, value):
    """{name: value} of the accepting paths. value(state, result) is the value of an accepting path, or None."""
    out, refused, default = {}, 0, 0
    seen = set()
    rows = []
    for s, v in rets:
        for p in s.paths():
            x = value(s, v)
            pos, neg, other = names(p, atom)
            seen |= pos | neg
            rows.append((p, x, pos, neg, other))
    if not rows:
        raise Unk("no path returns")
    for p, x, pos, neg, other in rows:
        if len(pos) > 1 or pos & neg:
            continue
        if x is None:
            refused += 1
            if pos:
                n = next(iter(pos))
                hs = [holds(k, atom, n) for k, v in other]
                if all(h is not None and h == v for h, (k, v) in zip(hs, other)):
                    out.setdefault(n, []).append(None)
            continue
        if not pos:
            # nothing pins the text down: something else than the listed names gets through
            probe = [t for n in sorted(seen - {""}) for t in (n.upper(), " " + n, n + " ", n + "x", n[:-1], n + "group", n.capitalize())] + ["zzz", "", "0"]
            for t in probe:
                if t in seen and t in neg:
                    continue
                hs = [holds(k, atom, t) for k, v in other]
                if t not in neg and all(h is not None and h == v for h, (k, v) in zip(hs, other)):
                    raise Bad("more", "the name %r is accepted" % t)
            for t in sorted(seen):
                hs = [holds(k, atom, t) for k, v in other]
                if t not in neg and all(h is not None and h == v for h, (k, v) in zip(hs, other)):
                    out.setdefault(t, []).append(x)
            if any(holds(k, atom, "zzz") is None for k, v in other):
                raise Unk("accepted under " + cond(p))
            continue
        n = next(iter(pos))
        hs = [(holds(k, atom, n), v) for k, v in other]
        if any(h is None for h, v in hs):
            raise Unk("accepted under " + cond(p))
        if all(h == v for h, v in hs):
            out.setdefault(n, []).append(x)
    if not refused:
        raise Bad("all", "every name is accepted")
    return out


def one(tab):
    """Names with one value each."""
    out = {}
    for n, xs in tab.items():
        if len(set(xs)) > 1:
            raise Unk("the name %r gives several results" % n)
        if xs[0] is not None:
            out[n] = xs[0]
    return out


def variant(t):
    if t.t == "agg" and t.a[0].split("::")[-1] == "DistributionMode":
        return t.a[1]
    raise Unk("a name gives " + show(t)[:80])


def parse(R):
    r = ctx.run(R, FROM_STR)
    if r is None:
        return None
    w = ctx.where(FROM_STR)

    def value(s, v):
        if v.t == "agg" and v.a[1] == "Ok":
            return variant(v.a[2][0][1])
        if v.t == "agg" and v.a[1] == "Err":
            return None
        raise Unk("a name gives " + show(v)[:80])
    return w, one(table(R, "parse", w, r.outcomes(), mk("param", "arg0"), value))


def printed(R):
    r = ctx.run(R, DISPLAY, events=("write",))
    if r is None:
        return None
    w = ctx.where(DISPLAY)
    out = {}
    for s, v in r.outcomes():
        text = [x.a[2] for x in s.ev if x.a[0] == "write"]
        if not (v.t == "agg" and v.a[1] == "Ok") or any(x.a[0] == "loop" for x in s.ev):
            raise Unk("a mode is printed by " + show(v)[:80])
        text = cat(*text)
        for p in s.paths():
            m = [x for k, x in p.items() if k.t == "discr" and k.a[0].t == "param" and k.a[0].a[0] == "arg0"]
            if len(m) != 1:
                raise Unk("a mode is printed under " + cond(p))
            if not isc(text):
                raise Unk("a mode is printed as " + show(text)[:80])
            out.setdefault(m[0], set()).add(str(cval(text)))
    return w, out


def tables(R):
    vs = {v["name"] for v in ctx.F()["types"].get(MODE, {}).get("variants", ())}
    if not vs:
        raise Unk("the type of the distribution modes is not found")
    got = parse(R)
    if got is None:
        return None
    w, tab = got
    n0 = len(R.bads) + len(R.unks)
    by = {}
    for n, m in tab.items():
        by.setdefault(m, []).append(n)
    for m in sorted(vs - set(by)):
        R.bad("parse:unreachable:" + m, w, "no name selects the mode %s" % m)
    lower = {v.lower(): v for v in vs}
    for m, ns in sorted(by.items()):
        if len(ns) > 1:
            R.bad("parse:alias:" + m, w, "the mode %s has the names %s, of which it prints only one" % (m, ", ".join(sorted(ns))))
        for n in ns:
            if lower.get(n, m) != m:
                R.bad("parse:swapped:" + n, w, "the name %r selects the mode %s" % (n, m))
    if n0 == len(R.bads) + len(R.unks):
        R.ok("parse", "%d names, one for each mode: %s" % (len(tab), ", ".join(sorted(tab))))
    return tab


def display(R, tab):
    got = printed(R)
    if got is None:
        return
    w, out = got
    n0 = len(R.bads) + len(R.unks)
    for n, m in sorted(tab.items()):
        if out.get(m, {n}) != {n}:
            R.bad("print:" + m, w, "the mode named %r prints as %s" % (n, ", ".join(map(repr, sorted(out[m])))))
        elif m not in out:
            R.bad("print:" + m, w, "the mode named %r prints nothing" % n)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("print", "every mode prints as the name that selects it")


def message(R, tab):
    """The list in the error of an unknown name."""
    if ERROR not in ctx.F()["fns"]:
        return
    r = ctx.run(R, ERROR, events=("write",))
    if r is None:
        return
    n = 0
    for s, v in r.outcomes():
        for x in s.ev:
            if x.a[0] != "write":
                continue
            for t in walk(x.a[2]):
                if isc(t) and isinstance(cval(t), str) and ":" in cval(t):
                    words = [y.strip(" .'\"()") for y in cval(t).rsplit(":", 1)[1].split(",")]
                    if len(words) > 1 and set(words) & set(tab):
                        n += 1
                        if set(words) != set(tab):
                            R.bad("advertised", ctx.where(ERROR), "the error for an unknown name lists %s; accepted are %s" % (", ".join(words), ", ".join(sorted(tab))))
                        else:
                            R.ok("advertised", "the error for an unknown name lists exactly the accepted names")


def validate(R, tab):
    r = ctx.run(R, VALIDATE) if VALIDATE in ctx.F()["fns"] else None
    if r is None:
        return
    w = ctx.where(VALIDATE)
    atom = next((y for s, v in r.outcomes() for p in s.paths() for k in p for y in walk(k) if y.t == "op" and y.a[0] == ".dist"), None)
    if atom is None:
        R.bad("validate:unread", w, "the name is not looked at")
        return

    def value(s, v):
        if v.t == "agg" and v.a[1] in ("Ok", "Err"):
            return True if v.a[1] == "Ok" else None
        raise Unk("the check of the name gives " + show(v)[:80])
    got = set(one(table(R, "validate", w, r.outcomes(), atom, value)))
    if got - set(tab):
        R.bad("validate:more", w, "accepted, but no mode: " + ", ".join(sorted(got - set(tab))))
    elif set(tab) - got:
        R.bad("validate:fewer", w, "a mode, but not accepted: " + ", ".join(sorted(set(tab) - got)))
    else:
        R.ok("validate", "the command line accepts exactly the %d names of modes" % len(got))


def option(R, tab):
    opts, cmd = clapspec.options(R)
    if opts is None:
        return
    w = ctx.where(clapspec.AUG % "cli::Args")
    fs = clapspec.fields(R) or {}
    src = fs.get("dist")
    if src is None:
        R.unk("option", "the field dist is not found")
        return
    ids = {i for h, i in src}
    if len(ids) != 1 or not ids <= set(opts):
        R.unk("option", "dist is filled from " + ", ".join(map(str, sorted(src))))
        return
    o = opts[ids.pop()]
    n0 = len(R.bads) + len(R.unks)
    if o.text("long") != "dist":
        R.bad("option:name", w, "the mode is not set by --dist but by %s" % o.text("long"))
    d = o.text("default_value")
    if d is not None and d not in tab:
        R.bad("option:default", w, "without --dist the mode is %r, which does not exist" % d)
    elif d is not None and d != "load":
        R.bad("option:default", w, "without --dist the mode is %r instead of load" % d)
    if d is None:
        R.unk("option:default", "no default is declared")
    for k in ("default_missing_value", "default_value_if", "default_value_ifs", "env", "overrides_with", "conflicts_with", "ignore_case"):
        if k in o.calls and k != "env":
            R.unk("option:" + k, "--dist declares " + k)
    vp = o.calls.get("value_parser")
    if vp is not None:
        for t in vp:
            ws = [str(cval(y)) for y in walk(t) if isc(y) and isinstance(cval(y), str)]
            if ws and set(ws) != set(tab):
                R.bad("option:values", w, "--dist takes %s; the modes are %s" % (", ".join(sorted(ws)), ", ".join(sorted(tab))))
    if n0 == len(R.bads) + len(R.unks):
        R.ok("option", "--dist, default %s" % d)


def serve(R, tab):
    st = strategies(R)
    if st is None:
        return
    w = ctx.where("scheduler::create_scheduler")
    n0 = len(R.bads) + len(R.unks)
    # what a mode promises: tests of a file together, of a class together, no distribution, spread one by one
    kind = {"Load": 0, "WorkSteal": 0, "LoadFile": 1, "LoadScope": 2, "No": 3}
    by = {}
    for m in sorted(set(tab.values())):
        if m not in st and None in st:
            m2 = st[None]
        elif m not in st:
            R.bad("serve:" + m, w, "the mode %s has no strategy" % m)
            continue
        else:
            m2 = st[m]
        if m2 is None:
            R.unk("serve:" + m, "the strategy of %s is not a plain struct" % m)
            continue
        by.setdefault(m2, []).append(m)
    for f, ms in by.items():
        if len({kind.get(m, m) for m in ms}) > 1:
            R.bad("serve:shared", w, "%s share the strategy %s" % (" and ".join(ms), f.split(" as ")[0].lstrip("<")))
    if n0 == len(R.bads) + len(R.unks):
        R.ok("serve", "%d strategies for %d modes" % (len(by), len(set(tab.values()))))
    if st.get("No"):
        guard(R, "no", ctx.where(st["No"]), undistributed, R, st["No"])


def undistributed(R, fn):
    r = ctx.run(R, fn)
    if r is None:
        return
    tests, n = mk("param", "arg1"), mk("param", "arg2")
    one_ = mk("c", 1)
    k = 0
    for s, v in r.rets:
        bs = batches.bounds(r.e, v)
        for p in s.paths():
            k += 1
            if any(isc(b) and cval(b) <= 1 for b in bs) or any(bounded(b, one_, p) is True for b in bs):
                continue
            if any(contains(b, lambda x: x is n or x is tests) for b in bs):
                R.bad("no:distributed", ctx.where(fn), "the mode without distribution makes %s batches" % ", ".join(show(b)[:60] for b in bs))
                return
            raise Unk("number of batches " + ", ".join(show(b)[:80] for b in bs))
    R.ok("no", "without distribution there is at most one batch")


def runner(R):
    opaque = ctx.named("spawn_worker", "wait_for_all", "group_tests_by_subproject", "make_test_paths_relative", "create_scheduler") + (DISTRIBUTE, FROM_STR)
    r = ctx.run(R, PARALLEL, opaque=opaque)
    if r is None:
        return
    w = ctx.where(PARALLEL)
    n0 = len(R.bads) + len(R.unks)
    n = 0
    for s, v in r.outcomes():
        for ev, cs, loops in calls_in(r.e, s.ev, "scheduler::create_scheduler"):
            n += 1
            t = ev.a[2][0]
            src = [y for y in walk(t) if y.t == "op" and y.a[0] == "call:" + FROM_STR]
            if not src:
                R.bad("runner:mode", w, "a strategy is made for %s, not for the configured mode" % show(t)[:80])
                continue
            if not (src[0].a[1].t == "op" and src[0].a[1].a[0] == ".dist_mode"):
                if any(y.t == "op" and y.a[0] == ".dist_mode" for y in walk(src[0].a[1])):
                    R.bad("runner:text", w, "the mode is read from %s" % show(src[0].a[1])[:80])
                else:
                    R.bad("runner:mode", w, "the mode is not the configured one but %s" % show(src[0].a[1])[:80])
                continue
            d = mk("discr", src[0])
            for p in s.paths():
                q = dict(p)
                for c in cs:
                    q.update(c)
                if q.get(d) == "Err" or t.t != "op" or not t.a[0].startswith("pl:") or d not in q:
                    R.bad("runner:default", w, "a name that is no mode is served all the same: " + show(t)[:80])
                    break
        for p in s.paths():
            d = [k for k, x in p.items() if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "call:" + FROM_STR and x == "Err"]
            if d:
                if any(x.a[0] in ("loop", "spawn") for x in s.ev):
                    R.bad("runner:unknown", w, "with a name that is no mode something is started")
                elif not isc(v):
                    raise Unk("an unknown name gives the exit code " + show(v)[:80])
                elif cval(v) == 0:
                    R.bad("runner:unknown", w, "with a name that is no mode the run succeeds")
                break
    R.floor("strategies made", n, 1, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("runner", "%d strategies, each for the configured mode; an unknown name starts nothing and fails" % n)


def main(R, tab):
    r, ps = entry.paths(R, entry.MAIN)
    if r is None:
        return
    w = ctx.where(entry.MAIN)
    n0 = len(R.bads) + len(R.unks)
    n = 0
    for x in ps:
        runs = [c for c in x.calls if c[0] in entry.RUNNERS or c[0] == "exec"]
        for p in x.conds_list:
            d = [(k, v) for k, v in p.items() if k.t == "discr" and k.a[0].t == "op" and k.a[0].a[0] == "call:" + VALIDATE]
            if any(v == "Err" for k, v in d):
                if runs:
                    R.bad("main:runs", w, "with a name that is no mode something is run")
                elif isc(x.code) and cval(x.code) == 0:
                    R.bad("main:success", w, "with a name that is no mode the program succeeds")
                elif not isc(x.code):
                    raise Unk("an unknown name gives the exit code " + show(x.code)[:80])
                continue
            if not runs:
                continue
            n += 1
            if not d:
                atoms = {y for k in p for y in walk(k) if y.t == "op" and y.a[0] == ".dist"}
                if any(names(p, a)[0] <= set(tab) and names(p, a)[0] for a in atoms):
                    continue
                R.bad("main:unchecked", w, "tests are run without a check of the name of the mode: " + cond(p))
                return
    R.floor("paths that run tests", n, 2, w)
    if n0 == len(R.bads) + len(R.unks):
        R.ok("main", "%d paths that run tests, each after the name was accepted" % n)


def check(R):
    R.rule("The name tables are read from the decision paths of FromStr, Display, validate_dist and create_scheduler: names are compared whole, every "
           "mode has one name, prints as it and has a strategy of its kind (LoadFile and LoadScope: C02; No: one batch); the command line accepts "
           "exactly those names, and the runner serves the configured name or fails before it starts anything.")
    R.assume("clap fills a field as its derive declares it")
    w = ctx.where(FROM_STR)
    got = []
    guard(R, "parse", w, lambda: got.append(tables(R)))
    if not got or not got[0]:
        return
    tab = got[0]
    guard(R, "print", w, display, R, tab)
    guard(R, "advertised", w, message, R, tab)
    guard(R, "validate", ctx.where(VALIDATE), validate, R, tab)
    guard(R, "option", "src/cli.rs", option, R, tab)
    guard(R, "serve", ctx.where("scheduler::create_scheduler"), serve, R, tab)
    guard(R, "runner", ctx.where(PARALLEL), runner, R)
    guard(R, "main", ctx.where(entry.MAIN), main, R, tab)
