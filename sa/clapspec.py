"""The command line a clap derive declares, read from the MIR of the code it generates."""
from . import ctx
from .terms import *
from .pyc import Unk

AUG, FROM = "<%s as clap::Args>::augment_args", "<%s as clap::FromArgMatches>::from_arg_matches_mut"
# builder calls that only change the help text
TEXT = {"value_name", "help", "long_help", "help_heading", "hide", "display_order", "next_line_help", "hide_default_value", "hide_possible_values", "hide_env", "hide_env_values",
        "hide_short_help", "hide_long_help", "next_help_heading", "value_hint"}
NAMES = {"alias", "aliases", "visible_alias", "visible_aliases", "short_alias", "short_aliases", "visible_short_alias", "long", "short"}


def last(t):
    return t.a[0].split("::")[-1]


class Opt:
    def __init__(self, name):
        self.name = name
        self.calls = {}

    def get(self, k):
        v = self.calls.get(k)
        return None if v is None else v[0]

    def text(self, k):
        v = self.get(k)
        return str(cval(v)) if v is not None and isc(v) else None

    def extra(self, known):
        """Calls other than the known ones and those that only change the help."""
        return sorted(k for k in self.calls if k not in known and k not in TEXT and k not in NAMES)


def options(R, ty="cli::Args"):
    """{id: Opt}, and the calls on the command itself."""
    r = ctx.run(R, AUG % ty)
    if r is None:
        return None, None
    rets = list(r.outcomes())
    if len(rets) != 1:
        raise Unk("the declared options depend on something")
    t = rets[0][1]
    out, cmd = {}, []
    while t.t == "op" and t.a[0].startswith("call:"):
        if last(t) != "arg":
            cmd.append(last(t))
            t = t.a[1]
            continue
        u = t.a[2]
        calls = []
        while u.t == "op" and u.a[0].startswith("call:") and last(u) != "new":
            calls.append((last(u), u.a[2:]))
            u = u.a[1]
        if not (u.t == "op" and last(u) == "new" and isc(u.a[1])):
            raise Unk("an option is declared as " + show(u)[:80])
        o = Opt(str(cval(u.a[1])))
        for k, v in reversed(calls):
            o.calls[k] = v
        if o.name in out:
            raise Unk("the option %s is declared twice" % o.name)
        out[o.name] = o
        t = t.a[1]
    return out, cmd


def fields(R, ty="cli::Args"):
    """{field: (option it is read from, how)} of the struct filled from the parsed command line."""
    r = ctx.run(R, FROM % ty)
    if r is None:
        return None
    out = {}
    for s, v in r.outcomes():
        if not (v.t == "agg" and v.a[1] == "Ok"):
            continue
        g = dict(v.a[2])["0"]
        if g.t != "agg":
            raise Unk("the options become " + show(g)[:80])
        for f, x in g.a[2]:
            ids = [(last(y), str(cval(y.a[2]))) for y in walk(x) if y.t == "op" and y.a[0].startswith("call:") and last(y) in ("remove_one", "remove_many", "get_one", "get_many", "get_flag") and len(y.a) > 2 and isc(y.a[2])]
            y = x
            while y.t == "op" and y.a[0] in ("pl:Some",) or y.t == "mut":
                y = y.a[1] if y.t == "op" else y.a[0]
            top = [(last(y), str(cval(y.a[2])))] if y.t == "op" and y.a[0].startswith("call:") and len(y.a) > 2 and isc(y.a[2]) else ids[:1]
            out.setdefault(f, set()).update(top or [("?", show(x)[:60])])
    return out
