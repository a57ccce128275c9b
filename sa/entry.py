"""The program's two Python-facing entries, as paths with their calls and exit codes."""
from . import ctx
from .terms import *
from .props import c04

MAIN, API = "pyo3::main_cli_with_args", "pyo3::run_tests"
RUNNERS = c04.RUNNERS
COLLECT = "collection_integration::collect_tests_rust"


class Path:
    """One path to an exit: the conditions, the calls in order (with those made in loops), the exit code."""

    def __init__(self, e, s, code):
        self.conds_list = s.paths()
        self.code = code
        self.calls = []
        self._flat(e, s.ev, ())

    def _flat(self, e, evs, conds):
        for x in evs:
            if x.a[0] == "loop":
                for c in e.loops[x.a[1]].conts:
                    self._flat(e, c.ev, conds + (c.conds,))
            elif x.a[0] == "call":
                self.calls.append((x.a[1], x.a[2], conds))
            elif x.a[0] == "exec":
                self.calls.append(("exec", (x.a[1],), conds))

    def called(self, *names):
        return [c for c in self.calls if c[0] in names]


def paths(R, fn):
    r = ctx.run(R, fn, opaque=ctx.named(*c04.MAIN_OPAQUE))
    if r is None:
        return None, []
    return r, [Path(r.e, s, v) for s, v in r.outcomes()]


def is_call(t, name):
    return t.t == "op" and t.a[0] == "call:" + name


def find_calls(t, name):
    return [y for y in walk(t) if is_call(y, name)]
