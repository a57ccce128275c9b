"""Shared access to the facts and to analysed entry functions."""
import os
from . import facts as _facts, mir
from .terms import *

_F = None


def F():
    global _F
    if _F is None:
        _F = _facts.load()
    return _F


def where(fn):
    j = F()["fns"].get(fn)
    return (j["span"].replace("/repo/", "") + " " + fn) if j else fn


class Run:
    """An analysed entry function: its engine and its return states."""

    def __init__(self, fname, opaque=(), events=(), args=None, risks=False, steps=None):
        self.fname = fname
        self.e = mir.Engine(F(), opaque=opaque, events=events)
        self.e.risk_on = risks
        if steps:
            self.e.MAXSTEPS = steps
        self.rets = self.e.run(fname, args)
        self.div = self.e.diverged

    def outcomes(self):
        """Return states and process exits: [(state, value)]."""
        return list(self.rets) + [(s, s.ev[-1].a[1]) for s in self.div if s.ev and s.ev[-1].t == "ev" and s.ev[-1].a[0] == "exit"]


def named(*names):
    """All functions of the crate with these last path segments."""
    return tuple(sorted(f for f in F()["fns"] if f.split("::")[-1] in names))


def run(R, fname, key=None, **kw):
    """Analyses fname; records an unknown and returns None when it is out of reach, a violation when it is missing."""
    if fname not in F()["fns"]:
        if F()["scope"] == "subset" and not in_subset(fname):
            R.unk((key or fname) + ":not-analysed", "the module of %s does not type-check against the stubs" % fname)
            return None
        R.bad("anchor:" + fname, fname, "the entry point %s no longer exists" % fname)
        return None
    try:
        r = Run(fname, **kw)
    except (mir.TooComplex, RecursionError) as x:
        R.unk((key or fname) + ":too-complex", str(x)[:200])
        return None
    R.count("functions analysed", len(r.e.inlined))
    R.count("paths", len(r.rets))
    R.count("loops summarised", len(r.e.loops))
    return r


def in_subset(fname):
    m = fname.lstrip("<").split("::")[0]
    return m in _facts.SUBSET_MODULES or m == "collection"


def impls(trait, method):
    """{self type: function} of the local implementations of trait::method."""
    out = {}
    for im in F()["impls"]:
        if im.get("trait") == trait:
            for n, p in im["items"]:
                if n == method:
                    out[im["self"]] = p
    return out


# ---- symbolic lengths ----
def sources(rec):
    for c in rec.conts:
        for k in c.conds:
            if k.t == "next" and k.a[2] == rec.L:
                return k.a[0], k.a[1]
    for ex in rec.exits:
        for k in ex[1]:
            if k.t == "next" and k.a[2] == rec.L:
                return k.a[0], k.a[1]
    return None, ()


def length(e, v, d=0):
    """Exact symbolic length of a collection term, or None."""
    from . import models as M
    if d > 20:
        return None
    if v is M.VECNEW:
        return C(0, "usize")
    if v.t == "arr":
        return C(len(v.a), "usize")
    if v.t == "op" and v.a[0] == "repeat":
        return v.a[2]
    if v.t == "coll":
        return src_length(e, v.a[0], (), d + 1)
    if v.t == "mut":
        ops = [o for o in v.a[1:] if o.a[0] not in ("sort", "at", "each", "reverse", "swap", "rotate_left", "rotate_right")]
        ops = [o for o in ops if not (o.a[0] == "loop" and _inner_only(e, o))]
        if not ops:
            return length(e, v.a[0], d + 1)
        if v.a[0] is M.VECNEW and all(o.a[0] == "push" for o in ops):
            return C(len(ops), "usize")
        if len(ops) == 1 and v.a[0] is M.VECNEW:
            o = ops[0]
            if o.a[0] == "loop":
                rec = e.loops[o.a[1]]
                us = rec.ops.get(o.a[2])
                if us and all(sum(1 for x in u if x.a[0] == "push") == 1 and all(x.a[0] in ("push", "at", "sort") for x in u) for u in us):
                    src, stages = sources(rec)
                    if src is not None:
                        return src_length(e, src, stages, d + 1)
            if o.a[0] == "extend":
                return length(e, o.a[1], d + 1)
        return op("len", v)
    if v.t in ("fold", "lv"):
        return op("len", v)
    return op("len", v)


def _inner_only(e, o):
    us = e.loops[o.a[1]].ops.get(o.a[2])
    return us is not None and all(x.a[0] in ("at", "each", "sort") or (x.a[0] == "loop" and _inner_only(e, x)) for u in us for x in u)


def src_length(e, s, stages, d=0):
    for st in stages:
        if st.t in ("enumerate", "map", "rev", "inspect", "back", "cloned"):
            continue
        if st.t == "zip":
            a = src_length(e, s, (), d + 1)
            z = st.a[0]
            if any(x.t == "cycle" for x in z.a[1]) or z.a[0].t in ("gen", "rangefrom"):
                continue
            b = src_length(e, z.a[0], z.a[1], d + 1)
            if a is not None and a is b:
                continue
            return None
        return None
    if s.t in ("seq", "setitems"):
        return length(e, s.a[0], d + 1)
    if s.t == "mseq":
        return length(e, s.a[1], d + 1)
    if s.t == "range" and isc(s.a[0]) and cval(s.a[0]) == 0:
        h = s.a[1]
        if h.t == "op" and h.a[0] == "len":
            r = length(e, h.a[1], d + 1)
            return r if r is not None else h
        return h
    if s.t in ("map_values", "map_keys", "map_items"):
        return op("len", s.a[0])
    return op("len", mk("coll", s))
