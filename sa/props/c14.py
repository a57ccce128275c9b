"""C14: fresh instance, setup first, teardown always once setup is done, output captured."""
from .. import pyc, pycases, pytest1 as P
from ..terms import *


def check(R):
    R.rule("Every path of _run_single_test is enumerated with the calls of test code in order, the exceptions they raise and the stream each call writes to; the order construct, setup, body, teardown is checked on every path, including those on which a step raises.")
    R.assume("Code that writes to file descriptors 1 and 2 directly, or from other threads after the test, is not captured.")
    r = pyc.analyse(R, P.FN, must=False)
    if r is None:
        return
    C = Check(R, r)
    for p in P.paths(r):
        C.path(p)
    C.done()


class Check:
    def __init__(self, R, r):
        self.R, self.r = R, r
        self.seen = {"setup_method": 0, "setUp": 0, "teardown_method": 0, "tearDown": 0}
        self.n = self.m = 0
        self.names = {}

    def named(self):
        """The method that runs is the one collected under the test's name."""
        R = self.R
        cs = pycases.cases(R) if self.names else None
        for c in cs or ():
            f = c.f["func"]
            if c.cls is None:
                continue
            if not (f.t == "op" and f.a[0] == "getattr" and f.a[1] is c.cls):
                R.unk("body:name", "a test method that is " + show(f)[:80])
                continue
            for nm, (fld, why) in self.names.items():
                if fld == "func.__name__":
                    if any(c.f.get(x) is f.a[2] for x in nm.a[1]):
                        continue  # the name is only missing for no method
                    R.bad("body:name", P.FN, "the method that runs is looked up by the function's own __name__, not by the name it was collected under" + why)
                elif fld is None:
                    R.unk("body:name", "the method is looked up by " + show(nm)[:80])
                elif c.f.get(fld) is not f.a[2]:
                    R.bad("body:name", P.FN, "the method that runs is looked up by %s, which discovery sets to %s%s" % (fld, show(c.f.get(fld))[:60], why))

    def done(self):
        R = self.R
        self.named()
        for nm, k in self.seen.items():
            if not k:
                R.bad("hook:" + nm, P.FN, "%s of a test class is never called" % nm)
        R.count("paths", self.n)
        R.floor("paths with an instance", self.m, 2, P.FN)
        if not R.bads:
            for k, d in (("order", "construct, setup, body, teardown on every path"), ("teardown", "exactly once on every path on which setup is done"), ("capture", "every call of test code writes to buffers of its own test"), ("fresh", "the instance is made for the test")):
                R.ok(k, d + " (%d paths)" % self.n)

    def path(self, p):
        R = self.R
        if P.skipped(p.conds) is True:
            return
        if any(s[0] == "other" and s[2].a[0] == "user" for s in p.steps):
            R.unk("loops", "test code is called in a loop")
            return
        self.n += 1
        users = [(s[1], s[2]) for s in p.steps if s[0] == "user"]
        self.capture(p, users)
        roles = [u for u, _ in users]
        cls = None
        for k, v in p.conds.items():
            if k.t == "op" and k.a[0] in ("isnone", "truth") and P.tc_field(k.a[1], "test_class"):
                cls = v if k.a[0] == "truth" else not v
        raised = [s[2].a[1] for s in p.steps if s[0] == "raised"]
        what = [P.origin_role(e) for e in raised]
        why = " (%s)" % pyc.brief(p.conds)
        if roles.count("body") > 1:
            R.bad("body:twice", P.FN, "the test body is called %d times on a path%s" % (roles.count("body"), why))
        for u, ev in users:
            if u == "body":
                self.args(ev)
                self.name(p, ev, why)
        if cls is False or cls is None and "construct" not in roles:
            if roles and set(roles) - {"body"}:
                R.bad("function:" + roles[0], P.FN, "a test function is run with %s" % ", ".join(roles))
            if not roles and not raised and p.status == "ret":
                R.bad("body:none", P.FN, "a test function is not called" + why)
            return
        self.m += 1
        if roles.count("construct") != 1:
            R.bad("fresh:%d" % roles.count("construct"), P.FN, "%d instances are made for a test%s" % (roles.count("construct"), why))
            return
        if roles[0] != "construct":
            R.bad("order:construct", P.FN, "%s runs before the instance is made" % roles[0])
            return
        inst = users[0][1].a[4]
        if users[0][1].a[2] or users[0][1].a[3]:
            R.bad("fresh:arguments", P.FN, "the test class is given arguments")
        for u, ev in users[1:]:
            if u == "other":
                R.unk("calls", "a call of test code that is none of the known steps: " + show(ev.a[1])[:80])
            elif not contains(ev.a[1], lambda y: y is inst) and not contains(ev.a[2], lambda y: y is inst):
                R.bad("fresh:" + u, P.FN, "%s runs on %s instead of the instance made for the test" % (u, show(ev.a[1])[:80]))
        if what and what[0] == "construct":
            if len(users) > 1:
                R.bad("order:after-construct", P.FN, "%s runs although no instance could be made" % roles[1])
            return
        # which hooks this class has, as far as the path looked
        has = {}
        for h, names in P.HOOKS.items():
            for nm in names:
                f = self.found(p, inst, nm)
                has[nm] = f
                if any(u == h and nm in P.attr_names(ev.a[1]) for u, ev in users):
                    self.seen[nm] += 1
        sraised = bool(what) and what[0] in ("setup", "setup-lookup")
        for h in ("setup", "teardown"):
            if roles.count(h) > 1:
                R.bad(h + ":twice", P.FN, "%s is called %d times%s" % (h, roles.count(h), why))
        present = any(has[nm] for nm in P.HOOKS["setup"])
        if present and "setup" not in roles and not sraised:
            R.bad("setup:skipped", P.FN, "the setup of the class is not called" + why)
        if not present and "setup" not in roles and all(has[nm] is None for nm in P.HOOKS["setup"]) and not sraised:
            R.bad("setup:never", P.FN, "a path never looks for a setup method" + why)
        if "setup" in roles and "body" in roles and roles.index("setup") > roles.index("body"):
            R.bad("order:setup", P.FN, "setup runs after the body")
        if sraised:
            after = [u for u in roles if u in ("body", "teardown")]
            if after:
                R.bad("order:after-setup", P.FN, "%s runs although setup raised%s" % (" and ".join(after), why))
            return
        # setup is done: the body runs, then teardown, whatever the body does
        bodyraise = [w for w in what if w.startswith("body")]
        if "body" not in roles and not any(w in ("body-lookup", "teardown-lookup") for w in what):
            R.bad("body:none", P.FN, "the test method is not called" + why)
        # looking up a method that discovery found on the class does not fail in practice
        tlookup = any(w == "teardown-lookup" for w in what) or ("body" not in roles and "body-lookup" in what)
        tpresent = any(has[nm] for nm in P.HOOKS["teardown"])
        if "teardown" in roles:
            if "body" in roles and roles.index("teardown") < roles.index("body"):
                R.bad("order:teardown", P.FN, "teardown runs before the body")
        elif not tlookup:
            if tpresent:
                R.bad("teardown:skipped", P.FN, "the teardown of the class is not called%s%s" % (" when the body raised" if bodyraise else "", why))
            elif all(has[nm] is None for nm in P.HOOKS["teardown"]):
                R.bad("teardown:never:" + ("raised" if bodyraise else "clean"), P.FN, "teardown is not called%s%s" % (" when the body raised" if bodyraise else "", why))

    def name(self, p, ev, why):
        nm = P.lookup_name(ev.a[1])
        if nm is None:
            return
        if nm.t == "op" and nm.a[0].startswith(".") and nm.a[1].t == "param":
            self.names[nm] = (nm.a[0][1:], why)
        elif nm.t == "op" and nm.a[0] == ".__name__" and P.tc_field(nm.a[1], "func"):
            empty = [k.a[1].a[0][1:] for k, v in p.conds.items() if k.t == "op" and k.a[0] == "truth" and not v and k.a[1].t == "op" and k.a[1].a[0].startswith(".") and k.a[1].a[1].t == "param"]
            self.names[mk("by", nm, tuple(empty))] = ("func.__name__", why)
        else:
            self.names[nm] = (None, why)

    def found(self, p, inst, nm):
        """Whether the path found a hook on the instance: True, False, None (did not look)."""
        res = None
        for k, v in p.conds.items():
            if k.t != "op" or not contains(k, lambda y: y.t == "op" and y.a[0] in ("getattr", "hasattr") and isc(y.a[2]) and cval(y.a[2]) == nm or y.t == "op" and y.a[0] == "." + nm):
                continue
            if k.a[0] == "excis" or k.a[0] == "raises":
                continue
            b = (not v) if k.a[0] == "isnone" else v
            if k.a[0] in ("truth", "isnone", "hasattr", "callable"):
                # a hook that is there but is not callable is not a hook
                res = b if res is None else (res and b)
        return res

    def args(self, ev):
        pos, kw = ev.a[2], ev.a[3]
        ok = len(kw) == 1 and kw[0][0].startswith("**") and P.tc_field(kw[0][1], "kwargs") or (len(kw) == 1 and kw[0][0].startswith("**") and contains(kw[0][1], lambda y: P.tc_field(y, "kwargs")))
        if not ok:
            if any(contains(v, lambda y: P.tc_field(y, "kwargs")) for v in list(pos) + [v for _, v in kw]):
                self.R.unk("body:arguments", "the body is called with %s %s" % (show(pos)[:60], show(kw)[:60]))
            else:
                self.R.bad("body:arguments", P.FN, "the test body is not called with the arguments of its case")

    def capture(self, p, users):
        R = self.R
        bufs = {}
        for u, ev in users:
            std = dict(ev.a[5])
            for s in ("sys.stdout", "sys.stderr"):
                b = std.get(s)
                if b is None:
                    R.bad("capture:%s:%s" % (s[4:], u), P.FN, "what %s writes to %s is not captured" % (u, s))
                    continue
                if b.t != "obj":
                    R.unk("capture", "%s is redirected to %s" % (s, show(b)[:60]))
                    continue
                bufs.setdefault(s, set()).add(b)
                if (self.r.e.born.get(b.a[1]) or ("",))[-1] == "module":
                    R.bad("capture:shared", P.FN, "tests share one buffer for " + s)
        if p.rec is None or not users:
            return
        for s, f in (("sys.stdout", "stdout"), ("sys.stderr", "stderr")):
            v = p.rec.get(f)
            for b in bufs.get(s, ()):
                if v is None or not contains(v, lambda y: y is b):
                    R.bad("capture:reported:" + f, P.FN, "what was captured from %s is not in the %s of the record (%s)" % (s, f, pyc.brief(p.conds)))
                elif v.t == "op" and v.a[0] != "m:getvalue":
                    if contains(v, lambda y: y.t == "op" and y.a[0] in ("pyslice", "m:strip", "m:read")):
                        R.bad("capture:reported:" + f, P.FN, "part of the captured output is dropped: " + show(v)[:80])
            o = bufs.get("sys.stderr" if s == "sys.stdout" else "sys.stdout", set())
            if bufs.get(s, set()) & o:
                R.bad("capture:mixed", P.FN, "standard output and error are captured into one buffer")
