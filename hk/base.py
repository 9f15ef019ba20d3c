"""Shared scaffolding of the checks."""
import os
import signal
import time
from .terms import *
from .know import *
from .state import State, Ev, HO
from .repo import Repo
from .interp import Interp, Budget, Broken, Ctx

REPO = os.environ.get("HICKLE_REPO", "/repo")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []      # (rule, subject, verdict)
        self.violations = []       # dicts
        self.notes = []
        self.analysed = set()
        self.paths = 0
        self.call_sites = set()
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, subject):
        self.obligations.append((rule, subject, "holds"))

    def unknown(self, rule, subject, why=""):
        self.obligations.append((rule, subject, "not decided: " + why))

    def bad(self, rule, construct, message, loc=None, trace=()):
        """construct: stable name of the violating construct (function + what)"""
        for v in self.violations:
            if v["rule"] == rule and v["construct"] == construct:
                return
        self.obligations.append((rule, construct, "VIOLATED"))
        self.violations.append(dict(rule=rule, construct=construct, message=message,
                                    location="%s:%s (%s)" % loc if loc else "", trace=list(trace)))

    def note(self, t):
        if t not in self.notes:
            self.notes.append(t)

    def guard(self, rule, subject):
        """the analysis of one obligation: if it cannot be completed the obligation is 'not decided'"""
        return _Guard(self, rule, subject)

    def use(self, interp):
        self.analysed |= interp.stats["functions"]
        self.call_sites |= interp.stats["call_sites"]


PER_OBLIGATION = 90.0                 # seconds of cpu time
DEADLINE = time.time() + 700.0        # for the whole check


def _expired(*a):
    raise Budget("time limit of the obligation")


class _Guard:
    def __init__(self, rep, rule, subject):
        self.rep, self.rule, self.subject = rep, rule, subject

    def __enter__(self):
        left = max(1.0, min(PER_OBLIGATION, DEADLINE - time.time()))
        signal.signal(signal.SIGPROF, _expired)
        signal.setitimer(signal.ITIMER_PROF, left, 5.0)
        return self

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_PROF, 0)
        if t is None or not issubclass(t, Exception):
            return False
        if os.environ.get("HK_DEBUG"):
            return False
        import traceback
        last = traceback.extract_tb(tb)[-1]
        self.rep.unknown(self.rule, self.subject, "%s: %s (%s:%s)" % (t.__name__, v, os.path.basename(last.filename), last.lineno))
        return True


_interp_cache = {}


def interp():
    """a fresh-policy interpreter over the current tree (modules read once)"""
    i = _interp_cache.get("i")
    if i is None:
        i = _interp_cache["i"] = Interp(Repo(REPO))
    i.reset_policy()
    i.sink = []
    i.stats = {"statements": 0, "functions": set(), "call_sites": set(), "forks": 0, "states": 0}
    return i


def state(i):
    return State(i.base)


def find(i, module, name):
    """function / class / table of a module; Broken if it is gone"""
    st = state(i)
    f = st.frame(("mod", module))
    if f is None or name not in f:
        raise Broken("%s.%s not found" % (module, name))
    return f[name]


def method(i, cls, name):
    v, owner = i.class_lookup(cls.a[0], name, state(i))
    if v is None:
        raise Broken("%s.%s not found" % (cls.a[0].qual, name))
    return v


def top_ctx(i, fn=None):
    from .repo import FuncInfo
    class _F:
        pass
    f = _F()
    f.fullname = "<entry>"
    f.qual = "<entry>"
    f.name = "<entry>"
    f.relpath = ""
    f.declared = {}
    f.cls = None
    f.lineno = 0
    f.module = "hickle.hickle"
    f.loc = lambda n=None: ("<entry>", 0, "<entry>")
    return Ctx(("mod", "hickle.hickle"), f, "hickle.hickle")


class _N:
    lineno = 0
    col_offset = 0


NOWHERE = _N()


def run(i, fn, args, kws=(), st=None, inject_self=None):
    """outcomes [('R', value, state) | ('X', exc, state)] of calling fn"""
    st = st if st is not None else state(i)
    ctx = top_ctx(i)
    saved, i.sink = i.sink, []
    try:
        vals = i.call(fn, list(args), list(kws), st, ctx, NOWHERE)
        exc = i.sink
    finally:
        i.sink = saved
    outs = [("R", v, s) for v, s in vals]
    for e, s in exc:
        if not isinstance(e, tuple):
            outs.append(("X", e, s))
    return outs


def params(fn):
    fi = fn.a[0] if fn.k == "FN" else fn.a[1].a[0]
    a = fi.node.args
    return [p.arg for p in a.posonlyargs + a.args]


def run_gen_collect(i, val, st):
    """exhaust an iterable value: [(kind, [elements], state)]"""
    ctx = top_ctx(i)
    acc, s0 = st.alloc(("collect", "entry"), HO("list", None, (), ()))

    def body(e, s):
        o = s.obj(acc)
        return [("N", None, s.setobj(acc, o._replace(data=o.data + (e,))))]
    res = []
    for o in i.iterate(val, s0, ctx, body, NOWHERE):
        res.append((o[0], list(o[2].obj(acc).data), o[2], o[1]))
    return res


def ev_loc(e):
    return "%s:%s %s" % e.loc if e.loc else ""


def trace(st, last=12, ops=("call", "callx", "setattr", "setitem", "caught")):
    evs = [e for e in st.events() if e.op in ops]
    return ["%s %s" % (ev_loc(e), pp(e.val, 4) if e.op in ("call", "callx") else e.op + " " + pp(e.target, 3) + " " + str(e.key)) for e in evs[-last:]]


def ev_name(e):
    """dotted name of the callee of a call event"""
    if e.key is not None:
        return e.key
    if e.target.k == "EXT":
        return e.target.a[0]
    if e.target.k == "FN":
        return e.target.a[0].fullname
    return ""
