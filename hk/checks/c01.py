"""Typestate analysis of file handles: dump() and load() (with everything they call that can
open or close a file) are interpreted abstractly for every kind of file argument, with an
exception injected at every opaque operation; on every exit each HDF5 file opened from the
caller's argument has been closed, and no operation closes a handle the caller passed in."""
from ..base import *
from ..explore import *

NAMES = {"File", "close", "flush", "closing", "ExitStack", "closed", "finalize"}


def opened_from(t, fo):
    return t.k == "CL" and t.a[0] is EXT("h5py.File") and (any(contains(a, fo) for a in t.a[1]) or any(contains(v, fo) for _, v in t.a[2]))


def judge(rep, which, kind, fo, outs):
    good = True
    for o in outs:
        open_ = {}
        for e in o[2].events():
            if e.op == "call" and e.target is EXT("h5py.File") and opened_from(e.val, fo):
                open_[e.val] = e
            elif e.op in ("call", "callx") and e.key == "close":
                t = e.target
                if t in open_:
                    del open_[t]
                elif is_from(t, fo):
                    good = False
                    rep.bad("C01.foreign", "%s closes %s" % (e.loc[2], pp(t, 4)), "closes a handle that was passed in by the caller",
                            e.loc, trace(o[2]))
            elif e.op == "exit" and is_from(e.target, fo):
                good = False
                rep.bad("C01.foreign", "%s leaves context of %s" % (e.loc[2], pp(e.target, 4)), "closes a handle that was passed in by the caller",
                        e.loc, trace(o[2]))
            elif e.op == "call" and ev_name(e) == "weakref.finalize":
                for t in list(open_):
                    if any(contains(a, t) for a in e.args[1:]) and any(a.k == "AT" and a.a[1] == "close" for a in e.args):
                        del open_[t]
        for t, e in open_.items():
            good = False
            how = "return" if o[0] == "R" else "exception"
            rep.bad("C01.leak", "%s: file opened in %s stays open on exit by %s" % (which, e.loc[2], how),
                    "%s is not closed (file argument: %s)" % (pp(t, 5), kind.split(".")[-1]), e.loc, trace(o[2]))
    return good


def closing(rep, rule, what, outs, roots):
    """no path of a handler closes the file (or a node) it was given"""
    def h5value(t, roots):
        for _ in range(60):
            if t in roots:
                return True
            if t.k in ("AT", "IX", "EL", "VAL"):
                t = t.a[0]
            elif t.k == "CL" and t.a[0].k == "AT":
                t = t.a[0].a[0]
            else:
                return False
    good = True
    for o in outs:
        s = o[2] if isinstance(o, tuple) else o
        for e in s.events():
            if e.op in ("call", "callx"):
                nm = ev_name(e) or ""
                t = e.target if e.key in CLOSERS else e.args[0] if nm.startswith("h5py.") and nm.rsplit(".", 1)[1] in CLOSERS and e.args else None
            else:
                t = e.target if e.op == "exit" else None
            if t is not None and h5value(t, roots):
                good = False
                rep.bad(rule, "%s: %s in %s" % (what, e.key or e.op, e.loc[2]), "closes the file or node it was given: %s" % pp(t, 4), e.loc, trace(s))
    if good:
        rep.ok(rule, "%s (%d paths)" % (what, len(outs)))


CLOSERS = {"close", "__exit__", "__del__"}


def arm_handlers(i):
    from .c03 import hickle_all
    i.max_outcomes = 30000
    i.keep_fact = no_opaque
    i.inline = hickle_all
    i.keep_event = lambda e: e.op == "exit" or e.op in ("call", "callx") and (e.key in CLOSERS or (ev_name(e) or "").startswith("h5py."))
    i.raises = lambda *a: ()


def check_handlers(rep):
    from .c03 import check_readers
    from .. import handlers
    check_readers(rep, "C01.handler", closing, arm_handlers)
    i = interp()
    done = set()
    for r in handlers.rows(i):
        f, k = r.create, cname(r.cls) or "user.Class"
        if f.k != "FN" or f.a[0] in done:
            continue
        done.add(f.a[0])
        with rep.guard("C01.handler", f.a[0].qual):
            i = interp()
            arm_handlers(i)
            ps, ex = handlers.writer(i, f, k)
            rep.use(i)
            rep.paths += len(ps)
            closing(rep, "C01.handler", f.a[0].qual, [p.st for p in ps] + [x[1] for x in ex], {handlers.GRP})


def check(rep, tier):
    rep.rule("C01.leak", "every exit of dump/load is preceded by close() on each h5py.File opened from the caller's argument")
    rep.rule("C01.foreign", "no close()/context exit on a value that was passed in by the caller")
    rep.rule("C01.handler", "no handler, container or manager closes the file of a node it was given")
    i = interp()
    reach = call_graph_reach(i, NAMES)
    for which in ("dump", "load"):
        fn = find(i, "hickle.hickle", which)
        for kind in KINDS:
            i = interp()
            i.max_outcomes = 60000
            i.keep_fact = no_opaque
            i.raises = any_raises
            i.keep_event = lambda ev: (ev.op in ("call", "callx") and ev_name(ev) in ("h5py.File", "close", "flush", "weakref.finalize")) or ev.op == "exit"
            i.inline = lambda fi, st, ctx: (fi in reach and fi.name not in ("_dump", "_load")) or fi.name == "file_opener"
            fo, args, kws = entry_args(which, kind, free=True)
            subj = "%s(%s)" % (which, kind.split(".")[-1])
            try:
                outs = run(i, fn, args, kws)
            except Budget as e:
                rep.unknown("C01.leak", subj, str(e))
                continue
            rep.use(i)
            rep.paths += len(outs)
            if judge(rep, which, kind, fo, outs):
                rep.ok("C01.leak", subj)
                rep.ok("C01.foreign", subj)
    check_handlers(rep)
