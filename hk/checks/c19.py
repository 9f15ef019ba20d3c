"""Typestate analysis of the collector switch: dump() and load() are interpreted abstractly
for every kind of file argument and both initial collector states, with an exception
injected at every opaque operation; at every exit the collector state must equal the
initial one."""
from ..base import *
from ..explore import *

GC = EXT("gc")


def model(init):
    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT" and f.a[0] in ("gc.disable", "gc.enable", "gc.isenabled"):
            if f.a[0] == "gc.isenabled":
                return [(st.sym.get((GC, "on"), C(init)), st)]
            st2 = st.setsym(GC, "on", C(f.a[0] == "gc.enable"))
            return [(NONE, st2.emit(Ev("gc", f, None, NONE, (), (), ctx.fn.loc(n))))]
        return None
    return call


def check(rep, tier):
    rep.rule("C19.restore", "on every exit of dump/load gc.isenabled() equals its value at entry")
    kinds = KINDS if tier == "thorough" else ["builtins.str", "h5py.File", "user.FileLike"]
    i = interp()
    reach = call_graph_reach(i, {"gc", "disable", "enable", "isenabled"})
    for which in ("dump", "load"):
        fn = find(i, "hickle.hickle", which)
        for kind in kinds:
            for init in (True, False):
                i = interp()
                i.max_outcomes = 60000
                i.keep_fact = no_opaque
                i.raises = any_raises
                i.keep_event = lambda ev: ev.op == "gc"
                i.model_call = model(init)
                i.inline = lambda fi, st, ctx: fi in reach or fi.name == "file_opener"
                fo, args, kws = entry_args(which, kind, free=True)
                subj = "%s(%s) with collector %s" % (which, kind.split(".")[-1], "enabled" if init else "disabled")
                try:
                    outs = run(i, fn, args, kws)
                except Budget as e:
                    rep.unknown("C19.restore", subj, str(e))
                    continue
                rep.use(i)
                rep.paths += len(outs)
                good = True
                for o in outs:
                    on = cval(o[2].sym.get((GC, "on"), C(init)))
                    if on != init:
                        good = False
                        evs = [e for e in o[2].events() if e.op == "gc"]
                        rep.bad("C19.restore", "%s leaves collector %s (initially %s, exit by %s)" % (
                            which, "enabled" if on else "disabled", "enabled" if init else "disabled",
                            "return" if o[0] == "R" else "exception"),
                            "last switch: %s" % (ev_loc(evs[-1]) if evs else "none"), evs[-1].loc if evs else None,
                            [ev_loc(e) + " " + pp(e.target) for e in evs])
                if good:
                    rep.ok("C19.restore", subj)
