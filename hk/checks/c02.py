"""Typestate analysis of the manager tables: dump() and load() are interpreted with both managers inlined,
for every kind of file argument, current and 4.x files, with a failure injected at every opaque operation.
The tables are modelled as sets of file identities; on every exit they are as they were on entry."""
from ..base import *
from ..explore import *

FID = S("file-id")
THEFILE = S("the-file", "h5py.File")
H5 = ("h5py.File", "h5py.Group", "h5py.Dataset", "h5py.AttributeManager")


def table_of(b):
    if b.k in ("CLS", "EXT"):
        return mk("MTAB", b)
    return None


def content(st, tab):
    """current {key: value} of a manager table"""
    cur = {}
    for e in st.events():
        if e.target is not tab:
            continue
        if e.op == "setitem":
            cur[e.key] = e.val
        elif e.op == "delitem":
            cur.pop(e.key, None)
        elif e.op == "call" and e.key in ("pop", "__delitem__") and e.args:
            cur.pop(e.args[0], None)
        elif e.op == "call" and e.key in ("clear", "popitem"):
            cur.clear()
        elif e.op == "call" and e.key in ("setdefault", "__setitem__") and len(e.args) > 1:
            if e.key == "__setitem__" or e.args[0] not in cur:
                cur[e.args[0]] = e.args[1]
    return cur


def from_file(v):
    for _ in range(60):
        if v is THEFILE or v.k == "S" and v.a[0] in ("file_obj",):
            return True
        if v.k == "CL" and v.a[0].k == "EXT":
            return v.a[0].a[0] == "h5py.File" and not any(k == "driver" for k, _ in v.a[2])
        if v.k == "CL" and v.a[0].k == "AT":
            v = v.a[0].a[0]
        elif v.k in ("AT", "IX", "EL", "VAL"):
            v = v.a[0]
        else:
            return False


def is_file(v, st):
    if v is THEFILE or v.k == "CL" and v.a[0] is EXT("h5py.File"):
        return True
    k = kind_of(v, st)
    if k is not None and cname(k) == "h5py.File":
        return True
    return any(t.k == "ISI" and t.a[0] is v and b and cname(t.a[1]) == "h5py.File" for t, b in st.facts.items())


def models(i):
    def attr(b, name, st, ctx, n):
        if name == "__managers__":
            c = b
            if b.k == "OBJ" and st.obj(b) is not None and st.obj(b).cls is not None:
                c = st.obj(b).cls
            t = table_of(c)
            return [(t, st)] if t is not None else None
        if name == "file" and b.k != "OBJ" and from_file(b):
            return [(THEFILE, st)]
        if name == "id" and from_file(b) and is_file(b, st):
            return [(FID, st)]

    def call(f, args, kws, st, ctx, n):
        if f.k == "AT" and f.a[0].k == "MTAB":
            cur = content(st, f.a[0])
            if f.a[1] in ("get", "pop", "setdefault") and args:
                d = args[1] if len(args) > 1 else NONE
                v = cur.get(args[0], d)
                ev = Ev("call", f.a[0], f.a[1], v, tuple(args), (), ctx.fn.loc(n))
                return [(v, i.emit(st, ev))]
            if f.a[1] in ("keys", "values", "items", "copy"):
                ks = tuple(cur)
                return [({"keys": T(*ks), "values": T(*cur.values()), "items": T(*[T(k, v) for k, v in cur.items()])}.get(f.a[1], T(*ks)), st)]

    def item(b, idx, st, ctx, n):
        if b.k == "MTAB":
            cur = content(st, b)
            if idx in cur:
                return [(cur[idx], st)]

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        r = None
        if x.k == "MTAB":
            r = bool(content(st, x))
        elif x.k == "CMP" and x.a[2].k == "MTAB" and x.a[0] in ("in", "not in"):
            r = (x.a[1] in content(st, x.a[2])) == (x.a[0] == "in")
        elif x.k in ("CL", "AT", "S", "IX", "EL"):
            k = kind_of(x, st)
            if k is not None and cname(k) in H5[:3] or any(t2.k == "ISI" and t2.a[0] is x and b and cname(t2.a[1]) in H5 for t2, b in st.facts.items()):
                r = True
        if r is None:
            return None
        return r != neg
    i.model_attr, i.model_call, i.model_item, i.fork_hook = attr, call, item, fork


def raises(i, f, args, kws, st, ctx):
    if f.k == "EXT" and (f.a[0].split(".")[0] in ("weakref", "gc") or f.a[0] in ("builtins.id", "builtins.isinstance")):
        return ()
    if f.k == "AT" and f.a[0].k == "MTAB":
        return ()
    if not any(content(st, t) for t in {e.target for e in st.events() if e.target is not None and e.target.k == "MTAB"}):
        return ()       # nothing registered: a failure here cannot leave anything behind
    return (E, B)


def inline(fi, st, ctx):
    if fi.module == "hickle.lookup":
        return fi.cls is not None and "Manager" in fi.cls.name and fi.name not in ("get_root", "load_loader", "store_type", "resolve_type", "register_class", "register_class_exclude") \
            or fi.cls is None and fi.name not in ("fix_lambda_obj_type", "load_pickled_data")
    return fi.module in ("hickle.hickle", "hickle.fileio", "hickle.helpers") and fi.name not in ("_dump", "_load")


def check_entry(rep, which, kind):
    i = interp()
    i.max_outcomes = 60000
    models(i)
    i.raises = raises
    i.inline = inline
    i.keep_event = lambda e: e.target is not None and e.target.k == "MTAB"
    i.keep_fact = lambda t: no_opaque(t) or t.k == "ISI" and "hickle_types_table" in pp(t, 9)
    fo, args, kws = entry_args(which, kind, free=True)
    fn = find(i, "hickle.hickle", which)
    outs = run(i, fn, args, kws)
    rep.use(i)
    rep.paths += len(outs)
    good, sets = True, 0
    for k, v, s in outs:
        tabs = {e.target: e for e in s.events()}
        for t, e in tabs.items():
            n = [x for x in s.events() if x.target is t and x.op == "setitem"]
            sets += bool(n)
            cur = content(s, t)
            if cur:
                good = False
                how = "return" if k == "R" else "exception"
                rep.bad("C02.drop", "%s: entry of %s stays registered on exit by %s" % (which, pp(t.a[0], 2), how),
                        "the manager registered under %s is never removed (file argument: %s, %s)" % (pp(next(iter(cur)), 4), kind.split(".")[-1], pp(v, 2) if k == "X" else "normal return"),
                        n[-1].loc if n else None, trace(s, ops=("setitem", "delitem", "call", "inject")))
    if good and sets:
        rep.ok("C02.drop", "%s(%s): %d paths, %d registrations" % (which, kind.split(".")[-1], len(outs), sets))
    elif good:
        rep.unknown("C02.drop", "%s(%s)" % (which, kind), "no registration seen")


def check(rep, tier):
    rep.rule("C02.drop", "on every exit of dump/load each entry added to a manager table has been removed under the same file identity")
    for which in ("dump", "load"):
        for kind in KINDS if tier == "thorough" else ("builtins.str", "h5py.File"):
            with rep.guard("C02.drop", "%s(%s)" % (which, kind)):
                check_entry(rep, which, kind)
