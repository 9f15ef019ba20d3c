"""Composition of the pickle fallback: the loader lookup is interpreted for classes with and without
registered bases; the paths of storing one object, the pickling writer, the type record, the type
resolution and the unpickling reader are interpreted and must compose to pickle.loads(pickle.dumps(x))."""
from ..registry import *
from ..core import *

DUMPS, LOADS = "pickle.dumps", "pickle.loads"
OBJ = EXT("builtins.object")
USER = EXT("user.Object")


def check_lookup(rep):
    cases = [((USER,), None, "class without loader"),
             ((EXT("builtins.list"),), None, "class whose base is found in a loader module"),
             ((USER, EXT("builtins.list")), EXT("builtins.list"), "subclass of a class with a loader"),
             ((USER, EXT("numpy.ndarray")), EXT("numpy.ndarray"), "subclass of a class with a loader in another package"),
             ((USER,) + tuple(EXT("builtins." + n) for n in ("dict", "set", "frozenset", "list")), EXT("builtins.list"), "indirect subclass of a class with a loader")]
    fallback = set()
    for mro, found, what in cases:
        i = interp()
        f, outs = lookup_paths(i, USER, mro, found, loaded=len(mro) > 3)
        rep.use(i)
        rep.paths += len(outs)
        good = True
        for k, v, s in outs:
            if k != "R":
                continue
            it = seq_items(v, s)
            if not it or len(it) != 2:
                rep.unknown("C21.lookup", what, "result of the lookup not understood")
                good = False
                break
            q = [e for e in s.events() if e.op == "query"]
            got = it[1]
            hits = [e for e in q if e.val is FOUND or s.facts.get(mk("CMP", "is", e.val, NONE)) is False or s.facts.get(e.val) is True]
            reg = [n for n, e in enumerate(s.events()) if registers(e)]
            if hits:
                if got is not hits[0].val:
                    rep.bad("C21.lookup", "load_loader ignores a loader", "the loader found for %s is not the one returned (%s)" % (pp(hits[0].key), pp(got, 4)), fn_loc(f), trace(s, ops=("query", "call")))
                    good = False
                    break
                continue
            missing = [m for m in mro if not any(e.key is m for e in q)]
            if missing and found in missing:
                rep.bad("C21.lookup", "load_loader stops before %s" % ("the base class" if found else "the class"),
                        "on a path the lookup ends with %s although the base class %s, which has a loader, was never asked for" % (pp(got, 3), pp(found)), fn_loc(f), trace(s, ops=("query", "call")))
                good = False
                break
            if reg:
                evs = s.events()
                if not any(e.op == "query" and e.key is mro[0] for e in evs[reg[-1]:]):
                    rep.bad("C21.lookup", "load_loader does not ask again", "after the loader module was loaded %s is not looked up again" % pp(mro[0]), fn_loc(f), trace(s, ops=("query", "call")))
                    good = False
                    break
            lo = seq_items(got, s)
            kept = [e for e in s.events() if e.op == "setitem" and e.key in mro and it[0] is not e.key and i.freeze(e.val, s) is i.freeze(got, s)]
            if lo and len(lo) == 3 and kept:
                rep.bad("C21.notype", "load_loader keeps the fallback", "the fallback of %s is entered into the loader table: the next lookup returns it together with that class, of which a type is then recorded" % pp(kept[0].key), kept[0].loc, trace(s, ops=("query", "setitem")))
                good = False
                break
            if lo and len(lo) == 3 and not found:
                fallback.add((it[0], lo[0], lo[1]))
        if good:
            rep.ok("C21.lookup", what + " (%d paths)" % len(outs))
    return fallback, f


FAIL = {"importlib.util.find_spec": ("builtins.ValueError",), "importlib.find_loader": ("builtins.ValueError",),
        "builtins.open": ("builtins.FileNotFoundError", "builtins.NotADirectoryError"), "io.open": ("builtins.FileNotFoundError", "builtins.NotADirectoryError"),
        "importlib.import_module": ("builtins.ModuleNotFoundError",)}


def check_locate(rep):
    """modules without a spec (find_spec raises ValueError), inside archives (NotADirectoryError) or without loader module
    (FileNotFoundError) must not make the lookup fail"""
    i = interp()

    def raises(i_, f, args, kws, st, ctx):
        if f.k != "EXT" or f.a[0] not in FAIL or not args:
            return ()
        a = args[0]
        if f.a[0] != "builtins.open" and any(is_c(x) and isinstance(cval(x), str) and "hickle.loaders" in cval(x) for x in subterms(a)):
            return ()               # a module of hickle, not of the class
        return tuple(mk("EXC", EXT(c), (), NONE) for c in FAIL[f.a[0]])
    f, outs = lookup_paths(i, USER, (USER,), None, raises=raises)
    rep.use(i)
    rep.paths += len(outs)
    good, n = True, 0
    for k, v, s in outs:
        inj = [e for e in s.events() if e.op == "inject"]
        n += len(inj)
        if k == "X" and inj and v is inj[-1].val:
            good = False
            rep.bad("C21.locate", "load_loader fails with %s of %s" % (cname(v.a[0]).split(".")[-1], pp(inj[-1].target)),
                    "looking for the loader module of a class without loader ends in %s raised by %s" % (pp(v, 3), pp(inj[-1].target)), inj[-1].loc, trace(s, ops=("inject", "query", "call")))
    if good and n:
        rep.ok("C21.locate", "load_loader (%d failures)" % n)
    elif not n:
        rep.unknown("C21.locate", "load_loader", "no operation that locates the loader module found")


def check_fallback(rep, fallback, f):
    i = interp()
    t = tables(i)
    fns = set()
    for cls, create, tag in fallback:
        if create.k != "FN":
            rep.unknown("C21.fallback", "writer of the fallback", pp(create, 3))
            continue
        if "not_dumpable" in create.a[0].name:
            continue
        fns.add(create)
        # no type record for what the fallback stores
        i = interp()
        i.keep_fact = None
        i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
        RM = find(i, "hickle.lookup", "ReferenceManager")
        st_f = method(i, RM, "store_type")
        NODE = S("node", "h5py.Dataset")
        bad = False
        for k, v, s in run(i, st_f, [S("self", "hickle.lookup.ReferenceManager"), NODE, cls, tag], [("", KW)]):
            w = [e for e in s.events() if e.op == "setitem" and e.target is AT(NODE, "attrs")
                 or e.op == "call" and e.target is AT(NODE, "attrs") and e.key in ("create", "modify", "update", "__setitem__")]
            if w and not bad:
                bad = True
                rep.bad("C21.notype", "store_type records a type for pickled objects", "an object stored by the fallback (class %s) is given a type record" % pp(cls), w[0].loc, trace(s))
        rep.use(i)
        if not bad:
            rep.ok("C21.notype", "class %s, tag %s" % (pp(cls), pp(tag)))
    return fns


def check_dump(rep, fns):
    i = interp()
    fn, m = roles(i, "dump")
    loc = fn_loc(fn)
    NH = mk("EXC", find(i, "hickle.helpers", "NotHicklable"), (), None)
    paths = dump_paths(i, raises=lambda i_, f, a, k, st, ctx: (NH,) if f.k in ("IX", "CL", "AT") and from_loader(f) and not (f.k == "AT" and f.a[1] == "load_loader") else ())
    rep.use(i)
    rep.paths += len(paths)
    n = 0
    for p in paths:
        declined = [e for k, e in p.writers if e.op == "callx"]
        caught = [e for e in p.events if e.op == "caught" and any(x.k == "CLS" and x.a[0].name == "NotHicklable" for x in subterms(e.target))]
        if declined and p.kind == "X" and is_nothicklable(p.val):
            rep.bad("C21.decline", "%s: loader declines the object" % loc[2], "NotHicklable leaves dump instead of the object being pickled", loc, p.trace())
            continue
        if p.kind != "R":
            continue
        if caught and not p.pickled:
            rep.bad("C21.decline", "%s: loader declines the object" % loc[2], "after NotHicklable the object is not pickled", loc, p.trace())
            continue
        for k, e in p.pickled:
            fns.add(e.target)
            b = bound(e)
            ps = params(e.target)
            vals = [b.get(x) for x in ps[:3]]
            if vals != [PYOBJ, GRP, NAME]:
                rep.bad("C21.decline", "%s: call of %s" % (loc[2], e.target.a[0].name), "the fallback is called with (%s) instead of the object, its group and its name" % ", ".join(pp(x, 3) if x is not None else "-" for x in vals), e.loc, p.trace())
            elif p.types:
                rep.bad("C21.notype", "%s: pickled object" % loc[2], "an object that had to be pickled is given a type record", p.types[0][1].loc, p.trace())
            else:
                n += 1
                rep.ok("C21.decline", "loader declines the object%s" % (", items" if p.recs else ""))
    if not n and not rep.violations:
        rep.unknown("C21.decline", loc[2], "no path falls back to pickling")
    return fns


def is_nothicklable(v):
    return v is not None and any(x.k == "CLS" and x.a[0].name == "NotHicklable" for x in subterms(v))


def pure_pickle(t, obj):
    """t is pickle.dumps(obj) up to views of the same bytes"""
    VIEW = {"builtins.memoryview", "builtins.bytes", "builtins.bytearray", "numpy.asarray", "numpy.array", "numpy.frombuffer", "numpy.void"}
    while t.k == "CL" and t.a[0].k == "EXT" and t.a[0].a[0] in VIEW and t.a[1]:
        t = t.a[1][0]
    if t.k == "CL" and t.a[0].k == "EXT" and t.a[0].a[0] == DUMPS:
        return bool(t.a[1]) and t.a[1][0] is obj
    return None if t.k in ("TOP", "OBJ") else False


def check_writer(rep, fn):
    i = interp()
    i.keep_fact = None
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
    loc = fn_loc(fn)
    paths, excs = writer(i, fn, "user.Object")
    a = fn.a[0].node.args
    if "reason" in [x.arg for x in a.args + a.kwonlyargs]:
        # the caller's reason only says why, it decides nothing else
        more = writer(i, fn, "user.Object", named=[("reason", C("why"))])
        paths, excs = paths + more[0], excs + more[1]
    rep.use(i)
    rep.paths += len(paths)
    py = S(PY, "user.Object")
    for p in paths:
        cr = [e for e in created(p.st) if e.key in ("create_dataset", "require_dataset")]
        w = [e for e in p.events if e.op == "call" and ev_name(e) in ("warnings.warn", "warnings.warn_explicit")]
        if len(cr) != 1 or cr[0].target is not GRP or (cr[0].args[0] if cr[0].args else kwmap(cr[0]).get("name")) is not NAME:
            rep.bad("C21.writer", loc[2], "the pickled object is not stored as one dataset under its own name", loc, trace(p.st))
            continue
        e = cr[0]
        d = kwmap(e).get("data") or (e.args[3] if len(e.args) > 3 else None)
        ok = pure_pickle(d, py) if d is not None else False
        if ok is False:
            rep.bad("C21.writer", loc[2] + ": content", "the dataset holds %s instead of the pickle of the very object" % (pp(d, 5) if d is not None else "nothing"), e.loc, trace(p.st))
        elif ok is None:
            rep.unknown("C21.writer", loc[2], "content not understood")
        elif not w:
            rep.bad("C21.writer", loc[2] + ": warning", "the object is pickled without a warning", loc, trace(p.st))
        elif p.node is not e.val or p.subs:
            rep.bad("C21.writer", loc[2] + ": result", "the writer does not return the node it created, without items", loc, trace(p.st))
        elif any(k in ("type", "base_type") for k in attrs_written(p.st, e.val)):
            rep.bad("C21.notype", loc[2] + ": attributes", "the pickled object is given a type attribute", loc, trace(p.st))
        else:
            rep.ok("C21.writer", loc[2])
    for x, s in excs:
        if x.k == "EXC":
            rep.bad("C21.writer", loc[2] + ": raises", "the fallback raises %s itself" % pp(x, 3), loc, trace(s))


def check_reader(rep):
    i = interp()
    t = tables(i)
    i = interp()
    f, H, outs = resolve_untyped(i, "pickle")
    tags = set()
    for k, v, s in outs:
        if k != "R":
            rep.bad("C21.reader", "resolve_type: dataset without type record", "a pickled object is rejected with %s" % pp(v, 3), fn_loc(f), trace(s))
            continue
        it = seq_items(v, s)
        if it and len(it) == 3 and is_c(it[1]) and it[2] is not TRUE:
            tags.add(cval(it[1]))
        elif it and it[2] is TRUE:
            rep.bad("C21.reader", "resolve_type: dataset without type record", "a pickled object is treated as group", fn_loc(f), trace(s))
    rep.use(i)
    if not tags:
        rep.unknown("C21.reader", "resolve_type", "no path for a dataset without type record")
    for tag in tags:
        for legacy in (False, True):
            rd = (t.load["hickle-4.x"].get(tag) if legacy else None) or t.load[None].get(tag)
            what = "reader of %r%s" % (tag, " (4.x)" if legacy else "")
            if rd is None:
                rep.bad("C21.reader", what, "no reader is registered for datasets without type record", fn_loc(f))
                continue
            if rd.k != "FN":
                rep.unknown("C21.reader", what, pp(rd, 3))
                continue
            i = interp()
            i.keep_fact = None
            i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
            n = 0
            for k, v, s in run(i, rd, [H, C(tag), OBJ]):
                if k != "R" or any(e.op == "caught" for e in s.events()):
                    continue
                n += 1
                x = v
                if x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0] == LOADS and x.a[1] and any(y.k == "IX" and y.a[0] is H for y in subterms(x.a[1][0])):
                    continue
                if x.k == "TOP":
                    rep.unknown("C21.reader", what, "result not understood")
                    break
                rep.bad("C21.reader", what, "load returns %s instead of the unpickled content" % pp(v, 4), fn_loc(rd), trace(s))
                break
            else:
                if n:
                    rep.ok("C21.reader", what)
            rep.use(i)


def check(rep, tier):
    rep.rule("C21.lookup", "the lookup asks for every class of the mro, before and after loading its loader module, and returns the loader found")
    rep.rule("C21.decline", "an object declined by its loader is handed to the pickling writer with its own group and name")
    rep.rule("C21.writer", "the pickling writer stores pickle.dumps of the very object under the given name, with a warning")
    rep.rule("C21.notype", "no type is recorded for pickled objects")
    rep.rule("C21.reader", "a dataset without type record resolves to the pickle reader, which returns pickle.loads of its content")
    rep.rule("C21.locate", "failing to locate a loader module of the class is no reason for the lookup to fail")
    fns, fb, f = set(), set(), None
    with rep.guard("C21.locate", "load_loader"):
        check_locate(rep)
    with rep.guard("C21.lookup", "load_loader"):
        fb, f = check_lookup(rep)
    with rep.guard("C21.notype", "store_type"):
        fns |= check_fallback(rep, fb, f)
    with rep.guard("C21.decline", "recursion"):
        check_dump(rep, fns)
    for fn in sorted(fns, key=lambda x: x.a[0].fullname):
        with rep.guard("C21.writer", fn.a[0].qual):
            check_writer(rep, fn)
    with rep.guard("C21.reader", "reader"):
        check_reader(rep)
