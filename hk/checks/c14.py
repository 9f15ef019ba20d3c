"""Exception-flow analysis: a failure is injected at every opaque operation of dump, load, every writer,
reader, container and manager step (plus every exception class some enclosing handler names); no path
with a failed step may end in a normal return. Failures while reading must leave load as ValueError
caused by the failure, and no path of load may return anything not read from the file."""
from ..registry import *
from ..core import *
from ..explore import entry_args

FAIL = mk("EXC", EXT("user.Failure"), (), NONE)
INTR = mk("EXC", EXT("builtins.KeyboardInterrupt"), (), NONE)
STEPS = {"create_dataset", "create_group", "require_group", "require_dataset", "__setitem__", "update", "modify", "create", "store_type",
         "append", "convert", "filter", "resolve_type", "load_loader", "write_direct", "resize", "flush", "close"}
BENIGN = ("builtins.AttributeError", "builtins.ImportError", "builtins.ModuleNotFoundError", "builtins.FileNotFoundError", "builtins.StopIteration",
          "builtins.UnicodeError", "builtins.UnicodeDecodeError", "builtins.UnicodeEncodeError")
TIDY = {"flush", "close", "__bool__", "closed"}


def is_step(f):
    """a step of writing or reading the data itself"""
    if f.k == "AT":
        if f.a[1] == "close" and f.a[0].k == "CL" and f.a[0].a[0] in (EXT("builtins.open"), EXT("io.open")):
            return False            # a file that was only probed for
        return f.a[1] in STEPS
    if f.k == "FN":
        return True
    if f.k == "EXT":
        return f.a[0] in ("pickle.dumps", "pickle.dump")
    return f.k in ("IX", "CL") and (from_loader(f) or any(x.k == "AT" and x.a[1] in ("hkl_types_dict", "hkl_container_dict") for x in subterms(f)))


def tidy(f):
    return f.k == "AT" and f.a[1] in TIDY or f.k == "EXT" and f.a[0].split(".")[0] in ("gc", "warnings", "weakref")


def unpickles(f):
    """only a class that cannot be found makes unpickling fall back to recovered data"""
    return f.k == "EXT" and f.a[0] in ("pickle.loads", "pickle.load") or f.k == "AT" and f.a[1] == "pickle_loads"


def elsewhere(f):
    """lookup of another node of the file: via file, parent or type table"""
    return f.k == "AT" and f.a[1] in ("get", "__getitem__") and outside(f.a[0])


def outside(b):
    for _ in range(20):
        if b.k == "AT" and b.a[1] in ("file", "parent", "_py_obj_type_table"):
            return True
        if b.k in ("AT", "IX"):
            b = b.a[0]
        elif b.k == "CL" and b.a[0].k == "AT":
            b = b.a[0].a[0]
        else:
            return False


def exc_class(e):
    return cname(e.a[0]) if e.k == "EXC" and isinstance(e.a[0], Node) else ""


def swallowed(st, typ=None):
    """injected failures of a path that must not end normally"""
    out = []
    for e in st.events():
        if e.op != "inject":
            continue
        if e.target.k == "EXT" and e.target.a[0].split(".")[0] in ("warnings", "gc"):
            continue
        c = exc_class(e.val)
        if c in ("user.Failure", "builtins.KeyboardInterrupt"):
            out.append(e)
        elif c in BENIGN or c.endswith(".NotHicklable"):
            continue
        elif unpickles(e.target) or elsewhere(e.target):
            out.append(e)
        elif is_step(e.target) or typ is not None and e.target is typ:
            out.append(e)
    return out


def arm(i, intr=False):
    def raises(i_, f, args, kws, st, ctx):
        if f.k == "EXT" and f.a[0].split(".")[0] in ("gc",):
            return ()
        if f.k == "EXT" and f.a[0].startswith("builtins.") and f.a[0][9:] in ("list", "tuple", "dict", "set", "getattr", "id", "len"):
            return ()
        if any(e.op == "inject" for e in st.events()):
            return ()
        return (FAIL, INTR) if intr else (FAIL,)
    i.raises = raises
    i.mark_inject = lambda e: True
    i.max_outcomes = 60000


def opname(f):
    if f.k == "AT":
        return "%s.%s" % (pp(f.a[0], 3), f.a[1])
    return pp(f, 3)


def judge(rep, rule, what, outs, loc, typ=None):
    good = True
    for o in outs:
        k, v, s = o[:3]
        if k == "X":
            continue
        sw = swallowed(s, typ)
        if sw:
            e = sw[0]
            good = False
            rep.bad(rule, "%s: failure of %s" % (what, opname(e.target)), "%s raised by %s at %s:%s is swallowed and the function returns normally" % (
                exc_class(e.val).split(".")[-1], opname(e.target), e.loc[0], e.loc[1]), e.loc, trace(s, ops=("call", "callx", "caught", "inject")))
    if good:
        rep.ok(rule, "%s (%d paths)" % (what, len(outs)))


def check_entry(rep, which, kind):
    i = interp()
    arm(i, True)
    i.keep_event = lambda e: e.op in ("inject", "caught") or e.op == "call" and (ev_name(e) == "h5py.File")
    i.inline = core_inline
    i.keep_fact = no_opaque
    fo, args, kws = entry_args(which, kind, free=True)
    fn = find(i, "hickle.hickle", which)
    outs = run(i, fn, args, kws)
    rep.use(i)
    rep.paths += len(outs)
    judge(rep, "C14." + which, "%s(%s)" % (which, kind.split(".")[-1]), outs, fn_loc(fn))
    if which == "dump" or kind != "builtins.str":
        return
    VE = "builtins.ValueError"
    n = 0
    for k, v, s in outs:
        inj = [e for e in s.events() if e.op == "inject"]
        if k == "R" and not inj:
            if not any(x.k == "CL" and x.a[0] is EXT("h5py.File") or x.k in ("TOP", "OBJ") for x in subterms(v)):
                rep.bad("C14.result", "load returns %s" % pp(v, 3), "load returns normally without having loaded anything from the file", fn_loc(fn), trace(s))
            continue
        if k != "X" or not inj:
            continue
        e = inj[0]
        if len(inj) > 1 or exc_class(e.val) == "builtins.KeyboardInterrupt" or tidy(e.target) or "fileio" in e.loc[0] or e.target is EXT("h5py.File"):
            continue
        if not any(x.k == "CL" and x.a[0] is EXT("h5py.File") for x in subterms(T(e.target, *[a for a in e.args if isinstance(a, Node)]))):
            continue
        if exc_class(v) != VE:
            if v.k == "TOP":
                continue
            rep.bad("C14.cause", "load: failure of %s" % opname(e.target), "leaves load as %s instead of ValueError" % pp(v, 3), e.loc, trace(s))
        elif len(v.a) < 3 or v.a[2] in (None, NONE):
            rep.bad("C14.cause", "load: cause lost", "ValueError is raised without the original error as its cause", e.loc, trace(s, ops=("inject", "caught")))
        else:
            n += 1
    # explicit errors
    if n:
        rep.ok("C14.cause", "%d failing steps" % n)


def check_complete(rep):
    for which in ("dump", "load"):
        i = interp()
        i.loop_twice = True
        fn, m = roles(i, which)
        loc = fn_loc(fn)
        paths = [p for p in (dump_paths(i) if which == "dump" else load_paths(i)) if p.kind == "R"]
        rep.use(i)
        rep.paths += len(paths)
        two = any(len(p.recs) > 1 for p in paths)
        one = any(len(p.recs) == 1 for p in paths)
        if one and not two:
            rep.bad("C14.items", "%s stops after the first item" % loc[2], "no path handles more than one item of a container", loc)
        elif not one:
            rep.bad("C14.items", "%s handles no item" % loc[2], "no path handles the items of a container", loc) if not any(p.foreign for p in paths) else None
        for p in paths:
            els = {x for t in p.st.facts for x in subterms(t) if x.k == "EL" and (from_loader(x) or any(y.k == "AT" and y.a[1] == "filter" for y in subterms(x)))}
            if els and not p.recs:
                rep.bad("C14.items", "%s skips items" % loc[2], "on a path an item (%s) is looked at but not %s" % (pp(next(iter(els)), 3), "stored" if which == "dump" else "loaded"), loc, p.trace())
                break
            if which == "dump" and not (p.writers or p.pickled or p.creates):
                rep.bad("C14.items", "%s stores nothing" % loc[2], "a path returns without storing the object", loc, p.trace())
                break
            if which == "load" and not p.appends:
                rep.bad("C14.items", "%s loads nothing" % loc[2], "a path returns without handing the loaded object to its parent", loc, p.trace())
                break
        else:
            if two:
                rep.ok("C14.items", "%s (%d paths)" % (loc[2], len(paths)))


def hickle_inline(fi, st, ctx):
    return fi.module.startswith("hickle.") and "legacy" not in fi.module and fi.name not in ("_drop_manager", "get_root", "fix_lambda_obj_type")


def handler_arm(i):
    arm(i)
    i.inline = hickle_inline
    i.keep_fact = no_opaque
    i.keep_event = lambda e: e.op in ("inject", "caught")
    i.model_call = lambda f, args, kws, st, ctx, n: [(NONE, st)] if f.k == "FN" and f.a[0].name in ("_drop_manager",) else None


def check_handlers(rep):
    rs = rows(interp())
    done = set()
    for r in rs:
        nm = cname(r.cls) or pp(r.cls)
        if r.create.k == "FN" and (r.create, nm) not in done:
            done.add((r.create, nm))
            with rep.guard("C14.writer", "%s for %s" % (r.create.a[0].name, nm)):
                i = interp()
                handler_arm(i)
                paths, excs = writer(i, r.create, nm)
                rep.use(i)
                rep.paths += len(paths) + len(excs)
                judge(rep, "C14.writer", "%s for %s" % (r.create.a[0].qual, nm), [("R", None, p.st) for p in paths], fn_loc(r.create))
        if r.load.k == "FN" and r.load not in done:
            done.add(r.load)
            reader(rep, r.load, [S("h_node", "h5py.Dataset"), r.tag, r.cls])
        if r.container.k == "CLS" and r.container not in done:
            done.add(r.container)
            container(rep, r.container, r.tag, EXT("user.Object"))
            check_kept(rep, r.container, r.tag, r.cls)
    i = interp()
    for name in ("load_pickled_data", "recover_custom_dataset"):
        reader(rep, find(i, "hickle.lookup", name), [S("h_node", "h5py.Dataset"), C(b"pickle"), EXT("builtins.object")])
    for name in ("ExpandReferenceContainer", "RecoverGroupContainer"):
        container(rep, find(i, "hickle.lookup", name), C(b"x"), EXT("user.Object"))
        check_kept(rep, find(i, "hickle.lookup", name), C(b"x"), EXT("user.Object"))
    check_kept(rep, find(i, "hickle.hickle", "RootContainer"), C(b"x"), EXT("user.Object"))
    f = find(i, "hickle.lookup", "create_pickled_dataset")
    with rep.guard("C14.writer", f.a[0].name):
        i = interp()
        handler_arm(i)
        paths, excs = writer(i, f, "user.Object")
        judge(rep, "C14.writer", f.a[0].qual, [("R", None, p.st) for p in paths], fn_loc(f))


def reader(rep, fn, args):
    with rep.guard("C14.found", fn.a[0].qual):
        i = interp()
        quiet(i)
        check_found(rep, fn.a[0].qual, run(i, fn, args), fn_loc(fn))
    with rep.guard("C14.reader", fn.a[0].qual):
        i = interp()
        handler_arm(i)
        outs = run(i, fn, args)
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, "C14.reader", fn.a[0].qual, outs, fn_loc(fn), args[2])
        if cname(args[2]) not in ("builtins.NoneType", None) and "load_nothing" != fn.a[0].name:
            nones = [o for o in outs if o[0] == "R" and o[1] is NONE and not any(e.op == "inject" for e in o[2].events())]
            if nones:
                rep.bad("C14.result", "%s returns None" % fn.a[0].qual, "a path of the reader returns None instead of an object read from the file", fn_loc(fn), trace(nones[0][2], ops=("call", "callx", "caught")))


def lookups(st):
    """conditions of a path that say another node was looked for and not found"""
    for t, v in st.facts.items():
        while t.k == "NOT":
            t, v = t.a[0], not v
        if t.k == "CMP" and t.a[0] in ("is", "is not", "==", "!=") and NONE in t.a[1:]:
            x = t.a[1] if t.a[2] is NONE else t.a[2]
            if bool(v) == (t.a[0] in ("is", "==")) and x.k == "CL" and elsewhere(x.a[0]):
                yield x
        elif t.k == "CMP" and t.a[0] in ("in", "not in") and outside(t.a[2]) and bool(v) == (t.a[0] == "not in"):
            yield t
        elif t.k == "CL" and elsewhere(t.a[0]) and not v:
            yield t


def quiet(i):
    i.inline = hickle_inline
    i.raises = lambda *a: ()
    i.keep_fact = None
    i.max_outcomes = 20000


def check_found(rep, what, outs, loc, tabled=()):
    bad = [(x, s) for k, v, s in outs if k == "R" for x in lookups(s) if not any(y.k == "AT" and y.a[1] == "attrs" for y in subterms(x))]
    if bad:
        rep.bad("C14.found", "%s: %s" % (what, pp(bad[0][0], 4)), "a node that is needed but missing from the file does not raise: the reader goes on without it", loc, trace(bad[0][1]))
    else:
        rep.ok("C14.found", "%s (%d paths)" % (what, len(outs)))


def is_dummy(t, v, item):
    """the path condition says that the item is the marker for 'nothing'"""
    while t.k == "NOT":
        t, v = t.a[0], not v
    return t.k == "CMP" and t.a[0] in ("is", "==", "is not", "!=") and bool(v) == (t.a[0] in ("is", "==")) and T() in t.a[1:] and any(x is item for x in subterms(t))


def check_kept(rep, cls, tag, typ):
    """an item handed to a container is kept or refused"""
    what = cls.a[0].qual
    item = S("item", "user.Object")
    with rep.guard("C14.kept", what):
        i = interp()
        quiet(i)
        n, found = 0, []
        for k, obj, s in run(i, cls, [S("h_attrs", "h5py.AttributeManager"), tag, typ]):
            if k != "R":
                continue
            f = i.attr(obj, "filter", s, top_ctx(i), NOWHERE)[0][0]
            for o in run(i, f, [S("h_parent", "h5py.Group")], [], s):
                if o[0] == "R":
                    found += [("X" if kk == "X" else "R", x, s3) for kk, els, s3, x in run_gen_collect(i, o[1], o[2])]
            if (cname(typ) or "").startswith(("scipy.", "numpy.ma.")):
                continue                        # keyed by the names of the constituents: C05
            f = i.attr(obj, "append", s, top_ctx(i), NOWHERE)[0][0]
            before = len(s.events())
            for kk, v, s2 in run(i, f, [S("h_name", "builtins.str"), item, S("i_attrs", "h5py.AttributeManager")], [], s):
                n += 1
                if kk != "R":
                    continue
                if any(is_dummy(t, v2, item) for t, v2 in s2.facts.items()):
                    continue
                held = False
                for e in s2.events()[before:]:
                    ts = [e.val] + list(e.args) + [x for _, x in e.kws]
                    if e.op in ("setitem", "setattr", "call", "superinit") and any(isinstance(t, Node) and any(y is item for y in subterms(t)) for t in ts):
                        held = True
                if not held:
                    o = s2.obj(obj)
                    held = o is None or any(isinstance(x, Node) and any(y is item for y in subterms(i.freeze(x, s2))) for _, x in o.attrs)
                if not held:
                    rep.bad("C14.kept", "%s.append drops an item" % what, "append returns normally without keeping the item it was handed", fn_loc(f) if f.k == "FN" else (cls.a[0].relpath if hasattr(cls.a[0], "relpath") else "", 0, what), trace(s2))
                    return
        rep.use(i)
        rep.paths += n
        check_found(rep, what + ".filter", found, (cls.a[0].relpath if hasattr(cls.a[0], "relpath") else "", 0, what))
        rep.ok("C14.kept", "%s (%d paths)" % (what, n))


def container(rep, cls, tag, typ):
    what = cls.a[0].qual
    with rep.guard("C14.reader", what):
        i = interp()
        handler_arm(i)
        outs = []
        for k, obj, s in run(i, cls, [S("h_attrs", "h5py.AttributeManager"), tag, typ]):
            outs.append((k, obj, s))
            if k != "R" or any(e.op == "inject" for e in s.events()):
                continue
            for m, args in (("filter", [S("h_parent", "h5py.Group")]), ("append", [S("h_name", "builtins.str"), S("item"), S("i_attrs", "h5py.AttributeManager")]), ("convert", [])):
                f = i.attr(obj, m, s, top_ctx(i), NOWHERE)[0][0]
                for o in run(i, f, args, [], s):
                    if o[0] == "R" and m == "filter":
                        for kk, els, s3, x in run_gen_collect(i, o[1], o[2]):
                            outs.append(("X" if kk == "X" else "R", x, s3))
                    else:
                        outs.append(o)
        rep.use(i)
        rep.paths += len(outs)
        judge(rep, "C14.reader", what, outs, (cls.a[0].relpath if hasattr(cls.a[0], "relpath") else "", 0, what), typ)


def check_managers(rep):
    i = interp()
    RM, LM = find(i, "hickle.lookup", "ReferenceManager"), find(i, "hickle.lookup", "LoaderManager")
    for cls, name in ((RM, "store_type"), (RM, "resolve_type"), (LM, "load_loader"), (LM, "register_class")):
        with rep.guard("C14.manager", name):
            i = interp()
            if name == "load_loader":
                f = method(i, cls, name)
                arm(i)
                raises, mark = i.raises, i.mark_inject
                i.reset_policy()
                i.raises, i.mark_inject = raises, mark
                f, outs = lookup_paths_armed(i)
            else:
                handler_arm(i)
                f = method(i, cls, name)
                slf = S("self", "hickle.lookup." + cls.a[0].name)
                args = {"store_type": [slf, S("h_node", "h5py.Dataset"), EXT("user.Object"), C(b"tag")],
                        "resolve_type": [slf, S("h_node", "h5py.Dataset")],
                        "register_class": [cls, EXT("user.Object"), C(b"tag"), S("f1"), S("f2"), S("c"), TRUE, NONE]}[name]
                outs = run(i, f, args)
            rep.use(i)
            rep.paths += len(outs)
            judge(rep, "C14.manager", f.a[0].qual, outs, fn_loc(f))
    # context managers never suppress
    for cls in (RM, LM):
        with rep.guard("C14.exit", cls.a[0].name):
            i = interp()
            i.keep_fact = no_opaque
            i.inline = lambda fi, st, ctx: fi.module == "hickle.lookup"
            f = method(i, cls, "__exit__")
            outs = run(i, f, [S("self", "hickle.lookup." + cls.a[0].name), S("exc_type", "builtins.type"), S("exc", "builtins.Exception"), S("tb")])
            rep.use(i)
            rep.paths += len(outs)
            bad = False
            for k, v, s in outs:
                if k == "R" and not (is_c(v) and not cval(v)):
                    if v.k in ("TOP", "S"):
                        rep.unknown("C14.exit", cls.a[0].name, "result not understood")
                    else:
                        rep.bad("C14.exit", "%s.__exit__" % cls.a[0].name, "returns %s, so that an exception raised inside the with block may be suppressed" % pp(v, 4), fn_loc(f), trace(s))
                    bad = True
                    break
            if not bad:
                rep.ok("C14.exit", cls.a[0].name)


def lookup_paths_armed(i):
    U = EXT("user.Object")
    keep = i.keep_event
    f, outs = lookup_paths(i, U, (U,), None)
    # events of lookup_paths do not include injections: run again with them
    old = i.keep_event
    i.keep_event = lambda e: e.op in ("inject", "caught")
    outs = run(i, f, [LSELF, U])
    return f, outs


def check(rep, tier):
    rep.rule("C14.dump", "no path of dump with a failed operation returns normally")
    rep.rule("C14.load", "no path of load with a failed operation returns normally")
    rep.rule("C14.cause", "a failure while reading leaves load as ValueError with the original error as cause")
    rep.rule("C14.result", "every normal return of load yields a value read from the file")
    rep.rule("C14.items", "every item of a container is stored and loaded")
    rep.rule("C14.writer", "no writer returns normally after one of its operations failed")
    rep.rule("C14.reader", "no reader or container step returns normally after one of its operations failed")
    rep.rule("C14.found", "a reader that does not find another node it needs raises")
    rep.rule("C14.kept", "every item handed to a container is kept, or append raises")
    rep.rule("C14.manager", "type records and loader lookup do not swallow failures")
    rep.rule("C14.exit", "the managers' __exit__ returns a false value")
    for which in ("dump", "load"):
        for kind in ("builtins.str", "h5py.File", "user.FileLike"):
            with rep.guard("C14." + which, kind):
                check_entry(rep, which, kind)
    with rep.guard("C14.items", "recursion"):
        check_complete(rep)
    check_handlers(rep)
    check_managers(rep)
