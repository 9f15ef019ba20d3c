"""Location analysis: path strings are propagated through dump, load and the file opener for every kind of file
argument, group name and path spelling; the location of every node created, written or read is computed and
compared with the location the caller asked for. Writers, recursion and managers are run with a symbolic group
and name; everything they create lies at that name in that group."""
from ..registry import *
from ..core import *
from ..explore import KINDS
from ..places import *
from . import c02

GNAMES = ("/g", "/g/h", "/_X.1_", "/ data/Ä")
PATHS = ("/", "", "a", "/a", "a/", "/a/", "a/b", "/a/b", "/a/b/", " a.B ", ".hidden", "g", "//a", "_x_/0")
DATA_KINDS = ("builtins.str", "pathlib.Path", "user.FileLike", "builtins.tuple", "builtins.dict")


def named(i, fo, name):
    """the name of the group passed in is known"""
    base = i.model_attr

    def attr(b, nm, st, ctx, n):
        if nm == "name" and (b is fo or b.k == "AT" and b.a[1] == "file" and b.a[0] is fo):
            return [(C(name if b is fo else "/"), st)]
        return base(b, nm, st, ctx, n) if base is not None else None
    i.model_attr = attr


def is_the_file(t, fo):
    """file opened on the argument"""
    return t.k == "CL" and t.a[0] is EXT("h5py.File") and (t.a[1] and is_from_arg(t.a[1][0], fo))


def is_from_arg(v, fo):
    return contains(v, fo)


def entry(rep, kind, name, path):
    """locations written by dump / read by load"""
    want_c = comps(C(name)) + comps(C(path)) if name is not None else comps(C(path))
    spelled = "%s%s, path=%r" % (kind.split(".")[-1], " " + name if name and name != "/" else "", path)
    found = {}
    for which in ("dump", "load"):
        i = interp()
        i.max_outcomes = 30000
        i.keep_event = lambda e: e.op in ("call", "callx", "setitem", "delitem", "getitem")
        i.raises = lambda *a: ()
        i.keep_fact = no_opaque
        rec = roles(i, which)[0].a[0]
        i.raises = lambda *a: ()
        fo = S("file_obj", kind)
        i.model_attr = None
        if name is not None:
            named(i, fo, name)
        i.inline = core_inline
        i.keep_fact = None
        _, args, k = entry_args(which, kind, mode=C("w") if which == "dump" else None, path=C(path))
        outs = run(i, find(i, "hickle.hickle", which), args, k)
        rep.use(i)
        rep.paths += len(outs)
        bases = {}
        if name is not None:
            bases[fo] = (ROOT,) + comps(C(name))
            bases[AT(fo, "file")] = (ROOT,)
        good = n = 0
        for kk, v, s in outs:
            evs = s.events()
            for e in evs:
                if e.op == "call" and e.target is EXT("h5py.File") and isinstance(e.val, Node) and is_the_file(e.val, fo):
                    bases[e.val] = (ROOT,)
            pl = Places(bases)
            want = (ROOT,) + want_c
            if which == "dump":
                for e, l, txt in pl.writes(evs):
                    if l is None:
                        rep.unknown("C20.root", "dump(%s)" % spelled, "location of %s in %s" % (txt, ev_loc(e)))
                        good = -10 ** 6
                        continue
                    n += 1
                    if not beneath(l, want):
                        good = -10 ** 6
                        rep.bad("C20.root", "dump: %s in %s" % (txt, e.loc[2]), "dump(%s) writes at %s, which is not beneath %s" % (spelled, show(l), show(want)), e.loc, trace(s))
                    if txt == "writer":
                        found.setdefault("dump", set()).add(l)
            if True:
                for e in evs:
                    if e.op != "call":
                        continue
                    m = manager(e.val) if isinstance(e.val, Node) and e.val.k == "CL" and e.key in (None, "create_manager") else None
                    for a in list(e.args) + [x for _, x in e.kws]:
                        if not isinstance(a, Node):
                            continue
                        l = pl.at(a) if not (a.k == "AT" and a.a[1] == "attrs") else None
                        if m and l is not None and l != want and a.k not in ("FN", "C", "CLS", "EXT"):
                            good = -10 ** 6
                            rep.bad("C20.root", "%s: manager in %s" % (which, e.loc[2]), "%s(%s) uses a manager of %s instead of %s" % (which, spelled, show(l), show(want)), e.loc, trace(s))
                    if which == "load" and e.key == "resolve_type" and e.args:
                        l = pl.at(e.args[0])
                        if l is None:
                            rep.unknown("C20.root", "load(%s)" % spelled, "location of the node loaded")
                            good = -10 ** 6
                            continue
                        found.setdefault("load", set()).add(l)
        if good < 0:
            return
    if not found.get("dump") or not found.get("load"):
        rep.unknown("C20.root", spelled, "place of the object not found in dump or load")
        return
    i = interp()
    main = find(i, "hickle.hickle", "load")
    for w in found:     # the object itself, not its items
        found[w] = {l for l in found[w] if not any(o is not l and beneath(l, o) and len(o) < len(l) for o in found[w])}
    if found["dump"] != found["load"]:
        rep.bad("C20.root", "load: place of the object", "with (%s) dump stores the object at %s, load reads it from %s" % (
            spelled, ", ".join(sorted(map(show, found["dump"]))), ", ".join(sorted(map(show, found["load"])))), fn_loc(main))
        return
    rep.ok("C20.root", spelled)


def check_entry(rep):
    for kind in DATA_KINDS:
        for p in PATHS:
            with rep.guard("C20.root", "%s %r" % (kind, p)):
                entry(rep, kind, None, p)
    for p in PATHS:
        with rep.guard("C20.root", "h5py.File %r" % p):
            entry(rep, "h5py.File", "/", p)
        for g in GNAMES:
            with rep.guard("C20.root", "h5py.Group %s %r" % (g, p)):
                entry(rep, "h5py.Group", g, p)


def writers(i):
    st = state(i)
    seen = {}
    for r in rows(i):
        if r.create.k == "FN" and r.create not in seen:
            seen[r.create] = cname(r.cls)
    f = st.frame(("mod", "hickle.lookup")) or {}
    v = f.get("create_pickled_dataset")
    if v is not None and v.k == "FN":
        seen.setdefault(v, None)
    return seen


def check_writers(rep):
    i = interp()
    top = ("<file>", "<group>", NAME)
    for create, cls in writers(i).items():
        fi = create.a[0]
        with rep.guard("C20.writer", fi.fullname):
            i = interp()
            setup(i)
            paths, excs = writer(i, create, cls)
            rep.use(i)
            rep.paths += len(paths) + len(excs)
            good = True
            pl = Places({GRP: ("<file>", "<group>"), AT(GRP, "file"): ("<file>",), AT(GRP, "parent"): ("<file>", "<parent>")})
            for p in paths:
                l = pl.at(p.node)
                if l is None:
                    rep.unknown("C20.writer", fi.fullname, "place of the node returned")
                    good = False
                elif l != top:
                    good = False
                    rep.bad("C20.writer", "%s: node returned" % fi.name, "the node returned lies at %s instead of at the name given in the group given" % show(l), fn_loc(create), trace(p.st))
            for s in [p.st for p in paths] + [s for _, s in excs]:
                for e, l, txt in pl.writes(s.events()):
                    if l is None:
                        rep.unknown("C20.writer", fi.fullname, "location of %s" % txt)
                        good = False
                    elif not beneath(l, top):
                        good = False
                        rep.bad("C20.writer", "%s: %s" % (fi.name, txt), "writes at %s, outside of the node it was asked to create" % show(l), e.loc, trace(s))
            if good:
                rep.ok("C20.writer", "%s (%d paths)" % (fi.fullname, len(paths)))


def check_items(rep):
    i = interp()
    paths = dump_paths(i)
    rep.use(i)
    rep.paths += len(paths)
    fn, m = roles(i, "dump")
    pl = Places({GRP: ("<file>", "<group>"), AT(GRP, "file"): ("<file>",), AT(GRP, "parent"): ("<file>", "<parent>")})
    top = ("<file>", "<group>", NAME)
    good, n = True, 0
    for p in paths:
        for e, l, txt in pl.writes(p.events):
            n += 1
            if l is None:
                rep.unknown("C20.item", fn.a[0].fullname, "location of %s" % txt)
                good = False
            elif not beneath(l, top):
                good = False
                rep.bad("C20.item", "%s: %s" % (fn.a[0].name, txt), "writes at %s instead of at the name given in the group given" % show(l), e.loc, p.trace())
        for _, e in p.recs:
            b = bound(e)
            g = b.get(m["group"])
            l = pl.at(g) if g is not None else None
            if l is None:
                rep.unknown("C20.item", fn.a[0].fullname, "group of the items")
                good = False
            elif l != top:
                good = False
                rep.bad("C20.item", "%s: items" % fn.a[0].name, "the items are stored in %s instead of in the node of their container" % show(l), e.loc, p.trace())
    if good and n:
        rep.ok("C20.item", "%s (%d paths)" % (fn.a[0].fullname, len(paths)))


def check_managers(rep):
    H = S("h_root_group", "h5py.Group")
    NODE = S("h_node", "h5py.Dataset")
    top = ("<file>", "<root group>")
    for cls in ("ReferenceManager", "LoaderManager"):
        with rep.guard("C20.manager", cls):
            i = interp()
            i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers") and fi.name != "get_root"
            i.keep_fact = no_opaque
            i.max_outcomes = 20000
            i.raises = lambda *a: ()
            c02.models(i)
            call0 = i.model_call
            C_ = find(i, "hickle.lookup", cls)
            f = i.attr(C_, "create_manager", state(i), top_ctx(i), NOWHERE)[0][0]
            st = state(i)
            args = [H]
            if cls == "LoaderManager":
                od, st = st.alloc(("in", "options"), HO("dict", None, (), (((C("custom"), TRUE),), ())))
                args = [H, FALSE, od]
            outs = run(i, f, args, [], st)
            rep.use(i)
            rep.paths += len(outs)
            good, n = True, 0
            bases = {H: top, NODE: ("<file>", "<node>"), c02.THEFILE: ("<file>",), AT(H, "file"): ("<file>",), AT(H, "parent"): ("<file>", "<parent>")}
            allouts = [(s, False) for k, v, s in outs]
            if cls == "ReferenceManager":
                sf = method(i, C_, "store_type")
                for k, v, s in outs:
                    if k == "R" and v.k == "OBJ":
                        o2 = run(i, sf, [v, NODE, S("py_obj_type", "builtins.type"), S("base_type", "builtins.bytes")], [("", KW)], s)
                        allouts += [(s2, True) for _, _, s2 in o2]
                        rep.paths += len(o2)
            for s, typed in allouts:
                b = dict(bases)
                for e in s.events():
                    if e.op == "call" and e.target is EXT("h5py.File"):
                        b[e.val] = ("<overlay>",)
                pl = Places(b)
                tables = set()
                for e, l, txt in pl.writes(s.events()):
                    if e.target.k == "MTAB" or "MTAB" in repr(e.target.k):
                        continue
                    n += 1
                    if l is None:
                        if any(x is H for x in subterms(e.target)) or True:
                            rep.unknown("C20.manager", cls, "location of %s (%s)" % (txt, ev_loc(e)))
                            good = False
                    elif l[0] == "<overlay>" or typed and l[:2] == ("<file>", "<node>"):
                        pass
                    elif not beneath(l, top):
                        good = False
                        rep.bad("C20.manager", "%s: %s in %s" % (cls, txt, e.loc[2]), "writes at %s, outside of the target group" % show(l), e.loc, trace(s))
            if good and n:
                rep.ok("C20.manager", "%s (%d paths)" % (cls, len(allouts)))


def check(rep, tier):
    rep.rule("C20.root", "dump writes only beneath the group and path given, and load reads the object from where dump stores it")
    rep.rule("C20.writer", "every writer creates its node at the name and in the group it was given and writes nowhere else")
    rep.rule("C20.item", "items are handed on with the node of their container")
    rep.rule("C20.manager", "the managers write only into the group they were created for (or an overlay in memory)")
    check_entry(rep)
    check_writers(rep)
    with rep.guard("C20.item", "items"):
        check_items(rep)
    check_managers(rep)
