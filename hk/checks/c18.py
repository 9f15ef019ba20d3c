"""Constant propagation over version stamps: load() is interpreted on files whose attributes are those of every
generation, and of none, for every way of passing the file; the reader it dispatches to and the arguments handed on
are compared with the generation. The stamps dump writes are fed back to load, the 4.x loader set and its lambda
workaround are interpreted, and the tables of the v3 reader are compared with the tags of the v3 writer."""
from ..registry import *
from ..core import *
from ..explore import KINDS
from ..places import *
from . import c02, c10, c16, c20

TGT = S("target group", "h5py.Group")
SAFE = S("safe", "builtins.bool")
PV = C("3.8.5")
V3 = [(C("CLASS"), C(b"hickle")), (C("VERSION"), C("3.4.9")), (C("PYTHON_VERSION"), PV), (C("type"), S("v3 type"))]


def v3(cls=b"hickle", ver="3.4.9"):
    return [(C("CLASS"), C(cls)), (C("VERSION"), C(ver)), (C("PYTHON_VERSION"), PV), (C("type"), S("v3 type"))]


def v4(ver):
    return [(C("HICKLE_VERSION"), C(ver)), (C("HICKLE_PYTHON_VERSION"), PV)]


def attributes(i, fo, fattrs, tattrs):
    """the attributes of the file and of the target group are known"""
    attr0, call0, item0, fork0 = i.model_attr, i.model_call, i.model_item, i.fork_hook
    h5 = any("h5py" in str(x) for x in fo.a)
    isgroup = any("h5py.Group" in str(x) for x in fo.a)

    def isfile(t):
        return t is fo and h5 and not isgroup or t.k == "AT" and t.a[1] == "file" and (t.a[0] is fo or t.a[0] is TGT or isfile(t.a[0])) or t.k == "CL" and t.a[0] is EXT("h5py.File")

    def known(t):
        if t.k == "AT" and t.a[1] == "attrs":
            if t.a[0] is TGT:
                return tattrs
            if isfile(t.a[0]):
                return fattrs
        return None

    def call(f, args, kws, st, ctx, n):
        if f.k == "AT":
            b, m = f.a
            if isfile(b) and m in ("get", "__getitem__", "require_group") and args:
                return [(TGT, st.emit(Ev("reached", b, None, TGT, (), (), ctx.fn.loc(n))))]
            d = known(b)
            if d is not None:
                if m == "items":
                    return [(T(*[T(k, v) for k, v in d]), st)]
                if m == "keys":
                    return [(T(*[k for k, v in d]), st)]
                if m == "values":
                    return [(T(*[v for k, v in d]), st)]
                if m == "get" and args:
                    for k, v in d:
                        if k is args[0]:
                            return [(v, st)]
                    if is_c(args[0]):
                        return [(args[1] if len(args) > 1 else NONE, st)]
                if m == "__contains__" and args and is_c(args[0]):
                    return [(C(any(k is args[0] for k, v in d)), st)]
                if m == "__getitem__" and args:
                    return item(b, args[0], st, ctx, n)
        if f.k == "EXT" and args and f.a[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset") and known(args[0]) is not None:
            return [(T(*[k for k, v in known(args[0])]), st)]
        if f is EXT("builtins.dict") and args and known(args[0]) is not None:
            return [st.alloc(("attrs-copy", ctx.fn.loc(n)), HO("dict", None, (), (tuple(known(args[0])), ())))]
        return call0(f, args, kws, st, ctx, n) if call0 else None

    def item(b, idx, st, ctx, n):
        if isfile(b):
            return [(TGT, st.emit(Ev("reached", b, None, TGT, (), (), ctx.fn.loc(n))))]
        d = known(b)
        if d is not None and is_c(idx):
            for k, v in d:
                if k is idx:
                    return [(v, st)]
            i.throw(mk("EXC", EXT("builtins.KeyError"), (), NONE), st)
            return []
        return item0(b, idx, st, ctx, n) if item0 else None

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        r = None
        if x is TGT or isfile(x) or x is fo and h5:
            r = True
        elif x.k == "ISI" and x.a[0] is fo and isgroup and x.a[1] is EXT("h5py.File"):
            r = False
        elif x.k == "CMP" and x.a[0] in ("in", "not in") and is_c(x.a[1]):
            d = known(x.a[2])
            if d is not None:
                r = any(k is x.a[1] for k, v in d) == (x.a[0] == "in")
            elif isfile(x.a[2]):
                r = x.a[0] == "in"
        if r is None:
            return fork0(t, st) if fork0 else None
        return r != neg
    i.model_call, i.model_item, i.fork_hook = call, item, fork
    i.model_mapping = lambda v, st: known(v)
    i.model_iter = lambda v, st: [k for k, _ in known(v)] if isinstance(v, Node) and known(v) is not None else None
    return isfile


def is_v3_load(e):
    return e.op in ("call", "callx") and e.target is not None and e.target.k == "FN" and e.target.a[0].module.startswith("hickle.legacy_v3")


def pickle_arg(e):
    """the unpickler handed to the reference manager; NONE if the default is used"""
    args = [a for a in e.args if a.k not in ("CLS",)]
    kw = kwmap(e)
    return kw.get("pickle_loads", args[1] if len(args) > 1 else None)


def legacy_arg(e):
    args = [a for a in e.args if a.k not in ("CLS",)]
    kw = kwmap(e)
    return kw.get("legacy", args[1] if len(args) > 1 else FALSE)


def route(rep, subj, want, kind, name, path, fattrs, tattrs):
    i = interp()
    i.raises = lambda *a: ()
    i.inline = core_inline
    i.keep_fact = None
    i.max_outcomes = 20000
    i.mark_inject = lambda e: True
    fo, args, kws = entry_args("load", kind, path=C(path))
    if name is not None:
        c20.named(i, fo, name)
    isfile = attributes(i, fo, fattrs, tattrs)
    main = find(i, "hickle.hickle", "load")
    outs = run(i, main, args, kws + [("safe", SAFE)])
    rep.use(i)
    loc = fn_loc(main)
    rule = "C18." + ("v3" if want == "v3" else "v4" if want == "4" else "current" if want == "5" else "reject")
    good, n = True, 0
    for k, v, s in outs:
        evs = s.events()
        if any(e.op == "inject" for e in evs):
            continue
        rep.paths += 1
        if s.facts and any(contains(t, TGT) and any(x.k == "AT" and x.a[1] == "attrs" for x in subterms(t)) and not any(x.k == "CL" and manager(x) for x in subterms(t)) for t in s.facts):
            rep.unknown(rule, subj, "test of the attributes not understood")
            good = False
            continue
        if k == "X" and not any(e.op == "reached" for e in evs):
            continue                    # the file argument itself is unusable
        n += 1
        old = [e for e in evs if is_v3_load(e)]
        mgr = [(manager(e.val), e) for e in evs if e.op == "call" and isinstance(e.val, Node) and e.val.k == "CL" and (e.key == "create_manager" or e.key is None) and manager(e.val) and e.target.k != "EXT"]

        def bad(c, m, e=None):
            nonlocal good
            good = False
            rep.bad(rule, c, "%s: %s" % (subj, m), e.loc if e is not None and e.loc else loc, trace(s))
        if want == "v3":
            if mgr:
                bad("load: v3 file", "the file is handled by the current reader", mgr[0][1])
            elif k == "X":
                bad("load: v3 file rejected", "load raises %s" % pp(v, 3))
            elif not old:
                bad("load: v3 file", "the v3 reader is not called")
            else:
                e = old[-1]
                b = bound(e)
                f = next((x for x in b.values() if isinstance(x, Node) and (isfile(x) or x is fo)), None)
                p = b.get("path")
                target = comps(C(name or "/")) + comps(C(path))
                if v is not e.val:
                    bad("load: result of the v3 reader", "load returns %s instead of what the v3 reader returns" % pp(v, 3), e)
                elif f is None or f is fo and not isfile(fo) and kind != "h5py.Group" or f is fo and kind == "h5py.Group":
                    bad("load: file handed to the v3 reader", "the v3 reader is given %s instead of the open file" % ", ".join(pp(x, 3) for x in b.values() if isinstance(x, Node)), e)
                elif p is None and target or p is not None and comps(p) is not None and comps(p) != target:
                    bad("load: path handed to the v3 reader", "the v3 reader is given the path %s instead of /%s" % (pp(p, 3) if p is not None else "/", "/".join(target)), e)
                elif b.get("safe") is not SAFE:
                    bad("load: safe flag of the v3 reader", "the v3 reader is given safe=%s instead of the flag of the caller" % pp(b.get("safe", TRUE), 3), e)
        elif want == "reject":
            if old or mgr:
                bad("load: foreign file", "the file is handed to a reader", (old or [mgr[0][1]])[0])
            elif k != "X":
                bad("load: foreign file", "load returns %s instead of raising" % pp(v, 3))
        else:
            if old:
                bad("load: file of version %s" % ("4.x" if want == "4" else "5 or newer"), "the file is handed to the v3 reader", old[0])
                continue
            l = [e for m, e in mgr if m == "loader"]
            r = [e for m, e in mgr if m == "memo"]
            if not l or not r:
                if k == "X":
                    bad("load: file of version %s rejected" % ("4.x" if want == "4" else "5 or newer"), "load raises %s" % pp(v, 3))
                else:
                    rep.unknown(rule, subj, "managers not found")
                    good = False
                continue
            for e in l:
                a = legacy_arg(e)
                if a not in (TRUE, FALSE, C(1), C(0), NONE):
                    rep.unknown(rule, subj, "legacy flag %s" % pp(a, 3))
                    good = False
                elif bool(cval(a)) != (want == "4"):
                    bad("load: loader set", "the 4.x loader set is %sused" % ("not " if want == "4" else ""), e)
            for e in r:
                a = pickle_arg(e)
                fix = a is not None and a.k == "FN" and a.a[0].module.startswith("hickle")
                if a is not None and a.k not in ("FN", "EXT"):
                    rep.unknown(rule, subj, "unpickler %s" % pp(a, 3))
                    good = False
                elif fix != (want == "4"):
                    bad("load: lambda workaround", "the lambda workaround of 4.x is %sused" % ("not " if want == "4" else ""), e)
    if good and n:
        rep.ok(rule, subj)
    elif good:
        rep.unknown(rule, subj, "no path reaches a decision")


PLACES = [("builtins.str", None), ("pathlib.Path", None), ("user.FileLike", None), ("builtins.tuple", None), ("builtins.dict", None), ("h5py.File", "/"), ("h5py.Group", "/g")]


def check_routes(rep):
    for kind, name in PLACES:
        for path in ("/", "/a"):
            root = path == "/" and name in (None, "/")
            what = "load(%s, path=%r)" % (kind.split(".")[-1], path)

            def both(f, t):
                return (f + t, f + t) if root else (f, t)
            cases = [("v3", "3 file, version %s" % ver, v3(cls, ver), []) for cls, ver in ((b"hickle", "3.4.9"), ("hickle", "3.0.0"), (b"hickle", "3.2.1"))]
            cases += [("4", "%s file" % ver, [], v4(ver)) for ver in ("4.0.0", "4.0.4", "4.1.0")]
            cases += [("5", "%s file" % ver, [], v4(ver)) for ver in ("5.0.0", "5.0.3", "5.1.0.dev0", "6.0", "10.4.0", "40.1.0", "14.4.4")]
            if not root:
                cases += [("5", "5.0.3 group in a file stamped 4.0.4", v4("4.0.4"), v4("5.0.3")), ("4", "4.0.4 group in a file stamped 5.0.3", v4("5.0.3"), v4("4.0.4")),
                          ("reject", "group without attributes in a file stamped 5.0.3", v4("5.0.3"), [])]
            cases += [("reject", "file without attributes", [], []), ("reject", "file of another program", [(C("CLASS"), C(b"GROUP")), (C("VERSION"), C("1.0")), (C("PYTHON_VERSION"), PV)], []),
                      ("reject", "PyTables-like file", [(C("CLASS"), C(b"GROUP")), (C("VERSION"), C("3.0"))], []),
                      ("reject", "hickle 2 file", v3(b"hickle", "2.1.0"), []),
                      ("reject", "hickle 1 file", v3(b"hickle", "1.4.0"), []),
                      ("reject", "v3 stamps with version 4", v3(b"hickle", "4.0.0"), []),
                      ("reject", "incomplete stamps", [], [(C("HICKLE_VERSION"), C("5.0.0"))]),
                      ("reject", "incomplete stamps (python version only)", [], [(C("HICKLE_PYTHON_VERSION"), PV)])]
            for want, txt, f, t in cases:
                fa, ta = both(f, t)
                subj = "%s, %s" % (what, txt)
                with rep.guard("C18." + {"v3": "v3", "4": "v4", "5": "current"}.get(want, "reject"), subj):
                    route(rep, subj, want, kind, name, path, fa, ta)


def nonempty(v):
    """the value as load will see it; None: not understood"""
    if is_c(v):
        return v
    if v.k == "CAT" and any(is_c(x) and cval(x) for x in v.a[1]):
        return PV
    return None


def check_stamps(rep):
    """what dump writes is read by the current route"""
    for kind, name, path in (("builtins.str", None, "/"), ("h5py.File", "/", "/a"), ("h5py.Group", "/g", "/a")):
        subj = "dump(%s, path=%r) and load" % (kind.split(".")[-1], path)
        with rep.guard("C18.stamp", subj):
            i = interp()
            i.raises = lambda *a: ()
            fo, outs = c10.run_dump(i, kind, C("w"), name, C(path))
            rep.use(i)
            seen = []
            for k, v, s in outs:
                if k != "R":
                    continue
                pl = c10.places(s, fo, name)
                d = {}
                for e in s.events():
                    if e.op == "setitem" and e.target.k == "AT" and e.target.a[1] == "attrs" and is_c(e.key):
                        l = pl.at(e.target.a[0])
                        if l == (ROOT,) + comps(C(name or "/")) + comps(C(path)):
                            d[e.key] = (e.val, e)
                    elif e.op == "call" and e.key in ("update", "create", "modify") and e.target.k == "AT" and e.target.a[1] == "attrs" and pl.at(e.target.a[0]) == (ROOT,) + comps(C(name or "/")) + comps(C(path)):
                        for kk, (x, ee) in attrs_written(s, e.target.a[0]).items():
                            d[C(kk) if not isinstance(kk, Node) else kk] = (x, ee)
                if d not in seen:
                    seen.append(d)
            for d in seen:
                vals = [(kk, nonempty(x)) for kk, (x, e) in d.items()]
                if any(x is None for _, x in vals):
                    rep.unknown("C18.stamp", subj, "stamps not understood: %s" % ", ".join(pp(x, 3) for x, _ in d.values()))
                    continue
                before = len(rep.violations), len(rep.obligations)
                route(rep, "%s after dump(%s)" % ("load", kind.split(".")[-1]), "5", kind, name, path, vals if path == "/" and name in (None, "/") else [], vals)
                if len(rep.violations) == before[0]:
                    rep.ok("C18.stamp", subj)
                    break


def check_legacy_set(rep):
    """the 4.x loader set of the loader manager"""
    i = interp()
    st0 = tables(i).st
    LM = find(i, "hickle.lookup", "LoaderManager")
    loc = fn_loc(method(i, LM, "__init__"))
    for legacy in (TRUE, FALSE):
        with rep.guard("C18.v4", "loader manager, legacy=%s" % pp(legacy)):
            i = interp()
            c16.policy(i, c16.VERSION)
            outs = c16.create(i, st0, [c16.GROUP, legacy])
            rep.use(i)
            good, n = True, 0
            for k, v, s in outs:
                if k != "R":
                    continue
                m = c16.maps_of(i, v, s)
                ct = c16.class_tables(i, s)
                if m is None or any(x is None for x in m):
                    rep.unknown("C18.v4", "loader manager", "loader sets not understood")
                    good = False
                    continue
                n += 1
                for nm, maps, d in zip(c16.FIELDS3, m, ct):
                    has = d.get("hickle-4.x") in maps
                    if has != (legacy is TRUE):
                        good = False
                        rep.bad("C18.v4", "loader manager: %s" % nm, "with legacy=%s %s %s the 4.x loaders" % (pp(legacy), nm, "lacks" if legacy is TRUE else "has"), loc, trace(s))
                    elif has and maps.index(d["hickle-4.x"]) > maps.index(d[None]):
                        good = False
                        rep.bad("C18.v4", "loader manager: %s" % nm, "the common loaders take precedence over the 4.x loaders", loc, trace(s))
                mro = i.attr(v, "_mro", s, top_ctx(i), NOWHERE)[0][0]
                if mro is EXT("builtins.type.mro") or mro.k == "AT" and mro.a[0] is EXT("builtins.type"):
                    special = False
                elif mro.k in ("FN", "BM"):
                    special = True
                else:
                    rep.unknown("C18.v4", "loader manager", "mro function %s" % pp(mro, 3))
                    continue
                if special != (legacy is TRUE):
                    good = False
                    rep.bad("C18.v4", "loader manager: classes that are functions", "with legacy=%s the mro of stored types is taken from %s" % (pp(legacy), pp(mro, 2)), loc, trace(s))
            if good and n:
                rep.ok("C18.v4", "loader manager, legacy=%s" % pp(legacy))


def check_lambda(rep):
    """the unpickler of 4.x files: no type -> object, a lambda -> the stand-in registered for 4.x"""
    i = interp()
    f = find(i, "hickle.lookup", "fix_lambda_obj_type")
    loc = fn_loc(f)
    with rep.guard("C18.lambda", "missing type"):
        outs = run(i, f, [NONE])
        if all(k == "R" and v is EXT("builtins.object") for k, v, s in outs) and outs:
            rep.ok("C18.lambda", "missing type")
        else:
            rep.bad("C18.lambda", "fix_lambda_obj_type: missing type", "a 4.x node without type is given the type %s instead of object" % ", ".join(pp(v, 2) for k, v, s in outs), loc)
    t = tables(interp())
    with rep.guard("C18.lambda", "lambda"):
        i = interp()
        TE = mk("EXC", EXT("builtins.TypeError"), (), NONE)
        i.raises = lambda i, f, args, kws, st, ctx: (TE,) if f is EXT("pickle.loads") else ()
        i.inline = lambda fi, st, ctx: fi.module == "hickle.lookup"
        outs = run(i, f, [S("type", "builtins.bytes")])
        rep.use(i)
        good = True
        for k, v, s in outs:
            rep.paths += 1
            failed = any(e.op == "callx" and ev_name(e) == "pickle.loads" for e in s.events())
            if k == "X":
                good = False
                rep.bad("C18.lambda", "fix_lambda_obj_type: lambda", "a pickled lambda raises %s" % pp(v, 2), loc, trace(s))
            elif failed and v not in t.types.get("hickle-4.x", {}):
                good = False
                rep.bad("C18.lambda", "fix_lambda_obj_type: stand-in", "a pickled lambda is replaced by %s, for which no 4.x loader is registered" % pp(v, 2), loc, trace(s))
            elif not failed and not any(x is EXT("pickle.loads") for x in subterms(v)):
                good = False
                rep.bad("C18.lambda", "fix_lambda_obj_type: type", "the stored type is replaced by %s" % pp(v, 2), loc, trace(s))
        if good and outs:
            rep.ok("C18.lambda", "lambda")


V4_DATASETS = "list tuple set bytes str int float complex bool None np_dtype np_scalar ndarray ndarray_masked_data np_matrix pickle " \
    "astropy_quantity astropy_time astropy_angle astropy_skycoord astropy_constant astropy_table"
V4_SKIPPED = "ndarray_masked_mask"
V4_GROUPS = "list tuple set dict dict_item ndarray csr_matrix csc_matrix bsr_matrix"
V4_OWN = "str"      # stored differently by 4.x than by later versions
V4_ONLY = "ndarray_masked_data"


def check_v4tags(rep):
    """every tag 4.x wrote is known to the 4.x loader set"""
    i = interp()
    t = tables(i)
    loc = ("hickle/lookup.py", 1, "LoaderManager")

    def get(tab, tag):
        for o in ("hickle-4.x", None):
            if tag in tab.get(o, {}):
                return tab[o][tag]
        return None
    for tag in V4_DATASETS.split() + V4_SKIPPED.split():
        skip = tag in V4_SKIPPED.split()
        good = True
        for form in (tag.encode(), tag):
            fn = get(t.load, form)
            if fn is None:
                good = False
                rep.bad("C18.v4tags", "4.x reader: %s" % tag, "no reader is known for datasets 4.x tagged %r" % form, loc)
            elif fn.k in ("FN", "LAM") and (fn.k == "FN" and fn.a[0].name == "load_nothing") != skip:
                good = False
                rep.bad("C18.v4tags", "4.x reader: %s" % tag, "datasets 4.x tagged %r are %s" % (form, "loaded by %s" % pp(fn, 2) if skip else "skipped"), loc)
            elif tag in V4_OWN.split() and form not in t.load.get("hickle-4.x", {}):
                good = False
                rep.bad("C18.v4tags", "4.x reader: %s" % tag, "datasets 4.x tagged %r are read by %s, which expects the layout of later versions" % (form, pp(fn, 2)), loc)
        if good:
            rep.ok("C18.v4tags", tag)
    for tag in V4_GROUPS.split():
        good = True
        for form in (tag.encode(), tag):
            c = get(t.cont, form)
            if c is None or c.k == "CLS" and c.a[0].name == "NoContainer":
                good = False
                rep.bad("C18.v4tags", "4.x reader: group %s" % tag, "groups 4.x tagged %r are %s" % (form, "not known" if c is None else "skipped"), loc)
        if good:
            rep.ok("C18.v4tags", "group " + tag)
    for tag in V4_ONLY.split():
        if tag.encode() in t.load.get(None, {}):
            rep.bad("C18.v4tags", "current reader: %s" % tag, "the 4.x reader of %r is part of the set for newer files" % tag, loc)


CLASSES = ("list", "tuple", "set")
SPEC = {   # tags hickle 3 wrote on datasets, and what has to be done with them: 'load' or 'skip' (read along with another one)
    **{("<class '%s'>" % c).encode(): "load" for c in CLASSES},
    b"bytes": "load", b"string": "load", b"python_dtype": "load", b"pickle": "load", b"none": "load", b"np_dtype": "load", b"np_scalar": "load", b"ndarray": "load",
    b"ndarray_masked_data": "load", b"ndarray_masked_mask": "skip",
    **{("astropy_%s" % c).encode(): "load" for c in ("quantity", "angle", "skycoord", "time", "constant", "table")},
    **{("%s_matrix_%s" % (m, p)).encode(): "load" if p == "data" else "skip" for m in ("csr", "csc", "bsr") for p in ("data", "indices", "indptr", "shape")},
}


def v3_writers(i):
    """functions of the v3 package that write a 'type' attribute"""
    import ast
    out = []
    for fi in i.fi_by_node.values():
        if fi.module.startswith("hickle.legacy_v3") and not fi.nested and fi.cls is None and fi.name not in ("dump", "_dump"):
            for x in ast.walk(fi.node):
                if isinstance(x, ast.Constant) and x.value == "type":
                    out.append(fi)
                    break
    return out


def check_v3(rep):
    i = interp()
    st = state(i)
    f = st.frame(("mod", "hickle.legacy_v3.lookup"))
    if f is None:
        raise Broken("the v3 reader is gone")
    T_ = {}
    for n in ("hkl_types_dict", "container_types_dict", "container_key_types_dict"):
        d = dict_of(f[n], st) if n in f else None
        if d is None:
            raise Broken("table %s of the v3 reader not understood" % n)
        T_[n] = d
    loc = ("hickle/legacy_v3/lookup.py", 1, "hkl_types_dict")
    # tags of the writers in the tree
    emitted, groups = dict(SPEC), {}
    for fi in v3_writers(i):
        with rep.guard("C18.v3tags", fi.fullname):
            i2 = interp()
            i2.raises = lambda *a: ()
            i2.keep_fact = no_opaque
            i2.inline = lambda g, st, ctx: g.module.startswith("hickle.legacy_v3") and g.name not in ("_dump", "dump")
            fn = find(i2, fi.module, fi.name)
            ps = params(fn)
            outs = run(i2, fn, [S(p) if p != "h_group" else S(p, "h5py.Group") for p in ps], [])
            rep.use(i2)
            for k, v, s in outs:
                rep.paths += 1
                for e in s.events():
                    if e.op == "setitem" and is_c(e.key) and cval(e.key) == "type" and e.target.k == "AT" and e.target.a[1] == "attrs":
                        it = seq_items(e.val, s)
                        if it and is_c(it[0]) and isinstance(cval(it[0]), bytes):
                            node = e.target.a[0]
                            isg = node.k == "CL" and node.a[0].k == "AT" and node.a[0].a[1] == "create_group"
                            if isg:
                                groups[cval(it[0])] = fi.name
                            else:
                                emitted.setdefault(cval(it[0]), "load")
    good = True
    for tag, do in sorted(emitted.items()):
        fn = T_["hkl_types_dict"].get(tag)
        if fn is None:
            rep.bad("C18.v3tags", "v3 reader: %s" % tag.decode(), "no reader is registered for the tag %r hickle 3 writes" % tag, loc)
        else:
            nothing = fn.k in ("FN", "LAM") and reads_nothing(i, fn)
            if nothing and do == "load" and tag != b"none":
                rep.bad("C18.v3tags", "v3 reader: %s" % tag.decode(), "datasets tagged %r are skipped" % tag, loc)
            elif not nothing and do == "skip":
                rep.bad("C18.v3tags", "v3 reader: %s" % tag.decode(), "datasets tagged %r, which belong to another object, are loaded by %s" % (tag, pp(fn, 2)), loc)
            else:
                rep.ok("C18.v3tags", tag.decode())
    for g in ("csr_matrix", "csc_matrix", "bsr_matrix"):
        groups[g.encode()] = "create_sparse_dataset"
    for g, w in sorted(groups.items()):
        if g in (b"dict_item",):
            continue
        c = T_["container_types_dict"].get(g)
        if c is None:
            rep.bad("C18.v3tags", "v3 reader: group %s" % g.decode(), "no conversion is registered for groups tagged %r" % g, loc)
        else:
            rep.ok("C18.v3tags", "group " + g.decode())
    for c in CLASSES:
        for form in ("<class '%s'>", "<type '%s'>"):
            v = T_["container_types_dict"].get((form % c).encode())
            if v is not EXT("builtins." + c) and (v is None or v.k == "EXT"):
                rep.bad("C18.v3tags", "v3 reader: group " + form % c, "groups tagged %s become %s" % (form % c, pp(v, 2) if v is not None else "nothing"), loc)
            else:
                rep.ok("C18.v3tags", "group " + form % c)


def check_v3order(rep):
    """the recursion of the v3 reader meets the items of a group in the order of their numbers"""
    names = ["data_%d" % n for n in range(21)]
    for c in CLASSES:
        for form in ("<class '%s'>", "<type '%s'>"):
            tag = C((form % c).encode())
            with rep.guard("C18.v3order", form % c):
                i = interp()
                i.keep_fact = None
                i.raises = lambda *a: ()
                i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.legacy_v3") and fi.name not in ("load_dataset",)
                G = S("group", "h5py.Group")
                kids = {n: S("child " + n, "h5py.Dataset") for n in sorted(names)}
                ty = T(tag)

                def item(b, idx, st, ctx, n):
                    if b is G and is_c(idx):
                        k = cval(idx)
                        k = k.decode() if isinstance(k, bytes) else k
                        return [(kids[k], st)] if k in kids else None
                    if b is AT(G, "attrs") and idx is C("type"):
                        return [(ty, st)]

                def call(f, args, kws, st, ctx, n):
                    if f.k == "AT" and f.a[0] is G and f.a[1] in ("keys", "__iter__") and not args:
                        return [(T(*[C(k) for k in kids]), st)]
                    if f.k == "AT" and f.a[0] is G and f.a[1] == "items" and not args:
                        return [(T(*[T(C(k), v) for k, v in kids.items()]), st)]
                    if f.k == "AT" and f.a[0] is G and f.a[1] in ("get", "__getitem__") and args:
                        return item(G, args[0], st, ctx, n)
                    if f.k == "AT" and f.a[0] is AT(G, "attrs") and f.a[1] in ("get", "__getitem__") and args and args[0] is C("type"):
                        return [(ty, st)]
                    if f.k == "EXT" and f.a[0] in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted") and args and args[0] is G and not kws:
                        return [(T(*[C(k) for k in kids]), st)]
                i.model_call, i.model_item = call, item
                i.model_iter = lambda v, st: [C(k) for k in kids] if v is G else None
                fn = find(i, "hickle.legacy_v3.hickle", "_load")
                outs = run(i, fn, [S("container"), G])
                rep.use(i)
                good, n = True, 0
                for k, v, s in outs:
                    rep.paths += 1
                    if k != "R":
                        continue
                    seen = []
                    for e in s.events():
                        if e.op == "call" and isinstance(e.target, Node) and e.target.k == "FN":
                            for a in e.args:
                                if a in kids.values() and a not in seen:
                                    seen.append(a)
                    if len(seen) != len(kids):
                        rep.unknown("C18.v3order", form % c, "%d of %d items found" % (len(seen), len(kids)))
                        good = False
                        break
                    n += 1
                    if c != "set" and seen != [kids[x] for x in names]:
                        good = False
                        rep.bad("C18.v3order", "v3 reader: items of " + form % c, "the items of a group tagged %s are loaded in the order %s, ..." % (form % c, ", ".join(pp(x)[6:] for x in seen[:4])), fn_loc(fn), trace(s, ops=("call",)))
                        break
                if good and n:
                    rep.ok("C18.v3order", form % c)


def reads_nothing(i, fn):
    i2 = interp()
    i2.inline = lambda *a: True
    try:
        outs = run(i2, fn, [S("h_node", "h5py.Dataset")])
    except Exception:
        return False
    return bool(outs) and all(k == "R" and v is NONE for k, v, s in outs)


def check(rep, tier):
    rep.rule("C18.v3", "files with the stamps of hickle 3 are handed to the v3 reader with the open file, the path and the safe flag")
    rep.rule("C18.v4", "files stamped 4.x are read with the 4.x loader set and the lambda workaround")
    rep.rule("C18.current", "files stamped 5 or newer are read with neither")
    rep.rule("C18.reject", "anything else is rejected without being handed to a reader")
    rep.rule("C18.stamp", "what dump writes takes the current route")
    rep.rule("C18.lambda", "the 4.x unpickler maps missing types to object and lambdas to the registered stand-in")
    rep.rule("C18.v4tags", "every tag 4.x wrote has a reader or container in the 4.x loader set")
    rep.rule("C18.v3tags", "every tag of the v3 writer has a reader or conversion in the v3 tables")
    rep.rule("C18.v3order", "the v3 reader loads the items of sequences in the order of their numbers")
    check_routes(rep)
    check_stamps(rep)
    with rep.guard("C18.v4", "loader manager"):
        check_legacy_set(rep)
    with rep.guard("C18.lambda", "fix_lambda_obj_type"):
        check_lambda(rep)
    with rep.guard("C18.v4tags", "4.x tables"):
        check_v4tags(rep)
    with rep.guard("C18.v3tags", "v3 tables"):
        check_v3(rep)
    with rep.guard("C18.v3order", "v3 recursion"):
        check_v3order(rep)
