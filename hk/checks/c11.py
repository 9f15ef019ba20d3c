"""Effect and alias analysis: every operation of dump, the recursion, the managers and every writer on a value that
is, or shares memory with, the object being stored or the options is classified; none may modify it. Objects that are
default values of parameters are compared before and after every run."""
from ..registry import *
from ..core import *
from . import c10, c16

IMMUTABLE = {"builtins." + x for x in ("str", "bytes", "int", "float", "complex", "bool", "NoneType", "frozenset", "range", "type")} | {
    "numpy.number", "numpy.generic", "numpy.dtype"}

MUTATE = set("""append extend insert pop remove clear sort reverse update setdefault popitem add discard difference_update
 intersection_update symmetric_difference_update __setitem__ __delitem__ __setattr__ __delattr__ __iadd__ __isub__ __imul__ __ior__ __iand__ __ixor__
 __itruediv__ appendleft extendleft popleft rotate move_to_end subtract
 fill partition resize itemset put setflags setfield __setslice__
 harden_mask soften_mask unshare_mask shrink_mask set_fill_value __setmask__
 sort_indices sum_duplicates eliminate_zeros prune setdiag
 add_column add_columns add_row add_index remove_column remove_columns remove_row remove_rows remove_indices keep_columns rename_column rename_columns
 replace_column insert_row convert_bytestring_to_unicode convert_unicode_to_bytestring set_delta_ut1_utc __setstate__ __init__ __exit__ close write""".split()) - {"__exit__", "close", "write"}

FIRST = {   # functions that modify their first argument
    "builtins.setattr", "builtins.delattr", "operator.setitem", "operator.delitem", "operator.iadd", "operator.imul", "operator.isub", "operator.ior", "operator.iconcat",
    "operator.iand", "operator.ixor", "operator.itruediv", "operator.ifloordiv", "operator.imod", "operator.ipow",
    "numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis", "numpy.random.shuffle", "random.shuffle", "heapq.heapify",
    "heapq.heappush", "heapq.heappop", "bisect.insort", "bisect.insort_left", "bisect.insort_right", "numpy.ma.put", "numpy.ma.putmask",
    "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at", "numpy.ma.harden_mask", "numpy.ma.soften_mask", "numpy.ma.set_fill_value"}

SAME = {"numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.require", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d",
        "numpy.asarray_chkfinite", "numpy.ma.asarray", "numpy.ma.asanyarray", "numpy.ma.getmask", "numpy.ma.getmaskarray", "numpy.ma.getdata", "builtins.vars", "builtins.getattr", "builtins.next",
        "operator.getitem", "builtins.min", "builtins.max"}
MEM = {"numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.broadcast_to", "numpy.expand_dims", "numpy.frombuffer", "builtins.memoryview", "numpy.moveaxis",
       "numpy.swapaxes", "numpy.diagonal", "numpy.ma.core.MaskedArray", "numpy.ma.MaskedArray", "numpy.matrix.view"}
COPYARG = {"numpy.array", "numpy.ma.array", "numpy.matrix", "numpy.asmatrix", "numpy.ma.core.MaskedArray", "astropy.units.Quantity", "astropy.units.quantity.Quantity", "astropy.table.Table",
           "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.bsr_matrix", "astropy.time.Time"}
ELEMS = {"builtins." + x for x in ("list", "tuple", "set", "dict", "sorted", "iter", "enumerate", "zip", "map", "filter", "reversed", "frozenset")} | {
    "copy.copy", "collections.OrderedDict", "itertools.chain", "itertools.islice", "collections.deque"}
M_SAME = {"get", "setdefault", "__getitem__", "__getattribute__", "__getattr__", "asfptype", "tocsr", "tocsc", "tobsr", "asformat", "__enter__", "columns", "itercols", "__array__"}
M_MEM = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "diagonal", "getfield", "filled", "to_value", "cast", "compressed"}
M_ELEMS = {"items", "values", "keys", "tolist", "copy", "__iter__", "itertuples", "iterrows"}
A_MEM = {"T", "real", "imag", "flat", "A", "A1", "H", "mask", "value"}
A_NEW = {"shape", "ndim", "size", "nbytes", "itemsize", "strides", "__name__", "__module__", "__qualname__", "nnz", "isscalar", "colnames", "name", "str", "names", "char", "kind"}


def kname(t):
    k = kind_of(t)
    return cname(k) if k is not None else None


def alias(t, roots, d=0):
    """how modifying t affects one of the roots: 'same' object, shared 'mem'ory, fresh container of shared 'elems', or None"""
    if t in roots:
        k = kname(t)
        return None if k in IMMUTABLE else "same"
    if d > 40:
        return None
    if t.k == "AT":
        a = alias(t.a[0], roots, d + 1)
        if a in (None, "elems") or t.a[1] in A_NEW:
            return None
        if t.a[1] in A_MEM:
            return "mem"
        if t.a[1] == "data" and str(kname(t.a[0])).startswith("numpy"):
            return "mem"
        return "same"
    if t.k == "IX":
        a = alias(t.a[0], roots, d + 1)
        if a is None:
            return None
        if a == "elems":
            return "same"
        k = str(kname(t.a[0]) or "")
        if k.startswith(("numpy", "scipy")) or a == "mem":
            ix = t.a[1]
            if ix.k == "SLICE" or is_c(ix) and not isinstance(cval(ix), (str, bytes)) or ix.k == "TUP" and all(x.k == "SLICE" or is_c(x) for x in ix.a):
                return "mem"
            return None
        if t.a[1].k == "SLICE":
            return "elems"
        return "same"
    if t.k in ("EL", "VAL", "KEY"):
        return "same" if alias(t.a[0], roots, d + 1) else None
    if t.k in ("LST", "TUP", "SET"):
        return "elems" if any(alias(x, roots, d + 1) for x in t.a) else None
    if t.k == "DCT":
        return "elems" if any(alias(v, roots, d + 1) for k, v in t.a[0]) else None
    if t.k == "GEN":
        return "elems" if any(isinstance(x, Node) and alias(x, roots, d + 1) for x in t.a) else None
    if t.k == "CL":
        f, args, kws = t.a
        kw = dict((k, v) for k, v in kws if k)
        if f.k == "AT":
            b, m = f.a
            a = alias(b, roots, d + 1)
            if a is None:
                return None
            if m == "astype" and kw.get("copy", args[-1] if args and len(args) > 4 else TRUE) in (FALSE, C(0), NONE):
                return "same"
            if m in M_SAME:
                return "same"
            if m in M_MEM:
                return "mem"
            if m in M_ELEMS:
                if m == "copy" and str(kname(b) or "").startswith(("numpy", "scipy")):
                    return None
                return "elems"
            return None
        if f.k == "EXT" and args:
            nm = f.a[0]
            a = alias(args[0], roots, d + 1)
            if nm in ELEMS:
                return "elems" if any(alias(x, roots, d + 1) for x in args) else None
            if a is None:
                return None
            if nm in SAME:
                if nm in ("builtins.next", "operator.getitem", "builtins.min", "builtins.max"):
                    return "same"
                return a if a != "elems" else None
            if nm in COPYARG and kw.get("copy") in (FALSE, C(0), NONE):
                return "mem" if nm.startswith("scipy") else "same"
            if nm in MEM and nm not in COPYARG or nm == "numpy.ma.core.MaskedArray" and "copy" not in kw:
                return "mem"
    return None


def effects(st, roots):
    """[(event, description)] of operations on this path that modify one of the roots"""
    out = []
    for e in st.events():
        t = e.target
        if t is None:
            continue
        if e.op in ("setitem", "delitem"):
            if alias(t, roots) in ("same", "mem"):
                out.append((e, "%s on %s" % (e.op, pp(t, 3))))
            elif t.k == "OBJ":
                o = st.obj(t)
                if o is not None and o.kind == "chainmap":
                    maps = st.obj(o.data) if isinstance(o.data, Node) else None
                    if maps is not None and maps.data and alias(maps.data[0], roots) == "same":
                        out.append((e, "%s on a ChainMap writing to %s" % (e.op, pp(maps.data[0], 3))))
        elif e.op in ("setattr", "delattr"):
            if alias(t, roots) == "same":
                out.append((e, "%s .%s of %s" % (e.op, e.key, pp(t, 3))))
            elif alias(t, roots) == "mem" and e.key not in ("dtype", "shape", "strides", "flags"):
                out.append((e, "%s .%s of %s" % (e.op, e.key, pp(t, 3))))
        elif e.op == "aug":
            a = alias(t, roots)
            if a in ("same", "mem") and mutable_aug(t):
                out.append((e, "in-place %s on %s" % (e.key, pp(t, 3))))
        elif e.op in ("call", "callx"):
            if e.key is not None and t.k != "EXT":
                a = alias(t, roots)
                if a in ("same", "mem"):
                    if e.key in MUTATE and not (e.key in ("sort", "update", "pop") and kname(t) in IMMUTABLE):
                        out.append((e, "%s.%s(...)" % (pp(t, 3), e.key)))
                    elif e.key == "byteswap" and (e.args and e.args[0] in (TRUE, C(1)) or dict(e.kws).get("inplace") in (TRUE, C(1))):
                        out.append((e, "%s.byteswap(inplace)" % pp(t, 3)))
            if t.k == "EXT":
                nm = t.a[0] + ("." + e.key if e.key else "")
                if e.args and alias(e.args[0], roots) in ("same", "mem"):
                    if nm in FIRST or nm == "numpy.nan_to_num" and (dict(e.kws).get("copy") in (FALSE, C(0)) or len(e.args) > 1 and e.args[1] in (FALSE, C(0))):
                        out.append((e, "%s(%s, ...)" % (nm, pp(e.args[0], 3))))
                    elif "." in nm and nm.split(".")[-1] in MUTATE and nm.split(".")[-2:-1] and nm.split(".")[-2] in ("list", "dict", "set", "ndarray", "bytearray", "object", "OrderedDict", "deque", "MaskedArray"):
                        out.append((e, "%s(%s, ...)" % (nm, pp(e.args[0], 3))))
            for k, v in e.kws:
                if k == "out" and any(alias(x, roots) in ("same", "mem") for x in (v.a if v.k == "TUP" else (v,))):
                    out.append((e, "result written into %s" % pp(v, 3)))
    return out


AUG_ATTRS = {"data", "indices", "indptr", "mask", "value", "T", "real", "imag", "flat", "_content", "__dict__", "meta"}


def mutable_aug(t):
    """in-place operators modify the object (instead of rebinding a name to a new one)"""
    k = kname(t)
    if k in IMMUTABLE or k in ("builtins.tuple",):
        return False
    if k is not None:
        return True
    if t.k == "AT":
        return t.a[1] in AUG_ATTRS
    if t.k == "CL":
        f = t.a[0]
        return f.k == "EXT" and f.a[0].startswith("numpy") or f.k == "AT" and f.a[1] in M_MEM
    return False


def interesting(e):
    if e.op in ("setitem", "delitem", "setattr", "delattr", "aug"):
        return True
    if e.op in ("call", "callx"):
        return e.key in MUTATE or e.key == "byteswap" or e.target is not None and e.target.k == "EXT" or any(k == "out" for k, _ in e.kws)
    return False


# default values -------------------------------------------------------------------

def default_objects(i, st):
    """[(function, object)] default values of parameters that can be modified"""
    out = []
    seen = set()

    def add(fn):
        if fn.k != "FN" or fn.a[0] in seen:
            return
        seen.add(fn.a[0])
        for d in list(fn.a[2] or ()) + [x[1] if isinstance(x, tuple) else x for x in (fn.a[3] or ())]:
            if isinstance(d, Node) and d.k == "OBJ" and st.obj(d) is not None and st.obj(d).kind in ("list", "dict", "set", "bytearray", "inst", "chainmap"):
                out.append((fn, d))
    for m in i.repo.trees:
        for v in (st.frame(("mod", m)) or {}).values():
            if not isinstance(v, Node):
                continue
            if v.k == "FN":
                add(v)
            elif v.k == "CLS" and v.a[0].module == m:
                for fi in i.fi_by_node.values():
                    if fi.cls is v.a[0]:
                        x, _ = i.class_lookup(v.a[0], fi.name, st)
                        while isinstance(x, Node) and x.k in ("BM", "CM", "SM", "PROP") and x.a:
                            x = next((y for y in x.a if isinstance(y, Node) and y.k == "FN"), NONE)
                        if isinstance(x, Node):
                            add(x)
    return out


class Defaults:
    def __init__(self, i, st=None):
        self.st = st if st is not None else state(i)
        self.objs = default_objects(i, self.st)

    def changed(self, s):
        return [(f, d) for f, d in self.objs if s.obj(d) is None or s.obj(d) is not self.st.obj(d) and s.obj(d) != self.st.obj(d)]


def judge(rep, rule, what, outs, roots, dflt, who="the object being stored"):
    good = True
    for o in outs:
        s = o[2] if isinstance(o, tuple) else o
        rep.paths += 1
        for e, msg in effects(s, roots):
            good = False
            rep.bad(rule, "%s: %s in %s" % (what, e.key if e.op == "call" and e.key else e.op, e.loc[2] if e.loc else "?"), "modifies %s: %s" % (who, msg), e.loc, trace(s))
        for f, d in dflt.changed(s):
            good = False
            rep.bad("C11.defaults", "%s: default value of %s" % (what, f.a[0].qual), "a default value of a parameter of %s is modified" % f.a[0].qual, fn_loc(f), trace(s))
    if good:
        rep.ok(rule, what)


def hickle_inline(fi, st, ctx):
    return fi.module.startswith("hickle.") and not fi.module.startswith("hickle.legacy_v3") and fi.name not in ("_dump", "_load", "dump", "load")


MORE = {"builtins.list": ("builtins.list", "collections.deque"), "builtins.dict": ("builtins.dict", "collections.OrderedDict")}


def check_writers(rep):
    i = interp()
    done = set()
    LM = tables(interp())
    todo = []
    for r in rows(i):
        if r.create.k in ("FN", "LAM", "BM"):
            todo.append((r.create, cname(r.cls) or "user.Class"))
    st = state(i)
    for f in st.frame(("mod", "hickle.lookup")).values():
        if isinstance(f, Node) and f.k == "FN" and f.a[0].name.startswith("create_"):
            todo.append((f, "user.Class"))
    for opt in LM.types.values():
        for c, v in opt.items():
            it = seq_items(v, LM.st)
            if it and it[0].k == "FN":
                todo.append((it[0], (cname(c) if isinstance(c, Node) else None) or "user.Class"))
    for f, k in todo:
        if (f.a[0], k) in done:
            continue
        done.add((f.a[0], k))
        subj = "%s, object of class %s" % (f.a[0].qual, k.split(".")[-1])
        with rep.guard("C11.writer", subj):
            i = interp()
            i.inline = hickle_inline
            i.keep_fact = no_opaque
            i.keep_event = interesting
            i.raises = lambda *a: ()
            dflt = Defaults(i)
            names = params(f)
            if len(names) >= 3:
                ps, ex = writer(i, f, k)
            else:
                outs = run(i, f, [S(PY, k)] + [S(p) for p in names[1:]], [])
                ps, ex = [type("P", (), {"st": s}) for kk, v, s in outs], []
            rep.use(i)
            judge(rep, "C11.writer", subj, [(None, None, p.st) for p in ps] + [(None, None, s) for x, s in ex], (S(PY, k),), dflt)


def check_core(rep):
    with rep.guard("C11.core", "recursion of dump"):
        i = interp()
        dflt = Defaults(i)
        ps = dump_paths(i)
        rep.use(i)
        judge(rep, "C11.core", "recursion of dump", [(None, None, p.st) for p in ps], (PYOBJ,), dflt)
    with rep.guard("C11.core", "recursion of dump, default attributes"):
        i = interp()
        fn, m = roles(i, "dump")
        dflt = Defaults(i)
        i.raises = lambda *a: ()
        i.inline = core_inline
        i.keep_fact = None
        outs = run(i, fn, [], [(m[r], v) for r, v in (("obj", PYOBJ), ("group", GRP), ("name", NAME), ("memo", MEMO), ("loader", LOADER))])
        rep.use(i)
        judge(rep, "C11.core", "recursion of dump, default attributes", outs, (PYOBJ,), dflt)
    for kind in ("builtins.str", "h5py.File", "user.FileLike", "builtins.tuple", "builtins.dict"):
        for opts in (True, False):
            subj = "dump(%s)%s" % (kind.split(".")[-1], "" if opts else ", no options given")
            with rep.guard("C11.core", subj):
                i = interp()
                dflt = Defaults(i)
                i.raises = lambda *a: ()
                i.inline = core_inline
                i.keep_fact = None
                fo, args, kws = entry_args("dump", kind, free=True)
                kws = [x for x in kws if x[0] != "options" or opts]
                outs = run(i, find(i, "hickle.hickle", "dump"), args, kws)
                rep.use(i)
                roots = (PYOBJ, S("options", "builtins.dict")) + ((fo,) if kind in ("builtins.tuple", "builtins.dict") else ())
                judge(rep, "C11.core", subj, outs, roots, dflt, "an argument of the caller")


def check_options(rep):
    st0 = tables(interp()).st
    OPT = S("options", "builtins.dict")
    for what, opt in (("options: any dictionary", None), ("options: one enabled, one disabled", ((C("custom"), TRUE), (C("compact"), FALSE))), ("options: empty", ())):
        with rep.guard("C11.options", what):
            i = interp()
            c16.policy(i)
            dflt = Defaults(i, st0)
            st = st0
            if opt is None:
                o = OPT
            else:
                o, st = st0.alloc(("in", "options"), HO("dict", None, (), (tuple(opt), ())))
            outs = c16.create(i, st, [c16.GROUP, FALSE, o])
            rep.use(i)
            if opt is not None:
                for k, v, s in outs:
                    if s.obj(o) != st.obj(o):
                        rep.bad("C11.options", "LoaderManager: options", "the dictionary of the caller is modified", fn_loc(method(i, find(i, "hickle.lookup", "LoaderManager"), "__init__")), trace(s))
            judge(rep, "C11.options", what, outs, (OPT,), dflt, "the options of the caller")
    with rep.guard("C11.options", "options not given"):
        i = interp()
        c16.policy(i)
        dflt = Defaults(i, st0)
        outs = c16.create(i, st0, [c16.GROUP])
        judge(rep, "C11.options", "options not given", outs, (), dflt)


def check_containers(rep):
    """containers built with defaults only do not share state"""
    t = tables(interp())
    done = set()
    todo = [c for d in t.cont.values() for c in d.values()] + [r.container for r in rows(interp())]
    todo.append(find(interp(), "hickle.hickle", "RootContainer"))
    for c in todo:
        if not isinstance(c, Node) or c.k != "CLS" or c.a[0] in done:
            continue
        done.add(c.a[0])
        subj = "container %s" % c.a[0].name
        with rep.guard("C11.defaults", subj):
            i = interp()
            i.inline = hickle_inline
            i.keep_fact = no_opaque
            i.keep_event = interesting
            i.raises = lambda *a: ()
            dflt = Defaults(i, t.st)
            bad = False
            outs = i.call(c, [S("h5_attrs"), S("base_type", "builtins.bytes"), S("object_type")], [], t.st, top_ctx(i), NOWHERE)
            for v, s in outs:
                try:
                    for m, _ in i.attr(v, "append", s, top_ctx(i), NOWHERE):
                        for k2, v2, s2 in run(i, m, [S("name", "builtins.str"), S("item"), S("item_attrs")], [], s):
                            rep.paths += 1
                            for f, d in dflt.changed(s2):
                                bad = True
                                rep.bad("C11.defaults", "%s: default value of %s" % (subj, f.a[0].qual), "items are collected in a default value of %s" % f.a[0].qual, fn_loc(f), trace(s2))
                except Unknown:
                    pass
            rep.use(i)
            if not bad:
                rep.ok("C11.defaults", subj)


def check(rep, tier):
    rep.rule("C11.writer", "no writer modifies the object it stores or anything reachable from it")
    rep.rule("C11.core", "neither dump nor its recursion modifies the object, the options or the file specification of the caller")
    rep.rule("C11.options", "the loader manager does not modify the options of the caller")
    rep.rule("C11.defaults", "no default value of a parameter is modified")
    check_writers(rep)
    check_core(rep)
    with rep.guard("C11.options", "options"):
        check_options(rep)
    with rep.guard("C11.defaults", "containers"):
        check_containers(rep)
