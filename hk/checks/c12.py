"""Escape analysis of file handles: what every reader and every container returns is followed through constructors,
heap objects, attributes set on it and lazy wrappers; no dataset, group, attribute collection or iterator over one of
them may be part of it. What the recursion appends and what load returns is checked the same way."""
from ..registry import *
from ..core import *
from .. import handlers
from . import c13

NODE = S("h_node", "h5py.Dataset")
SCALARS = {"dtype", "shape", "name", "ndim", "size", "filename", "mode", "driver", "nbytes", "chunks", "compression", "compression_opts", "fillvalue", "ref", "is_virtual", "shuffle",
           "scaleoffset", "fletcher32", "maxshape", "__name__", "__class__", "__doc__", "is_empty"}
LAZY = {"builtins." + x for x in ("iter", "map", "filter", "zip", "enumerate", "reversed", "memoryview")} | {"functools.partial", "types.MappingProxyType", "collections.ChainMap", "weakref.ref", "weakref.proxy"}
EAGER = {"builtins." + x for x in ("list", "tuple", "set", "dict", "frozenset", "sorted")} | {"collections.OrderedDict", "collections.deque", "copy.copy", "copy.deepcopy"}
COPY = {"builtins." + x for x in ("str", "bytes", "bytearray", "int", "float", "complex", "bool", "len", "repr", "hash", "id", "type", "isinstance", "issubclass", "sum", "min", "max", "any", "all", "format", "ord", "chr", "print",
                                  "next", "getattr", "hasattr", "super", "abs", "round", "range", "slice")}
M_DATA = {"__array__", "tolist", "read_direct", "tobytes", "__len__", "len", "__bool__", "__contains__", "__eq__", "__str__", "__repr__", "isnative"}


class Live:
    def __init__(self, roots):
        self.roots = roots        # {symbol: 'group' | 'data' | 'attrs' | 'node'}
        self.memo = {}

    def handle(self, t):
        """kind of handle a term is, or None"""
        if not isinstance(t, Node):
            return None
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._handle(t)
        return self.memo[t]

    def _handle(self, t):
        if t in self.roots:
            return self.roots[t]
        if t.k == "AT":
            b = self.handle(t.a[0])
            if b is None:
                return None
            if b in ("group", "data", "node"):
                if t.a[1] == "attrs":
                    return "attrs"
                if t.a[1] in ("file", "parent"):
                    return "group"
            if t.a[1] in SCALARS:
                return None
            return "lazy"
        if t.k == "IX":
            b = self.handle(t.a[0])
            if b == "group":
                return "node"
            if b == "node":
                return "node" if kind_of(t.a[1]) is EXT("builtins.str") or kind_of(t.a[1]) is EXT("builtins.bytes") else None
            if b == "pair":
                return "node" if t.a[1] is C(1) else None
            return None
        if t.k in ("EL", "VAL"):
            b = t.a[0]
            if t.k == "VAL" and b.k == "DCT":
                return next((h for h in (self.handle(x) for k, x in b.a[0]) if h), None)
            if t.k == "EL" and b.k in ("LST", "TUP", "SET"):
                return next((h for h in (self.handle(x) for x in b.a) if h), None)
            if b.k == "CL" and b.a[0].k == "EXT" and b.a[0].a[0] in EAGER | LAZY and b.a[1]:
                b = b.a[1][0]
            if b.k == "CL" and b.a[0].k == "AT" and self.handle(b.a[0].a[0]) in ("group", "node"):
                if b.a[0].a[1] == "values":
                    return "node"
                if b.a[0].a[1] == "items":
                    return "pair"
            if t.k == "VAL" and self.handle(b) in ("group", "node"):
                return "node"
            return None
        if t.k == "CL":
            f, args, kws = t.a
            vals = list(args) + [v for k, v in kws]
            if f.k == "AT":
                b, m = self.handle(f.a[0]), f.a[1]
                if b in ("group", "node"):
                    if m in ("get", "__getitem__", "require_group", "__enter__"):
                        return "node"
                    if m in M_DATA:
                        return None
                    return "lazy"
                if b == "data":
                    return None if m in M_DATA or m == "__getitem__" else "lazy"
                if b == "attrs":
                    return "lazy" if m in ("items", "values", "keys", "__iter__", "copy") else None
                return None
            if f.k == "EXT":
                nm = f.a[0]
                if nm in LAZY or nm.startswith("itertools."):
                    return "lazy" if any(self.handle(x) for x in vals) else None
                if nm == "h5py.File":
                    return "group"
                if nm.startswith("h5py.") and args and nm.count(".") == 2:
                    # unbound method
                    return self.handle(CL(AT(args[0], nm.split(".")[2]), args[1:], kws))
                if nm.startswith("h5py.") and any(self.handle(x) for x in vals):
                    return "lazy"
            return None
        if t.k == "GEN":
            # the iterable is evaluated at once, the rest when the generator is consumed
            if self.handle(t.a[1]):
                return "lazy"
            return "lazy" if any(self.deep(x, t.a[1]) for x in [t.a[0]] + list(_nodes(t.a[2:]))) else None
        return None

    def deep(self, t, it=None):
        """t mentions a handle, other than through the elements of `it`"""
        if t is it or t.k in ("EL", "VAL", "KEY", "IDX") and t.a and t.a[0] is it:
            return False
        if self.handle(t):
            return True
        return any(self.deep(x, it) for x in _nodes(t.a))

    def holds(self, v, i, s, seen=()):
        """(True, handle) if v keeps a handle, (None, why) if that is not known, (False, None) otherwise"""
        h = self.handle(v)
        if h and h != "pair":
            return True, v
        if h == "pair":
            return True, v
        if v in seen or len(seen) > 30:
            return False, None
        seen = seen + (v,)
        worst = (False, None)

        def look(x):
            nonlocal worst
            if not isinstance(x, Node):
                return False
            r = self.holds(x, i, s, seen)
            if r[0] is True:
                worst = r
                return True
            if r[0] is None:
                worst = r
            return False
        # attributes set on the value on this path
        for e in s.events():
            if e.op == "setattr" and e.target is v and isinstance(e.val, Node):
                if look(e.val):
                    return worst
            elif e.op == "superinit" and e.target is v:
                if look(CL(e.val, e.args, e.kws)):
                    return worst
        if v.k in ("TUP", "LST", "SET"):
            for x in v.a:
                if look(x):
                    return worst
        elif v.k == "DCT":
            for k, x in v.a[0]:
                if look(k) or look(x):
                    return worst
            for x in v.a[1]:
                if look(x):
                    return worst
        elif v.k == "STAR":
            x = v.a[0]
            if x.k == "GEN":          # evaluated when the container was built
                if look(x.a[0]):
                    return worst
            elif self.eager(x):
                return True, x
        elif v.k == "INST":
            for x in _nodes(v.a):
                if look(x):
                    return worst
        elif v.k == "OBJ":
            o = s.obj(v)
            if o is None:
                return worst
            if o.kind == "gen":
                fn, fid = o.data[0], o.data[1]
                for x in (s.frame(fid) or {}).values():
                    if isinstance(x, Node) and self.handle(x):
                        return True, x
                return worst
            for x in _nodes(o.data):
                if look(x):
                    return worst
            for k, x in o.attrs:
                if look(x):
                    return worst
        elif v.k in ("FN", "LAM", "BM"):
            if v.k == "BM" and look(v.a[0]):
                return worst
            for x in v.a:
                if isinstance(x, Node) and x.k in ("FN",) and look(x):
                    return worst
            if v.k in ("FN", "LAM"):
                fr = s.frame(v.a[1]) if len(v.a) > 1 and not isinstance(v.a[1], Node) else None
                import ast
                if fr:
                    used = {x.id for x in ast.walk(v.a[0].node) if isinstance(x, ast.Name)}
                    for k, x in fr.items():
                        if k in used and isinstance(x, Node) and self.handle(x):
                            return True, x
        elif v.k == "CL":
            f, args, kws = v.a
            vals = list(args) + [x for k, x in kws]
            if f.k == "EXT":
                nm = f.a[0]
                if nm in COPY or nm.startswith(("numpy.", "pickle.", "struct.", "re.", "ast.", "operator.", "math.", "h5py.")):
                    return worst
                if nm in EAGER:
                    for x in vals:
                        if self.eager(x):
                            return True, x
                    return worst
                for x in vals:
                    r = self.holds(x, i, s, seen)
                    if r[0]:
                        return None, v
            elif f.k == "AT":
                if f.a[1] in ("convert",):
                    return worst
                for x in vals:
                    r = self.holds(x, i, s, seen)
                    if r[0] and f.a[1] in ("__new__", "_make"):
                        return None, v
            else:
                for x in vals:
                    r = self.holds(x, i, s, seen)
                    if r[0] and x.k in ("DCT", "LST"):
                        return r          # the class is handed a collection with the handle in it
                    if r[0]:
                        return None, v
                    if r[0] is None:
                        worst = r
        return worst

    def eager(self, x):
        """elements of x are handles"""
        if x.k == "CL" and x.a[0].k == "AT" and self.handle(x.a[0].a[0]) in ("group", "node") and x.a[0].a[1] in ("values", "items"):
            return True
        if x.k == "GEN":
            return bool(self.handle(x.a[0]))
        if x.k in ("LST", "TUP", "SET"):
            return any(self.handle(y) for y in x.a)
        return False


def _nodes(x):
    if isinstance(x, Node):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from _nodes(y)


def arm(i, prefix="hickle."):
    i.inline = lambda fi, st, ctx: fi.module.startswith(prefix) and fi.name not in ("_load", "_dump", "get_manager", "resolve_type")
    i.keep_fact = no_opaque
    i.raises = lambda *a: ()
    i.max_outcomes = 20000
    i.keep_event = lambda e: e.op in ("setattr", "superinit")


def judge(rep, rule, what, loc, live, results, i):
    """results: [(value, state)]"""
    good = bool(results)
    for v, s in results:
        rep.paths += 1
        r, x = live.holds(v, i, s)
        if r is True:
            good = False
            rep.bad(rule, what, "the result keeps %s of the file: %s" % ({"attrs": "an attribute collection", "lazy": "a lazy view", "data": "a dataset", "group": "a group"}.get(live.handle(x), "a node"), pp(x, 4)), loc, trace(s))
        elif r is None:
            good = False
            rep.unknown(rule, what, "handle passed to %s" % pp(x, 3))
    if good:
        rep.ok(rule, what)
    elif not results:
        rep.unknown(rule, what, "no result")


def cls_loc(c):
    return (c.a[0].module.replace(".", "/") + ".py", getattr(c.a[0].node, "lineno", 0), c.a[0].qual)


def check_reader(rep, fn, tag, typ, extra=()):
    with rep.guard("C12.reader", fn.a[0].qual):
        i = interp()
        arm(i)
        c13.class_models(i, typ) if typ is not None else None
        outs = run(i, fn, [NODE, tag, c13.CLS if typ is not None else S("py_obj_type")])
        rep.use(i)
        live = Live({NODE: "data"})
        judge(rep, "C12.reader", fn.a[0].qual + (" for %s" % cname(typ).split(".")[-1] if typ is not None else ""), fn_loc(fn), live, [(v, s) for k, v, s in outs if k == "R"], i)


A, IA, P = S("h_attrs", "h5py.AttributeManager"), S("i_attrs", "h5py.AttributeManager"), S("h_parent", "h5py.Group")


def check_container(rep, cls, tag, typ, names):
    what = cls.a[0].qual + (" for %s" % cname(typ).split(".")[-1] if typ is not None and cname(typ) else "")
    with rep.guard("C12.container", what):
        i = interp()
        arm(i)
        if typ is not None:
            c13.class_models(i, typ)
        live = Live({A: "attrs", IA: "attrs", P: "group", NODE: "data"})
        res = []
        for k, obj, s in run(i, cls, [A, tag, c13.CLS if typ is not None else S("py_obj_type")], [], state(i)):
            if k != "R":
                continue
            starts = [s]
            f = i.attr(obj, "filter", s, top_ctx(i), NOWHERE)[0][0]
            for o in run(i, f, [P], [], s)[:20]:
                if o[0] == "R":
                    starts += [s3 for kk, els, s3, x in run_gen_collect(i, o[1], o[2]) if kk in ("N", "R", "B")][:10]
            after = []
            for s1 in starts:
                f = i.attr(obj, "append", s1, top_ctx(i), NOWHERE)[0][0]
                one = [o[2] for o in run(i, f, [S("i_name", "builtins.str"), S("item"), IA], [], s1) if o[0] == "R"][:40]
                after += one
                for ns in names:
                    cur = [s1]
                    for x in ns:
                        cur = [o[2] for s2 in cur for o in run(i, f, [x, S("item_%s" % cval(x)), IA], [], s2) if o[0] == "R"][:40]
                    after += cur
            for s1 in starts + after:
                f = i.attr(obj, "convert", s1, top_ctx(i), NOWHERE)[0][0]
                for o in run(i, f, [], [], s1):
                    if o[0] == "R":
                        res.append((o[1], o[2]))
        rep.use(i)
        judge(rep, "C12.container", what, cls_loc(cls), live, res, i)


def check_readers(rep):
    i = interp()
    t = tables(i)
    done = set()
    typ = {}
    for opt, d in t.types.items():
        for c, entry in d.items():
            it = seq_items(entry, t.st)
            if it is not None and is_c(it[1]) and isinstance(c, Node):
                typ.setdefault(cval(it[1]), []).append((c, it[0]))
    lookup = (state(i).frame(("mod", "hickle.lookup")) or {})
    for opt, d in t.load.items():
        for tag, fn in d.items():
            if not isinstance(tag, bytes) or fn.k != "FN":
                continue
            cs = [c for c, _ in typ.get(tag, ()) if c.k == "EXT"] or [None]
            for c in cs:
                if (fn.a[0], c) in done:
                    continue
                done.add((fn.a[0], c))
                check_reader(rep, fn, C(tag), c)
    for fn in lookup.values():
        if isinstance(fn, Node) and fn.k == "FN" and fn.a[0].name in ("recover_custom_dataset", "load_pickled_data") and not any(f is fn.a[0] for f, _ in done):
            check_reader(rep, fn, C(b"x"), None)
    for opt, d in t.cont.items():
        for tag, c in d.items():
            if not isinstance(tag, bytes) or c.k != "CLS":
                continue
            cs = typ.get(tag, ()) or [(None, None)]
            for cl, create in cs:
                if cl is not None and cl.k != "EXT":
                    cl = None
                if (c.a[0], cl) in done:
                    continue
                done.add((c.a[0], cl))
                names = c13.item_names(create, cname(cl)) if cl is not None and create is not None else []
                check_container(rep, c, C(tag), cl, names)
    rc = (state(i).frame(("mod", "hickle.hickle")) or {}).get("RootContainer")
    if rc is not None and rc.k == "CLS":
        check_container(rep, rc, C(b"document_root"), None, [])


def check_core(rep):
    with rep.guard("C12.core", "recursion of load"):
        i = interp()
        ps = load_paths(i)
        rep.use(i)
        live = Live({H_NODE: "node"})
        good, n = True, 0
        loc = fn_loc(roles(i, "load")[0])
        for p in ps:
            rep.paths += 1
            for k, e in p.appends:
                if e.op != "call" or len(e.args) < 2:
                    continue
                n += 1
                item = e.args[1]
                if any(x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[0] is MEMO for x in subterms(item)) or item.k == "IX" and item.a[0] is MEMO:
                    continue                # an object loaded before; not the node itself on this path
                r, x = live.holds(item, i, p.st)
                if r is True:
                    good = False
                    rep.bad("C12.core", "recursion of load: item", "the item handed to the container keeps a part of the file: %s" % pp(x, 4), e.loc, trace(p.st))
        if good and n:
            rep.ok("C12.core", "recursion of load: items handed to containers")
        elif not n:
            rep.unknown("C12.core", "recursion of load", "no item found")
    for kind in ("builtins.str", "h5py.File", "h5py.Group", "user.FileLike"):
        with rep.guard("C12.core", "load(%s)" % kind.split(".")[-1]):
            i = interp()
            rec = roles(i, "load")[0].a[0]
            fo, outs = run_core(i, "load", kind, raises=lambda *a: ())
            rep.use(i)
            live = Live({fo: "group"} if kind.startswith("h5py") else {})
            PC = find(i, "hickle.helpers", "PyContainer")
            good, n = True, 0
            for k, v, s in outs:
                if k != "R":
                    continue
                rep.paths += 1
                n += 1
                r, x = live.holds(v, i, s)
                o = s.obj(v) if v.k == "OBJ" else None
                if r is True:
                    good = False
                    rep.bad("C12.core", "load: result", "load returns a part of the file: %s" % pp(x, 4), fn_loc(find(i, "hickle.hickle", "load")), trace(s))
                elif o is not None and o.kind == "inst" and o.cls is not None and o.cls.k == "CLS" and issub(o.cls, PC):
                    good = False
                    rep.bad("C12.core", "load: result", "load returns the container, which holds the attributes of the file, instead of its content", fn_loc(find(i, "hickle.hickle", "load")), trace(s))
            if good and n:
                rep.ok("C12.core", "load(%s)" % kind.split(".")[-1])


def check_v3(rep):
    i = interp()
    st = state(i)
    fr = st.frame(("mod", "hickle.legacy_v3.lookup")) or {}
    d = dict_of(fr["hkl_types_dict"], st) if "hkl_types_dict" in fr else None
    if d is None:
        raise Broken("tables of the v3 reader not understood")
    for fn in sorted({v for v in d.values() if isinstance(v, Node) and v.k == "FN"}, key=lambda x: x.a[0].qual):
        with rep.guard("C12.v3", fn.a[0].qual):
            i = interp()
            arm(i)
            outs = run(i, fn, [NODE])
            rep.use(i)
            judge(rep, "C12.v3", "v3 " + fn.a[0].qual, fn_loc(fn), Live({NODE: "data"}), [(v, s) for k, v, s in outs if k == "R"], i)
    with rep.guard("C12.v3", "recursion"):
        i = interp()
        arm(i)
        rec = find(i, "hickle.legacy_v3.hickle", "_load")
        i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.legacy_v3") and (fi is not rec.a[0] or ctx.fn.name == "<entry>") and fi.name not in ("load_dataset", "sort_keys")
        i.keep_event = lambda e: True
        node = S("h_group")
        cont = S("py_container")
        outs = run(i, rec, [cont, node])
        rep.use(i)
        live = Live({node: "node"})
        good, n = True, 0
        for k, v, s in outs:
            for e in s.events():
                if e.op == "call" and e.target is cont and e.key == "append" and e.args:
                    n += 1
                    r, x = live.holds(e.args[0], i, s)
                    if r is True:
                        good = False
                        rep.bad("C12.v3", "v3 recursion: item", "the item handed to the container keeps a part of the file: %s" % pp(x, 4), e.loc, trace(s))
        if good and n:
            rep.ok("C12.v3", "recursion of the v3 reader")
        elif not n:
            rep.unknown("C12.v3", "recursion of the v3 reader", "no item found")


def check(rep, tier):
    rep.rule("C12.reader", "the result of no dataset reader keeps a handle or lazy view of the file")
    rep.rule("C12.container", "the result of no container keeps a handle or lazy view of the file")
    rep.rule("C12.core", "neither the recursion nor load hands on a part of the file instead of what the readers return")
    rep.rule("C12.v3", "the same for the v3 reader")
    check_readers(rep)
    check_core(rep)
    with rep.guard("C12.v3", "v3"):
        check_v3(rep)
