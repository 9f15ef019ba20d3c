"""Abstract runs of the recursive cores behind dump() and load()."""
from .base import *
from .interp import default_raises
from .explore import entry_args, no_opaque

CORE = ("hickle.hickle", "hickle.fileio", "hickle.helpers")


def core_inline(fi, st, ctx):
    return fi.module in CORE


def strip_enter(v):
    while v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] == "__enter__":
        v = v.a[0].a[0]
    return v


def manager(v):
    """'memo' / 'loader' for a value returned by the create_manager of one of the two managers"""
    v = strip_enter(v)
    if v.k != "CL":
        return None
    f = v.a[0]
    name = ""
    if f.k == "FN":
        name = f.a[0].fullname
    elif f.k == "AT":
        name = "%s.%s" % (cname(f.a[0]) or "", f.a[1])
    elif f.k == "BM":
        name = "%s.%s" % (pp(f.a[0]), f.a[1].a[0].name)
    if "ReferenceManager" in name:
        return "memo"
    if "LoaderManager" in name:
        return "loader"
    return None


def run_core(i, which, kind="h5py.File", mode=None, path=None, kws=None, raises=None, extra_args=()):
    i.inline = core_inline
    i.keep_fact = None
    if raises is not None:
        i.raises = raises
    fo, args, k = entry_args(which, kind, mode=mode, path=path, kwargs=kws is None)
    if kws:
        k = k + list(kws)
    return fo, run(i, find(i, "hickle.hickle", which), args + list(extra_args), k)


def is_recursion(e):
    return e.op in ("call", "callx") and e.target is not None and e.target.k == "FN" and e.target.a[0].module == "hickle.hickle"


def bound(e):
    """parameter name -> value of a call event on a function of the package"""
    fi = e.target.a[0]
    a = fi.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    out = dict(zip(names, e.args))
    for k, v in e.kws:
        if k:
            out[k] = v
        else:
            out.setdefault("**", v)
    return out


# the recursive functions behind dump and load --------------------------------

PYOBJ = S("py_obj")
MEMO = S("memo", "hickle.lookup.ReferenceManager")
LOADER = S("loader", "hickle.lookup.LoaderManager")
CONT = S("py_container")
H_NODE = S("h_node")
H_NAME = S("h_name", "builtins.str")
_roles = {}


def roles(i, which):
    """(function, {role: parameter}) of the recursive function dump/load hand the object/node to.
    Roles: obj, group, name, memo, loader, attrs  /  container, name, node, memo, loader."""
    if which in _roles:
        return _roles[which]
    main = find(i, "hickle.hickle", which)
    saved = i.inline
    seen = []

    def inline(fi, st, ctx):
        return core_inline(fi, st, ctx) and fi not in seen
    kinds = "h5py.File"
    # functions of the core that call themselves (directly or through others)
    rec = recursive_functions(i)
    seen = [f for f in rec if f is not main.a[0]]
    i.inline = inline
    i.keep_fact = None
    i.raises = default_raises
    fo, args, k = entry_args(which, kinds, mode=C("w") if which == "dump" else None)
    outs = run(i, main, args, k)
    i.inline = saved
    for kind, v, s in outs:
        for e in s.events():
            if e.op == "call" and e.target.k == "FN" and e.target.a[0] in seen:
                b = bound(e)
                m = {}
                for p, val in b.items():
                    if p == "**" or val is None:
                        continue
                    if which == "dump" and val is PYOBJ:
                        m["obj"] = p
                    elif is_c(val) and cval(val) == "data":
                        m["name"] = p
                    elif manager(val):
                        m[manager(val)] = p
                    elif which == "load" and s.obj(val) is not None:
                        m["container"] = p
                    elif which == "dump" and "group" not in m and val.k in ("CL", "AT", "S", "IX"):
                        m["group"] = p
                    elif which == "load" and val.k == "IX":
                        m["node"] = p
                if which == "dump":
                    fi = e.target.a[0]
                    a = fi.node.args
                    rest = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs if p.arg not in m.values()]
                    if len(rest) == 1:
                        m["attrs"] = rest[0]
                    elif "attrs" in rest:
                        m["attrs"] = "attrs"
                    need = {"obj", "group", "name", "memo", "loader", "attrs"}
                else:
                    need = {"container", "name", "node", "memo", "loader"}
                if need <= set(m):
                    _roles[which] = (e.target, m)
                    return _roles[which]
    raise Broken("the recursive function behind %s was not found" % which)


def recursive_functions(i):
    import ast
    names = {}
    for m in CORE:
        if m in i.repo.trees:
            for n in ast.walk(i.repo.trees[m]):
                if isinstance(n, (ast.FunctionDef,)):
                    names.setdefault(n.name, []).append(n)
    calls = {}
    for nm, fs in names.items():
        c = calls[nm] = set()
        for f in fs:
            for x in ast.walk(f):
                if isinstance(x, ast.Call):
                    g = x.func.id if isinstance(x.func, ast.Name) else None
                    if g in names:
                        c.add(g)
    out = []
    for nm in names:
        todo, reach = list(calls[nm]), set()
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo += calls[x]
        if nm in reach:
            out.append(nm)
    return [fi for fi in functions(i) if fi.name in out and fi.module == "hickle.hickle"]


def functions(i):
    st = state(i)
    out = []
    for m in CORE:
        for v in (st.frame(("mod", m)) or {}).values():
            if isinstance(v, Node) and v.k == "FN" and v.a[0].module == m:
                out.append(v.a[0])
    return out


def call_roles(i, which, values, st=None, star=None):
    fn, m = roles(i, which)
    i.inline = core_inline
    i.keep_fact = None
    kws = [(m[r], v) for r, v in values.items()]
    if star is not None:
        kws.append(("", star))
    return run(i, fn, [], kws, st)


def dump_node(i, attrs=None, st=None, raises=None):
    """abstract paths of storing one object; attrs: dict of constant names -> values"""
    from .handlers import KW, GRP, NAME
    st = st if st is not None else state(i)
    r = roles(i, "dump")
    i.raises = raises or default_raises
    at, st = st.alloc(("in", "attrs"), HO("dict", None, (), (tuple((C(k), v) for k, v in (attrs or {}).items()), ())))
    return call_roles(i, "dump", {"obj": PYOBJ, "group": GRP, "name": NAME, "memo": MEMO, "loader": LOADER, "attrs": at}, st, KW)


def load_node(i, st=None, raises=None):
    roles(i, "load")
    i.raises = raises or default_raises
    return call_roles(i, "load", {"container": CONT, "name": H_NAME, "node": H_NODE, "memo": MEMO, "loader": LOADER}, st)


# what happens on one path of dump_node / load_node -----------------------------

ID = EXT("builtins.id")
KNOWN_MEMO = {"get", "store_type", "resolve_type", "setdefault", "__setitem__", "__getitem__", "__contains__", "pop", "popitem", "clear", "update"}


def from_loader(v):
    """value selected by loader.load_loader"""
    return any(x.k == "AT" and x.a[1] == "load_loader" for x in subterms(v))


def memo_reads(t):
    """keys under which the memo is read in a term"""
    out = []
    for x in subterms(t):
        if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[0] is MEMO and x.a[0].a[1] in ("get", "__getitem__", "__contains__", "pop", "setdefault") and x.a[1]:
            out.append(x.a[1][0])
        elif x.k == "IX" and x.a[0] is MEMO:
            out.append(x.a[1])
        elif x.k == "CMP" and x.a[0] in ("in", "not in") and x.a[2] is MEMO:
            out.append(x.a[1])
    return out


class NodePath:
    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st
        self.events = st.events()
        self.keys = []            # memo keys looked up
        self.stores = []          # (index, key, value, event)
        self.drops = []
        self.foreign = []         # unknown operations on the memo
        self.writers, self.pickled, self.recs, self.types = [], [], [], []
        self.creates, self.appends = [], []
        for t, b in st.facts.items():
            self.keys += memo_reads(t)
        for n, e in enumerate(self.events):
            if e.op in ("call", "callx"):
                if e.target is MEMO:
                    if e.key in ("get", "__getitem__", "__contains__") and e.args:
                        self.keys.append(e.args[0])
                    elif e.key in ("setdefault", "__setitem__") and len(e.args) > 1:
                        self.stores.append((n, e.args[0], e.args[1], e))
                        self.keys.append(e.args[0])
                    elif e.key == "update" and e.args:
                        prs = seq_pairs(e.args[0], st)
                        if prs is None:
                            self.foreign.append(e)
                        for k, v in prs or ():
                            self.stores.append((n, k, v, e))
                    elif e.key in ("pop", "popitem", "clear", "__delitem__"):
                        self.drops.append(e)
                    elif e.key == "store_type":
                        self.types.append((n, e))
                    elif e.key not in KNOWN_MEMO:
                        self.foreign.append(e)
                elif is_recursion(e):
                    self.recs.append((n, e))
                elif e.target is not None and e.target.k == "FN" and "pickled" in e.target.a[0].name:
                    self.pickled.append((n, e))
                elif e.key is None and e.target is not None and e.target.k in ("IX", "CL", "AT", "S") and from_loader(e.target):
                    self.writers.append((n, e))
                elif e.key in ("create_dataset", "create_group", "require_group", "require_dataset"):
                    self.creates.append((n, e))
                elif e.target is CONT and e.key == "append":
                    self.appends.append((n, e))
                elif e.target is not None and e.target.k == "FN" and e.op == "call" and any(a is MEMO for a in e.args):
                    self.foreign.append(e)
                elif any(isinstance(a, Node) and a.k == "OBJ" and a is MEMO for a in e.args):
                    self.foreign.append(e)
            elif e.op == "setitem" and e.target is MEMO:
                self.stores.append((n, e.key, e.val, e))
            elif e.op == "getitem" and e.target is MEMO:
                self.keys.append(e.key)
            elif e.op == "delitem" and e.target is MEMO:
                self.drops.append(e)

    def memoise(self):
        """truth of the memoise flag of the loader on this path; None if it was not asked"""
        for t, b in self.st.facts.items():
            x, pos = t, True
            while x.k == "NOT":
                x, pos = x.a[0], not pos
            if x.k in ("IX", "AT", "EL") and from_loader(x):
                return b if pos else not b
        return None

    def trace(self):
        return trace(self.st)


def seq_pairs(v, st):
    from .handlers import dict_of, seq_items
    if v.k == "DCT" and not v.a[1]:
        return list(v.a[0])
    if v.k == "OBJ" and st.obj(v) is not None and st.obj(v).kind == "dict" and not st.obj(v).data[1]:
        return list(st.obj(v).data[0])
    it = seq_items(v, st)
    if it is not None:
        ps = [seq_items(x, st) for x in it]
        if all(p is not None and len(p) == 2 for p in ps):
            return [tuple(p) for p in ps]
    return None


def dump_paths(i, **kw):
    """the object is the root, an item of a sequence, an entry of a dict or an item without position, unless attrs is given"""
    sets = [kw.pop("attrs")] if "attrs" in kw else [{}, {"item_index": S("position", "builtins.int")},
                                                   {"key_idx": S("position", "builtins.int"), "key_base_type": S("key_base_type", "builtins.bytes")}]
    return [NodePath(k, v, s) for a in sets for k, v, s in dump_node(i, attrs=a, **kw)]


def load_paths(i, **kw):
    return [NodePath(k, v, s) for k, v, s in load_node(i, **kw)]


def fn_loc(fn):
    fi = fn.a[0]
    return (fi.relpath, fi.lineno, fi.qual)


# the loader lookup -----------------------------------------------------------

LSELF = S("self", "hickle.lookup.LoaderManager")
FOUND = T(S("create"), S("tag"), S("memoise"))


def registers(e):
    return e.op in ("call", "callx") and (e.key == "register_class" or isinstance(e.target, Node) and e.target.k == "FN" and e.target.a[0].name == "register_class")


def lookup_paths(i, cls, mro, found=None, kws=(), types=None, raises=None, loaded=False):
    """abstract paths of LoaderManager.load_loader(cls) for a class with the given mro; a query for the
    class `found` succeeds at once, any other may or may not, before and after a loader module is loaded;
    with `loaded` all loader modules are loaded already and only `found` has a loader"""
    LM = find(i, "hickle.lookup", "LoaderManager")
    f = method(i, LM, "load_loader")
    TD, MRO = S("types_dict"), S("mro_fn")

    def attr(b, name, st, ctx, n):
        if b is LSELF and name == "types_dict":
            return [(TD, st)]
        if b is LSELF and name == "_mro":
            return [(MRO, st)]
        if name == "__loaded_loaders__":
            return [(S("loaded"), st)]

    def query(key, st, ctx, n):
        """the entry of a class, or None; the same one until a loader module is registered"""
        epoch = sum(1 for e in st.events() if registers(e) or e.op == "setitem")
        slot = st.sym.get((TD, ("entry", key, epoch)))
        if slot is None:
            k = cval(st.sym.get((TD, "n"), C(0)))
            slot = FOUND if key is found else NONE if loaded else S("found%d" % k)
            st = st.setsym(TD, "n", C(k + 1)).setsym(TD, ("entry", key, epoch), slot)
        return slot, st.emit(Ev("query", TD, key, slot, (), (), ctx.fn.loc(n)))

    def present(v, st):
        return [(True, st)] if v is FOUND else [(not b, s) for b, s in i.truth(mk("CMP", "is", v, NONE), st)]

    def call(f, args, kws, st, ctx, n):
        if f is MRO or f.k == "EXT" and f.a[0] in ("builtins.type.mro", "inspect.getmro"):
            return [(T(*mro), st)]
        if f.k == "AT" and f.a[0] is TD and f.a[1] == "get":
            v, st = query(args[0], st, ctx, n)
            if len(args) < 2 or args[1] is NONE:
                return [(v, st)]
            return [(v if b else args[1], s) for b, s in present(v, st)]
        if f.k == "AT" and f.a[0] is TD and f.a[1] == "__getitem__":
            return item(TD, args[0], st, ctx, n)
        if f.k == "AT" and f.a[0] is TD and f.a[1] == "__contains__":
            return contains_(args[0], TD, st, ctx, n)
        if f.k == "AT" and f.a[0] is TD and f.a[1] == "setdefault" and len(args) == 2:
            return [(S("entry"), st.emit(Ev("setitem", TD, args[0], args[1], (), (), ctx.fn.loc(n))))]

    def item(b, idx, st, ctx, n):
        if b is TD:
            v, st = query(idx, st, ctx, n)
            out = []
            for yes, s in present(v, st):
                if yes:
                    out.append((v, s))
                else:
                    i.throw(mk("EXC", EXT("builtins.KeyError"), (), NONE), s)
            return out

    def contains_(a, b, st, ctx, n):
        if loaded and b is S("loaded"):
            return [(TRUE, st)]
        if b is TD:
            v, st = query(a, st, ctx, n)
            return [(C(yes), s) for yes, s in present(v, st)]

    i.keep_fact = no_opaque
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers") and fi.name not in ("register_class", "register_class_exclude")
    i.model_attr, i.model_call, i.model_item, i.model_contains = attr, call, item, contains_
    i.max_outcomes = 20000
    if raises is not None:
        i.raises, i.mark_inject = raises, lambda e: True
    i.keep_event = lambda e: e.op in ("query", "inject") or e.op == "setitem" and e.target is TD or e.op in ("call", "callx") and (
        registers(e) or e.key in ("register_class_exclude", "exec_module") or e.key == "get" and e.args and is_c(e.args[0]) or ev_name(e).endswith("find_spec"))
    outs = run(i, f, [LSELF, cls], list(kws))
    return f, outs


def resolve_untyped(i, what, cls="ReferenceManager"):
    """paths of resolve_type for a node without type attribute: 'pickle', a dataset whose dtype has no metadata, or
    'reference', a dataset of the dtype h5py uses for references; (function, node, outcomes)"""
    RM = find(i, "hickle.lookup", cls)
    f = method(i, RM, "resolve_type")
    H = S("h_node", "h5py.Dataset")
    DT = S("dtype of node", "numpy.dtype")
    REF = EXT("h5py.Reference")
    isref = what == "reference"

    def attr(b, name, st, ctx, n):
        if b is H and name == "dtype":
            return [(DT, st)]
        if b is H and name == "attrs":
            return [(AT(H, "attrs"), st)]
        if b is DT and name == "metadata":
            return [st.alloc(("metadata",), HO("dict", None, (), (((C("ref"), REF),), ())))] if isref else [(NONE, st)]
        if b is DT and name == "kind":
            return [(C("O" if isref else "S"), st)]

    def ask(m, args, st):
        if m == "get" and args and is_c(args[0]):
            return [(args[1] if len(args) > 1 else NONE, st)]
        if m in ("__contains__",):
            return [(FALSE, st)]
        if m == "__getitem__":
            i.throw(mk("EXC", EXT("builtins.KeyError"), (), NONE), st)
            return []

    def call(f, args, kws, st, ctx, n):
        if f.k == "AT" and f.a[0] is AT(H, "attrs"):
            return ask(f.a[1], args, st)
        if f is EXT("h5py.check_ref_dtype") and args and args[0] is DT:
            return [(REF if isref else NONE, st)]
        if f is EXT("h5py.check_dtype") and any(v is DT for _, v in kws):
            return [(REF if isref and any(k == "ref" for k, _ in kws) else NONE, st)]

    def item(b, idx, st, ctx, n):
        if b is AT(H, "attrs"):
            return ask("__getitem__", [idx], st)

    def inside(a, b, st, ctx, n):
        if b is AT(H, "attrs"):
            return [(FALSE, st)]

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        if x.k == "CMP" and x.a[0] == "==" and DT in x.a[1:] and EXT("h5py.ref_dtype") in x.a[1:]:
            return isref != neg
        if x is H or x is DT:
            return not neg
    i.keep_fact = None
    i.model_attr, i.model_call, i.model_item, i.model_contains, i.fork_hook = attr, call, item, inside, fork
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
    return f, H, run(i, f, [S("self", "hickle.lookup." + cls), H])
