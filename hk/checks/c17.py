"""Abstract execution of load on a model file: the types table, the attributes and the children of every node are
known, unpickling the lost class fails with each of the exceptions a missing class causes. Managers, type resolution,
loader lookup, recursion and recover readers are interpreted together; what reaches the parent container has to be
recovered data with the content, the attributes and the original tag."""
import ast
from ..registry import *
from ..core import *
from . import c02

TAG = b"mytag"
LIST = b"list"
ROOTGROUP = S("root group", "h5py.Group")
TABLE = S("types table", "h5py.Group")
FAILURES = ("builtins.ImportError", "builtins.ModuleNotFoundError", "builtins.AttributeError")
KNOWN = tuple(EXT("builtins." + x) for x in ("int", "complex", "object"))
RECOVERED = ("RecoveredGroup", "RecoveredDataset")


class File:
    """nodes of a model file: symbol -> dict(name, attrs, items, dtype, shape)"""
    def __init__(self, mode):
        self.mode = mode
        self.nodes = {}
        self.refs = {}            # reference symbol -> node
        self.pickles = {}         # pickle string -> class or None (lost)

    def add(self, node, name, attrs=(), items=(), empty=False):
        self.nodes[node] = dict(name=name, attrs=list(attrs), items=list(items), empty=empty)
        return node

    def ref(self, node):
        r = S("reference to " + node.a[0], "h5py.Reference")
        self.refs[r] = node
        return r

    def install(self, i, failure):
        c02.models(i)
        attr0, call0, item0, fork0 = i.model_attr, i.model_call, i.model_item, i.fork_hook
        nodes = self.nodes

        def attrs_of(t):
            return nodes[t.a[0]]["attrs"] if t.k == "AT" and t.a[1] == "attrs" and t.a[0] in nodes else None

        def throw(name, st):
            i.throw(mk("EXC", EXT(name), (), NONE), st)
            return []

        def attr(b, name, st, ctx, n):
            if b in nodes:
                d = nodes[b]
                if name == "attrs":
                    return [(AT(b, "attrs"), st)]
                if name == "name":
                    return [(C(d["name"]), st)]
                if name == "file":
                    return [(c02.THEFILE, st)]
                if name == "id":
                    return [(S("id of " + b.a[0]), st)]
                if name == "parent":
                    return [(ROOTGROUP, st)]
                if name == "shape":
                    return [(NONE if d["empty"] else T(C(5)), st)]
                if name == "dtype":
                    if b.a[1] == "h5py.Group":
                        return throw("builtins.AttributeError", st)
                    return [(C("S1") if d["empty"] and "types_table" in d["name"] else S("dtype of " + b.a[0], "numpy.dtype"), st)]
            if b.k == "S" and b.a[0].startswith("dtype of ") and name == "metadata":
                return [(NONE, st)]
            if attrs_of(b) is not None:
                return [(AT(b, name), st)]
            if name == "__loaded_loaders__":
                return [(T(*[C(x) for x in loader_modules(i)]), st)]
            if b is c02.THEFILE and name == "mode":
                return [(C(self.mode), st)]
            if b is c02.THEFILE and name == "filename":
                return [(C("file.hkl"), st)]
            return attr0(b, name, st, ctx, n)

        def lookup(d, key, default, st):
            for k, v in d:
                if k is key:
                    return [(v, st)]
            return [(default, st)] if default is not None else throw("builtins.KeyError", st)

        def unpickle(f, args, kws, st):
            if args and args[0] in self.pickles:
                c = self.pickles[args[0]]
                return [(c, st)] if c is not None else throw(failure, st)
            if args and args[0] is NONE:
                return throw("builtins.TypeError", st)
            if args and args[0].k == "IX" and args[0].a[0] in nodes:
                return throw("pickle.UnpicklingError", st)
            raise Broken("unpickling %s" % (pp(args[0], 3) if args else "nothing"))

        def find_node(b, key, default, st):
            if key in self.refs and (b in nodes or b is c02.THEFILE):
                return [(self.refs[key], st)]
            if b in nodes and is_c(key):
                return lookup([(C(k), v) for k, v in nodes[b]["items"]], key, default, st)
            return None

        def call(f, args, kws, st, ctx, n):
            if f.k == "EXT" and f.a[0] in ("pickle.loads", "pickle._loads", "_pickle.loads"):
                return unpickle(f, args, kws, st)
            if f.k == "AT":
                b, m = f.a
                if b in nodes:
                    its = nodes[b]["items"]
                    if m == "items":
                        return [(T(*[T(C(k), v) for k, v in its]), st)]
                    if m == "keys":
                        return [(T(*[C(k) for k, v in its]), st)]
                    if m == "values":
                        return [(T(*[v for k, v in its]), st)]
                    if m == "get" and args:
                        return find_node(b, args[0], args[1] if len(args) > 1 else NONE, st)
                if b is c02.THEFILE and m == "get" and args:
                    return find_node(b, args[0], NONE, st)
                d = attrs_of(b)
                if d is not None:
                    if m == "items":
                        return [(T(*[T(k, v) for k, v in d]), st)]
                    if m in ("keys", "__iter__"):
                        return [(T(*[k for k, v in d]), st)]
                    if m == "values":
                        return [(T(*[v for k, v in d]), st)]
                    if m == "get" and args and is_c(args[0]):
                        return lookup(d, args[0], args[1] if len(args) > 1 else NONE, st)
                    if m == "__contains__" and args and is_c(args[0]):
                        return [(C(any(k is args[0] for k, v in d)), st)]
            if f.k == "EXT" and args and attrs_of(args[0]) is not None:
                d = attrs_of(args[0])
                if f.a[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.sorted", "builtins.frozenset", "builtins.iter"):
                    return [(T(*[k for k, v in d]), st)]
                if f.a[0] == "builtins.dict":
                    extra = tuple((C(k), v) for k, v in kws if k)
                    own = tuple((k, v) for k, v in d if not any(k is k2 for k2, _ in extra))
                    return [st.alloc(("attrs-copy", ctx.fn.loc(n)), HO("dict", None, (), (own + extra, ())))]
            return call0(f, args, kws, st, ctx, n)

        def item(b, idx, st, ctx, n):
            d = attrs_of(b)
            if d is not None and is_c(idx):
                return lookup(d, idx, None, st)
            r = find_node(b, idx, None, st) if isinstance(idx, Node) else None
            if r is not None:
                return r
            return item0(b, idx, st, ctx, n) if item0 else None

        def fork(t, st):
            x, neg = t, False
            while x.k == "NOT":
                x, neg = x.a[0], not neg
            r = None
            if x in nodes or x is c02.THEFILE or x in self.refs:
                r = True
            elif x.k == "CMP" and x.a[0] == "==" and any(isinstance(y, Node) and y.k == "S" and str(y.a[0]).startswith("id of ") for y in x.a[1:]):
                r = x.a[1] is x.a[2]
            elif x.k == "ISI" and cname(x.a[1]) == "h5py.Reference":
                r = x.a[0] in self.refs
            elif x.k == "ISI" and (x.a[0].k == "CLS" or x.a[0] in KNOWN):
                r = cname(x.a[1]) == "builtins.type"
            elif x.k == "ISI" and x.a[1].k == "CLS":
                r = False               # neither data of the file nor library classes are instances of classes of hickle
            elif x.k == "ISI" and x.a[0].k == "IX" and x.a[0].a[0] in nodes and cname(x.a[1]) == "h5py.Empty":
                r = nodes[x.a[0].a[0]]["empty"]
            elif x.k == "CMP" and x.a[0] in ("in", "not in") and is_c(x.a[1]):
                d = attrs_of(x.a[2])
                if d is not None:
                    r = any(k is x.a[1] for k, v in d) == (x.a[0] == "in")
                elif x.a[2] in nodes:
                    r = any(k == cval(x.a[1]) for k, v in nodes[x.a[2]]["items"]) == (x.a[0] == "in")
            if r is None:
                return fork0(t, st)
            return r != neg
        i.model_attr, i.model_call, i.model_item, i.fork_hook = attr, call, item, fork

        def it(v, st):
            if isinstance(v, Node):
                if attrs_of(v) is not None:
                    return [k for k, _ in attrs_of(v)]
                if v in nodes:
                    return [C(k) for k, _ in nodes[v]["items"]]
        i.model_iter = it
        i.model_mapping = lambda v, st: attrs_of(v)


def attribute_names(repo):
    """names of attributes that appear in the source: constants that index or are looked up in something called attrs, keys of dict literals"""
    names = set()
    for m, tree in repo.trees.items():
        if not m.startswith("hickle.") or m.startswith("hickle.legacy_v3"):
            continue
        for n in ast.walk(tree):
            got = []
            if isinstance(n, ast.Subscript) and "attrs" in ast.dump(n.value):
                got = [n.slice]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop", "setdefault") and "attrs" in ast.dump(n.func.value):
                got = n.args[:1]
            elif isinstance(n, ast.Dict):
                got = [k for k in n.keys if k is not None]
            names |= {x.value for x in got if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return sorted(x for x in names if x.isidentifier() and x not in ("type", "base_type"))


def model_file(generation, mode, kind, case, order, empty=False, names=()):
    """(File, node to load, its children)"""
    more = [(C(x), S("value of " + x)) for x in names]
    f = File(mode)
    node = S("lost node", kind)
    inner = S("pickled child", "h5py.Dataset")
    good = S("good child", "h5py.Dataset")
    tag = LIST if case == "lost" else TAG
    cls = None if case == "lost" else EXT("builtins.complex")       # a class which can be found, but no reader for its tag

    def content(n):
        return IX(n, T())
    own = [(C("colour"), S("value of colour"))] + more
    if generation == "4.x":
        p, q = S("pickled type", "numpy.void"), S("pickled int", "numpy.void")
        f.pickles.update({p: cls, q: EXT("builtins.int"), content(inner): None})
        a = [(C("type"), p), (C("base_type"), C(tag))]
        b = [(C("type"), q), (C("base_type"), C(b"int"))]
        f.add(ROOTGROUP, "/", [], [("data", node)])
    else:
        e, et, g, gt = (S(x, "h5py.Dataset") for x in ("entry 0", "entry mytag", "entry 1", "entry int"))
        f.add(e, "/hickle_types_table/0", [(C("base_type"), f.ref(et))])
        f.add(g, "/hickle_types_table/1", [(C("base_type"), f.ref(gt))])
        f.add(et, "/hickle_types_table/" + tag.decode(), empty=True)
        f.add(gt, "/hickle_types_table/int", empty=True)
        ents = [("0", e), (tag.decode(), et), ("1", g), ("int", gt)]
        f.add(TABLE, "/hickle_types_table", [], ents if order else list(reversed(ents)))
        f.pickles.update({content(e): cls, content(g): EXT("builtins.int"), content(inner): None})
        a = [(C("type"), f.ref(e))]
        if not order:
            own.append((C("base_type"), C(b"attribute of the handler")))
        b = [(C("type"), f.ref(g))]
        f.add(ROOTGROUP, "/", [], [("hickle_types_table", TABLE), ("data", node)])
    kids = [("data0", inner), ("data1", good)] if kind == "h5py.Group" and not empty else []
    a = own + a if order else a + own
    f.add(node, "/data", a, kids, empty and kind != "h5py.Group")
    f.add(inner, "/data/data0", [(C("shade"), S("value of shade"))] + more)
    f.add(good, "/data/data1", b + [(C("tint"), S("value of tint"))] + more)
    return f, node, inner, good


def holds(t, c):
    """t carries the content c, not just its shape or type"""
    if t is c:
        return True
    if t.k == "AT" and t.a[1] in ("shape", "dtype", "size", "ndim", "strides", "flags", "nbytes", "itemsize"):
        return False
    if t.k == "CL" and t.a[0].k == "EXT" and t.a[0].a[0] in ("numpy.shape", "numpy.size", "numpy.ndim", "builtins.len", "builtins.type", "builtins.repr", "numpy.empty_like", "numpy.zeros_like", "numpy.ones_like"):
        return False
    return any(holds(x, c) for x in children(t))


def children(t):
    out = []

    def go(x):
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    go(t.a)
    return out


class Value:
    """view of recovered data appended to the parent"""
    def __init__(self, i, v, s):
        self.i, self.v, self.s = i, v, s
        self.cls = None
        o = s.obj(v) if v.k == "OBJ" else None
        if o is not None and o.cls is not None:
            self.cls = cname(o.cls)
        else:
            for x in subterms(v):
                if x.k == "CLS" and x.a[0].name in RECOVERED:
                    self.cls = cname(x)
        self.short = (self.cls or "").split(".")[-1]

    def attrs(self):
        """{name: value} of the attributes kept, or None"""
        vs = self.i.attr(self.v, "attrs", self.s, top_ctx(self.i), NOWHERE) if self.v.k == "OBJ" else []
        if len(vs) == 1:
            d = dict_of(vs[0][0], self.s)
            if d is not None:
                return d
        for e in reversed(self.s.events()):
            if e.op == "setattr" and e.target is self.v and e.key == "attrs":
                return dict_of(e.val, self.s)
        return None


def scenario(rep, generation, mode, kind, case, failure, order=True, empty=False):
    short = kind.split(".")[-1].lower()
    subj = "%s file, mode %s, %s, %s" % (generation, mode, short, "%s when unpickling the class" % failure.split(".")[-1] if case == "lost" else "no reader for the tag")
    if empty:
        subj += ", empty " + short
    with rep.guard("C17.load", subj):
        i = interp()
        t = tables(i)
        fn, m = roles(interp(), "load")
        i = interp()
        f, node, inner, good_child = model_file(generation, mode, kind, case, order, empty, attribute_names(i.repo))
        f.install(i, failure)
        i.raises = lambda *a: ()
        i.keep_fact = None
        i.mark_inject = lambda e: True
        i.max_rec = 3
        i.inline = lambda fi, st, ctx: fi.module in ("hickle.hickle", "hickle.lookup", "hickle.helpers") or fi.module.startswith("hickle.loaders")
        run_scenario(rep, i, t.st, subj, fn, m, f, node, inner, good_child, generation, kind, case)


def create(i, cls, st, args, kws=()):
    c = find(i, "hickle.lookup", cls)
    f = i.attr(c, "create_manager", st, top_ctx(i), NOWHERE)[0][0]
    return [o for o in run(i, f, args, list(kws), st) if not any(e.op == "inject" for e in o[2].events())]


def run_scenario(rep, i, st, subj, fn, m, f, node, inner, good_child, generation, kind, case):
    loc = fn_loc(fn)
    kws = []
    if generation == "4.x":
        kws = [("pickle_loads", find(i, "hickle.lookup", "fix_lambda_obj_type")), ("read_only", TRUE)]
    cut = []

    def bad(rule, c, msg, s, e=None):
        rep.bad(rule, c, "%s: %s" % (subj, msg), e.loc if e is not None and e.loc else loc, trace(s))
    good, n = True, 0
    for k, memo, s in create(i, "ReferenceManager", st, [ROOTGROUP], kws):
        if k != "R":
            good = False
            bad("C17.load", "ReferenceManager: %s" % generation, "creating the reference manager raises %s" % pp(memo, 3), s)
            continue
        for k, loader, s in create(i, "LoaderManager", s, [ROOTGROUP, C(generation == "4.x")]):
            if k != "R":
                rep.unknown("C17.load", subj, "loader manager: %s" % pp(loader, 3))
                good = False
                continue
            i.loop_twice = True
            outs = run(i, fn, [], [(m["container"], CONT), (m["name"], C("data")), (m["node"], node), (m["memo"], memo), (m["loader"], loader)], s)
            rep.use(i)
            for k, v, s in outs:
                if any(e.op == "inject" for e in s.events()):
                    continue
                rep.paths += 1
                n += 1
                if k != "R":
                    good = False
                    bad("C17.load", "load of a lost %s: raises" % kind.split(".")[-1].lower(), "load raises %s instead of recovering the data" % pp(v, 3), s)
                    continue
                app = [e for e in s.events() if e.op == "call" and e.target is CONT and e.key == "append"]
                if len(app) != 1 or len(app[0].args) < 2:
                    good = False
                    bad("C17.load", "load of a lost %s: result" % kind.split(".")[-1].lower(), "%d objects are handed to the parent" % len(app), s)
                    continue
                if not judge(rep, i, app[0].args[1], s, node, inner, good_child, kind, bad, app[0], case, subj, subj.endswith(", empty " + kind.split(".")[-1].lower())):
                    good = False
    if good and n:
        rep.ok("C17.load", subj)
    elif good:
        rep.unknown("C17.load", subj, "no path")


def judge(rep, i, v, s, node, inner, good_child, kind, bad, e, case, subj, empty):
    v = Value(i, v, s)
    group = kind == "h5py.Group"
    what = "load of a lost %s: " % kind.split(".")[-1].lower()
    want = "RecoveredGroup" if group else "RecoveredDataset"
    if v.short != want:
        o = s.obj(v.v) if v.v.k == "OBJ" else None
        if v.cls is None and o is None and not is_c(v.v) and v.v.k not in ("TUP", "IX"):
            rep.unknown("C17.load", subj, "value %s not understood" % pp(v.v, 3))
            return False
        bad("C17.load", what + "kind", "%s is handed to the parent instead of a %s" % (pp(v.v, 4), want), s, e)
        return False
    if not check_attrs(rep, v, s, bad, what, e, subj, {"colour": S("value of colour")}, LIST if case == "lost" else TAG):
        return False
    if not group:
        for x in subterms(v.v):
            if x.k == "CL" and x.a[0] is EXT("numpy.ndarray.__new__") and any(k == "buffer" for k, _ in x.a[2]):
                bad("C17.content", what + "buffer", "the recovered data is laid over a buffer, which numpy refuses for variable length strings", s, e)
                return False
        if empty:
            if any(x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0].startswith("numpy.") and x.a[1] and x.a[1][0] is IX(node, T()) for x in subterms(v.v)):
                bad("C17.content", "load of a lost empty dataset", "the content h5py.Empty is handed to numpy (%s), which cannot convert it" % pp(v.v, 5), s, e)
                return False
            return True
        if not holds(v.v, IX(node, T())):
            bad("C17.content", what + "content", "the recovered data %s does not hold the content of the dataset" % pp(v.v, 5), s, e)
            return False
        return True
    its = items_of(i, v.v, s)
    if its is None:
        rep.unknown("C17.content", subj, "items of the recovered group not understood")
        return False
    if empty:
        if its:
            bad("C17.content", what + "items", "items (%s) appear in the recovered data of an empty group" % ", ".join(map(str, its)), s, e)
        return not its
    for name in ("data0", "data1"):
        if name not in its:
            bad("C17.content", what + "items", "item %r of the group is missing in the recovered data (%s)" % (name, ", ".join(map(str, its))), s, e)
            return False
    x = Value(i, its["data0"], s)
    if x.short != "RecoveredDataset":
        y = seq_items(its["data0"], s)
        x = Value(i, y[0], s) if y else x
    if x.short != "RecoveredDataset" or not holds(x.v, IX(inner, T())):
        bad("C17.content", what + "pickled child", "the pickled item becomes %s instead of a RecoveredDataset with its content" % pp(its["data0"], 4), s, e)
        return False
    if not check_attrs(rep, x, s, bad, "load of a lost pickle: ", e, subj, {"shade": S("value of shade")}, None):
        return False
    y = seq_items(its["data1"], s)
    if y is None or len(y) != 2:
        bad("C17.content", what + "item", "the item that could be loaded becomes %s instead of the object and its attributes" % pp(its["data1"], 4), s, e)
        return False
    if not holds(i.freeze(y[0], s), IX(good_child, T())):
        bad("C17.content", what + "item", "the item that could be loaded becomes %s" % pp(y[0], 4), s, e)
        return False
    d = dict_of(y[1], s)
    if d is None:
        rep.unknown("C17.attrs", subj, "attributes of the items not understood")
        return False
    for k in ["tint"] + attribute_names(i.repo):
        if d.get(k) is not S("value of " + k):
            bad("C17.attrs", what + "attributes of the items", "the attributes kept of an item are %s, but its attribute %r is missing" % (", ".join(map(str, d)), k), s, e)
            return False
    return True


def check_attrs(rep, v, s, bad, what, e, subj, want, tag):
    d = v.attrs()
    if d is None:
        rep.unknown("C17.attrs", subj, "attributes of the recovered data not understood")
        return False
    for k, x in list(want.items()) + [(k, S("value of " + k)) for k in attribute_names(v.i.repo)]:
        if d.get(k) is not x:
            bad("C17.attrs", what + "attributes", "the attributes kept (%s) lack %r" % (", ".join("%s: %s" % (a, pp(b, 2)) for a, b in d.items()), k), s, e)
            return False
    if tag is not None and ("base_type" not in d or is_c(d["base_type"]) and cval(d["base_type"]) != tag):
        bad("C17.tag", what + "tag", "the recovered data names the tag %s instead of %r" % (pp(d["base_type"], 2) if "base_type" in d else "not at all", tag), s, e)
        return False
    if tag is not None and not is_c(d["base_type"]):
        rep.unknown("C17.tag", subj, "tag not understood")
        return False
    return True


def items_of(i, v, s):
    o = s.obj(v)
    if o is None:
        return None
    for d in (v, *[x for x in (o.data if isinstance(o.data, tuple) else ()) if isinstance(x, Node)]):
        r = dict_of(d, s)
        if r is not None:
            return r
    # the content handed to dict.__init__ / update
    for e in s.events():
        if e.op == "call" and e.args and e.target is v and e.key in ("__init__", "update"):
            r = dict_of(e.args[-1], s)
            if r is not None:
                return r
    return None


def check_hash(rep):
    """recovered data may be a dict key or an item of a set"""
    i = interp()
    for n in RECOVERED:
        c = find(i, "hickle.lookup", n)
        ci = c.a[0]
        v, owner = i.class_lookup(ci, "__hash__", state(i))
        loc = ("hickle/lookup.py", ci.node.lineno, ci.qual)
        if v is None or v is NONE:
            rep.bad("C17.hash", n, "%s is not hashable: dicts and sets with recovered keys or items cannot be loaded" % n, loc)
        else:
            rep.ok("C17.hash", n)


def check(rep, tier):
    rep.rule("C17.load", "load of a node whose class or reader is missing hands a RecoveredGroup or RecoveredDataset to the parent")
    rep.rule("C17.content", "the recovered data holds the content: array of the dataset, all items of the group")
    rep.rule("C17.attrs", "the recovered data keeps the attributes of the node and of the items")
    rep.rule("C17.tag", "the recovered data names the original tag")
    rep.rule("C17.hash", "recovered data is hashable")
    for generation in ("current", "4.x"):
        for mode in ("r", "r+"):
            for kind in ("h5py.Group", "h5py.Dataset"):
                for fail in FAILURES:
                    scenario(rep, generation, mode, kind, "lost", fail)
                scenario(rep, generation, mode, kind, "unknown", FAILURES[0])
                scenario(rep, generation, mode, kind, "lost", FAILURES[1], True, True)
                if generation == "current":
                    scenario(rep, generation, mode, kind, "lost", FAILURES[1], False)
    with rep.guard("C17.hash", "recovered classes"):
        check_hash(rep)
