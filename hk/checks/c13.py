"""Provenance of classes: what the recursion of dump records, what the loader lookup and the type table make of
it, what load hands to the readers, and with which class every reader builds its result - each interpreted for an
unknown subclass of the registered type."""
from ..registry import *
from ..core import *
from .c04 import pick

CLS = S("py_obj_type", "builtins.type")
NODE = S("h_node", "h5py.Dataset")
GATTRS = S("h_attrs", "h5py.AttributeManager")
USER, OBJECT = EXT("user.Object"), EXT("builtins.object")
BUILTIN = {"list", "tuple", "set", "dict", "str", "bytes", "int", "float", "complex", "bool"}


def covered(nm):
    if nm.startswith("builtins."):
        return nm[9:] in BUILTIN
    return nm in ("numpy.matrix",) or nm.startswith(("numpy.ma.", "scipy.sparse.", "astropy."))


# recording ------------------------------------------------------------------------------------------------

def is_class_of(t, obj):
    return t is AT(obj, "__class__") or t.k == "CL" and t.a[0] is EXT("builtins.type") and t.a[1] == (obj,)


def proj(t):
    """(base, indices) of a chain of constant subscripts"""
    ix = []
    while t.k == "IX" and is_c(t.a[1]):
        ix.append(cval(t.a[1]))
        t = t.a[0]
    return t, tuple(reversed(ix))


def lookup_of(t):
    """argument of the loader lookup a term is the result of"""
    if t.k == "CL" and t.a[0].k == "AT" and t.a[0].a[1] == "load_loader" and t.a[1]:
        return t.a[1][0]
    return None


def check_dump(rep):
    i = interp()
    fn, m = roles(i, "dump")
    loc = fn_loc(fn)
    RM = find(i, "hickle.lookup", "ReferenceManager")
    sig = params(method(i, RM, "store_type"))[1:]
    paths = dump_paths(i, attrs={"a0": S("attr0")}) + dump_paths(i, attrs={})
    rep.use(i)
    rep.paths += len(paths)
    n = 0
    for p in paths:
        wr = [e for k, e in p.writers if e.op == "call"]
        if p.kind != "R" or not wr:
            continue
        for k, e in p.writers:
            f, ix = proj(e.target)
            a = lookup_of(f)
            if a is not None and not is_class_of(a, PYOBJ):
                rep.bad("C13.record", "%s: lookup" % loc[2], "the loader is looked up for %s instead of the class of the object" % pp(a, 3), e.loc, p.trace())
        if p.pickled:
            continue
        node = None
        if not p.types:
            rep.bad("C13.record", "%s: no type recorded" % loc[2], "a natively stored object gets no type record on a path", loc, p.trace())
            continue
        for k, e in p.types:
            d = dict(zip(sig, e.args))
            d.update((k2, v) for k2, v in e.kws if k2)
            t = d.get("py_obj_type") if "py_obj_type" in sig else (e.args[1] if len(e.args) > 1 else None)
            if t is None:
                rep.unknown("C13.record", loc[2], "arguments of store_type not understood")
                continue
            base, ix = proj(t)
            if is_class_of(t, PYOBJ) or lookup_of(base) is not None and ix == (0,):
                n += 1
            elif t.k == "TOP":
                rep.unknown("C13.record", loc[2], "class recorded not understood")
            else:
                rep.bad("C13.record", "%s: class recorded" % loc[2], "%s is recorded instead of the class of the object" % pp(t, 4), e.loc, p.trace())
            if "attr_name" in d and d["attr_name"] is not C("type"):
                rep.bad("C13.record", "%s: attribute" % loc[2], "the class is recorded under another attribute than the one load asks for", e.loc, p.trace())
        # the record may not be overwritten afterwards
    if n:
        rep.ok("C13.record", "%s: %d paths" % (loc[2], n))
    # attributes of an item cannot replace the record
    i = interp()
    MARK = S("foreign_type")
    paths = dump_paths(i, attrs={"type": MARK})
    bad = False
    for p in paths:
        if p.kind != "R" or not p.types:
            continue
        n0 = p.types[-1][0]
        for e in p.events[n0:]:
            if bad:
                break
            over = e.op == "setitem" and e.val is MARK or e.op == "call" and e.key in ("update", "create", "modify", "__setitem__") and e.target.k == "AT" and e.target.a[1] == "attrs" and \
                any(x is MARK for a in e.args for x in subterms(i.freeze(a, p.st)))
            if over:
                bad = True
                rep.bad("C13.record", "%s: attributes replace the record" % loc[2], "an item attribute named 'type' replaces the recorded class", e.loc, p.trace())
    if not bad:
        rep.ok("C13.record", "%s: attributes of the item" % loc[2])


def check_lookup(rep):
    for mro, found, what in [((USER,), USER, "registered class"), ((USER,), None, "class found in a loader module"), ((USER, EXT("astropy.units.Quantity")), None, "subclass of a class found in a loader module"), ((USER, EXT("builtins.list")), EXT("builtins.list"), "subclass of a registered class")]:
        i = interp()
        f, outs = lookup_paths(i, USER, mro, found)
        rep.use(i)
        rep.paths += len(outs)
        good = True
        for k, v, s in outs:
            it = seq_items(v, s) if k == "R" else None
            if not it or len(it) != 2:
                continue
            q = [e.val for e in s.events() if e.op == "query"]
            if it[1] in q and it[0] is not USER and good:
                good = False
                rep.bad("C13.lookup", "load_loader: %s" % what, "the lookup lowers the class of the object to %s although a loader was found" % pp(it[0]), fn_loc(f), trace(s, ops=("query", "call")))
        if good:
            rep.ok("C13.lookup", "%s (%d paths)" % (what, len(outs)))


def check_table(rep):
    """store_type / resolve_type"""
    i = interp()
    i.keep_fact = None
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
    RM = find(i, "hickle.lookup", "ReferenceManager")
    f = method(i, RM, "store_type")
    loc = fn_loc(f)
    SELF = S("self", "hickle.lookup.ReferenceManager")
    K = S("klass", "builtins.type")
    TAG = C(b"tag")
    KID = CL(EXT("builtins.id"), (K,))
    st = state(i).fact(mk("CMP", "is", K, OBJECT), False)
    outs = run(i, f, [SELF, NODE, K, TAG], [("", KW)], st)
    rep.use(i)
    rep.paths += len(outs)
    seen = set()
    good = True

    def bad(c, m, l, s):
        nonlocal good
        good = False
        rep.bad("C13.table", "store_type: " + c, m, l, trace(s))
    attrs = AT(NODE, "attrs")
    for k, v, s in outs:
        if k != "R":
            continue
        evs = s.events()
        mk_ = [e for e in created(s)]
        ty = [e for e in mk_ if any(x.k == "CL" and x.a[0] is EXT("pickle.dumps") for d in [kwmap(e).get("data"), e.args[3] if len(e.args) > 3 else None] if d is not None for x in subterms(i.freeze(d, s)))]
        w = attrs_written(s, NODE)
        if "type" not in w:
            if "*" not in w:
                bad("type attribute", "a path ends without the type attribute of the node being set", loc, s)
            continue
        val, ev = w["type"]
        for e in ty:
            d = i.freeze(kwmap(e).get("data") or e.args[3], s)
            for x in subterms(d):
                if x.k == "CL" and x.a[0] is EXT("pickle.dumps") and x.a[1] and x.a[1][0] is not K:
                    bad("class stored", "the type table entry holds %s instead of the class" % pp(x.a[1][0], 3), e.loc, s)
        if not val.k == "AT" or val.a[1] != "ref":
            rep.unknown("C13.table", "store_type", "value of the type attribute: %s" % pp(val, 3))
            continue
        ent = val.a[0]
        if ty:
            seen.add("new")
            if ent is not ty[-1].val:
                bad("reference", "the type attribute refers to %s instead of the new type table entry" % pp(ent, 3), ev.loc, s)
            keyed = [e for e in evs if e.op == "setitem" and (e.key is KID)]
            hold = [e for e in evs if e.op in ("setitem", "setattr") and isinstance(e.val, Node) and holds(i.freeze(e.val, s), K)
                    or e.op in ("setitem",) and isinstance(e.key, Node) and holds(i.freeze(e.key, s), K)
                    or e.op == "call" and e.key in ("append", "add", "update", "setdefault") and any(isinstance(a, Node) and holds(i.freeze(a, s), K) for a in e.args)]
            if keyed and not hold:
                bad("class not kept", "the entry is remembered under id(class) but the class itself is not kept alive: another class may get the same id while the file is written", keyed[0].loc, s)
            for e in keyed:
                if not any(x is ent for x in subterms(i.freeze(e.val, s))):
                    bad("memo", "%s is remembered for the class instead of its entry" % pp(e.val, 3), e.loc, s)
        else:
            seen.add("known")
            keys = [x.a[1][0] for x in subterms(ent) if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] in ("get", "__getitem__", "setdefault") and x.a[1]] + [x.a[1] for x in subterms(ent) if x.k == "IX"]
            ids = [identifies(x, K, KID) for x in keys]
            if not keys or all(x is False for x in ids):
                bad("entry", "an entry (%s) not looked up by the identity of the class is referenced" % pp(ent, 4), ev.loc, s)
    if good and "new" in seen:
        rep.ok("C13.table", "store_type (%d paths)" % len(outs))
    elif good:
        rep.unknown("C13.table", "store_type", "no path creates an entry")

    # resolve_type: the class is the unpickled content of the referenced entry
    i = interp()
    i.keep_fact = None
    i.inline = lambda fi, st, ctx: fi.module in ("hickle.lookup", "hickle.helpers")
    g = method(i, RM, "resolve_type")
    outs = run(i, g, [SELF, NODE])
    rep.use(i)
    rep.paths += len(outs)
    good, n = True, 0
    for k, v, s in outs:
        it = seq_items(v, s) if k == "R" else None
        if not it or len(it) != 3 or any(e.op == "caught" for e in s.events()):
            continue
        c = i.freeze(it[0], s)
        if c.k in ("CLS", "EXT"):
            if not has_type_attr(s):
                continue
        refs = [x for x in subterms(c) if x.k == "CL" and x.a[0].k == "AT" and x.a[0].a[1] == "get" and x.a[0].a[0] is attrs and x.a[1] and x.a[1][0] is C("type")
                or x.k == "IX" and x.a[0] is attrs and x.a[1] is C("type")]
        if refs:
            n += 1
        elif c.k != "TOP":
            good = False
            rep.bad("C13.table", "resolve_type: class", "the class returned (%s) is not the one the type attribute of the node refers to" % pp(c, 4), fn_loc(g), trace(s))
    if good and n:
        rep.ok("C13.table", "resolve_type (%d paths)" % n)


def has_type_attr(s):
    for t, b in s.facts.items():
        if t.k == "CMP" and t.a[0] == "is" and t.a[2] is NONE and t.a[1].k == "CL" and t.a[1].a[1][:1] == (C("type"),):
            return b is False
    return True


def holds(t, K):
    """storing t keeps K alive"""
    if t is K:
        return True
    if t.k in ("TUP", "LST", "SET", "DCT", "LC"):
        return any(holds(c, K) for c in children(t))
    return False


def identifies(key, K, KID):
    if key is K or key is KID or key.k == "CL" and key.a[0] is EXT("pickle.dumps"):
        return True
    if key.k == "TUP":
        r = [identifies(c, K, KID) for c in key.a]
        if True in r:
            return True
    at = {x.a[1] for x in subterms(key) if x.k == "AT" and x.a[0] is K}
    if {"__module__", "__qualname__"} <= at:
        return True
    if at or not any(x is K for x in subterms(key)):
        return False
    return None


def check_load(rep):
    i = interp()
    fn, m = roles(i, "load")
    loc = fn_loc(fn)
    paths = load_paths(i)
    rep.use(i)
    rep.paths += len(paths)
    n, good = 0, True
    for p in paths:
        if p.kind != "R":
            continue
        for e in p.events:
            if e.op != "call" or e.target is None or e.key is not None or len(e.args) + len(e.kws) != 3:
                continue
            t = e.target
            if not any(x.k == "AT" and x.a[0] is LOADER and x.a[1] in ("hkl_types_dict", "hkl_container_dict") or x.k == "CLS" and "Recover" in x.a[0].name or x.k == "FN" and "recover" in x.a[0].name for x in subterms(t)):
                continue
            c = e.args[2] if len(e.args) > 2 else dict(e.kws).get("py_obj_type", dict(e.kws).get("object_type"))
            if c is None:
                continue
            n += 1
            base, ix = proj(c)
            a = lookup_of(base)
            if a is not None and ix == (0,):
                base, ix = proj(a)
            if ix == (0,) and base.k == "CL" and base.a[0].k == "AT" and base.a[0].a[1] == "resolve_type":
                continue
            if any(x.k in ("TOP",) for x in subterms(c)):
                rep.unknown("C13.load", loc[2], "class handed to the reader not understood")
                good = False
                continue
            good = False
            rep.bad("C13.load", "%s: class handed to the reader" % loc[2], "the reader is told to build %s instead of the recorded class" % pp(c, 5), e.loc, p.trace())
    if good and n:
        rep.ok("C13.load", "%s: %d calls of readers" % (loc[2], n))
    elif good:
        rep.unknown("C13.load", loc[2], "no call of a reader found")


# readers --------------------------------------------------------------------------------------------------

def class_models(i, base):
    """CLS is some subclass of `base`"""
    def rel(c):
        nm = cname(c) if isinstance(c, Node) else None
        if not nm:
            return None
        if issub(base, c):
            return True
        if issub(c, base):
            return None
        try:
            return False if disjoint(base, c) else None
        except Exception:
            return None

    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT" and f.a[0] in ("builtins.isinstance", "builtins.issubclass") and len(args) == 2 and args[0] is CLS:
            cs = seq_items(args[1], st) or [args[1]]
            if f.a[0] == "builtins.isinstance":
                if all(cname(c) and cname(c) not in ("builtins.type", "builtins.object") for c in cs):
                    return [(FALSE, st)]
                return [(TRUE, st)]
            r = [rel(c) for c in cs]
            if True in r:
                return [(TRUE, st)]
            if all(x is False for x in r):
                return [(FALSE, st)]
            return [(TRUE, st.fact(mk("CMP", "sub", CLS, args[1]), True)), (FALSE, st)]
    i.model_call = call


NEWISH = {"__new__", "_new", "_make", "fromkeys", "from_dict", "fromhex", "from_buffer"}


def built(v, i, s, base):
    """True: instance of CLS, False: not, None: not decided"""
    v0 = v
    v = i.freeze(v, s)
    if v.k == "TOP":
        return None
    if v.k == "CL" and v.a[0] is CLS:
        return True
    if v.k == "CL" and v.a[0].k == "AT" and (v.a[0].a[0] is CLS or v.a[0].a[1] == "view" and CLS in v.a[1] or v.a[0].a[1] == "__new__" and CLS in v.a[1]):
        return True
    if v.k == "INST" or v.k == "OBJ" and s.obj(v) is not None and s.obj(v).kind == "inst":
        return None
    k = kind_of(v, s) or kind_of(v0, s)
    k = cname(k) if isinstance(k, Node) else k
    if k is None and v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] in ("decode", "encode"):
        k = "builtins.str" if v.a[0].a[1] == "decode" else "builtins.bytes"
    if k is None and v.k == "IX":
        # what h5py reads is never an instance of a subclass
        k = next((cname(t.a[1]) for t, b in s.facts.items() if b and t.k == "ISI" and t.a[0] in (v, v0) and cname(t.a[1]) in ("builtins.str", "builtins.bytes")), None)
    for t, b in s.facts.items():
        if t.k == "CMP" and t.a[0] in ("is", "==", "is not", "!=") and CLS in t.a[1:]:
            if (t.a[0] in ("is", "==")) != bool(b):
                continue
            o = t.a[2] if t.a[1] is CLS else t.a[1]
            o = i.freeze(o, s)
            if is_class_of(o, v) or is_class_of(o, v0):
                return True
            if o.k in ("EXT", "CLS") and k and cname(o) == k:
                return True
            if o.k == "AT" and o.a[1] == "__class__" or o.k == "CL" and o.a[0] is EXT("builtins.type"):
                src = o.a[0] if o.k == "AT" else o.a[1][0]
                if src is v or src is v0:
                    return True
            if o.k == "EXT" and k is None:
                return None
    if any(x is CLS for x in subterms(v)):
        return None if not (v.k == "CL" and v.a[0].k == "EXT" and known_class(v.a[0].a[0])) else False
    return False


def pairs_passed(v, i, s):
    """the recorded class is called with a sequence, although it may not be dict itself"""
    f = i.freeze(v, s)
    if not (f.k == "CL" and f.a[0] is CLS and len(f.a[1]) == 1):
        return False
    for t, b in s.facts.items():
        if t.k == "CMP" and t.a[0] in ("is", "==") and b and CLS in t.a[1:] and EXT("builtins.dict") in t.a[1:]:
            return False
    a = f.a[1][0]
    k = kind_of(a, s)
    return a.k in ("LST", "TUP", "LC") or isinstance(k, Node) and cname(k) in ("builtins.list", "builtins.tuple")


def item_names(create, nm):
    """constant names of the items a writer stores in its group"""
    if create is None or create.k != "FN":
        return []
    i = interp()
    setup(i)
    out = []
    for p in writer(i, create, nm)[0]:
        names = [sub_fields(x, p.st) for x in p.subs or ()]
        names = [f[0] for f in names if f is not None and is_c(f[0])]
        if names and names not in out:
            out.append(names)
    return out


def check_reader(rep, what, base, load, cont, tag, create=None):
    nm = cname(base)
    names = item_names(create, nm) if cont is not None else []
    jobs = []
    if load is not None and load.k == "FN":
        jobs.append(("dataset", load))
    if cont is not None and cont.k == "CLS":
        jobs.append(("group", cont))
    for kind, r in jobs:
        i = interp()
        i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.")
        i.keep_fact = None
        i.raises = lambda *a: ()
        i.max_outcomes = 4000
        class_models(i, base)
        outs = []
        if kind == "dataset":
            outs = [(v, s) for k, v, s in run(i, r, [NODE, tag, CLS]) if k == "R"]
            loc = fn_loc(r)
        else:
            loc = (r.a[0].relpath if hasattr(r.a[0], "relpath") else r.a[0].module.replace(".", "/") + ".py", getattr(r.a[0].node, "lineno", 0), r.a[0].qual)
            for k, obj, s in run(i, r, [GATTRS, tag, CLS], [], state(i)):
                if k != "R":
                    continue
                f = i.attr(obj, "append", s, top_ctx(i), NOWHERE)[0][0]
                after = [o[2] for o in run(i, f, [S("i_name", "builtins.str"), S("item"), S("i_attrs", "h5py.AttributeManager")], [], s) if o[0] == "R"][:40]
                for ns in names:
                    live = [s]
                    for x in ns:
                        live = [o[2] for s1 in live for o in run(i, f, [x, S("item_%s" % cval(x)), S("i_attrs", "h5py.AttributeManager")], [], s1) if o[0] == "R"][:40]
                    after += live
                for s1 in [s] + after:
                    f = i.attr(obj, "convert", s1, top_ctx(i), NOWHERE)[0][0]
                    outs += [(o[1], o[2]) for o in run(i, f, [], [], s1) if o[0] == "R"]
        rep.use(i)
        rep.paths += len(outs)
        res = []
        for v, s in outs:
            if nm == "numpy.matrix" and kind == "dataset" and any(b and t.k == "CMP" and t.a[0] == "in" and t.a[1] is C("str") for t, b in s.facts.items()):
                continue    # a matrix has two dimensions: text in it is stored as a group
            b = built(v, i, s, base)
            if b and nm == "builtins.dict" and pairs_passed(v, i, s):
                res.append(False)
                rep.bad("C13.reader", "%s: items of a subclass" % what, "the recorded class is given a list of pairs: a subclass such as Counter takes these for something else than the items of a dict", loc, trace(s))
                break
            res.append(b)
            if b is False:
                rep.bad("C13.reader", "%s: %s reader" % (what, kind), "on a path the reader returns %s, which is not an instance of the recorded class" % pp(i.freeze(v, s), 4), loc, trace(s))
                break
        if False in res:
            continue
        if res and None not in res:
            rep.ok("C13.reader", "%s: %s, %d paths" % (what, kind, len(res)))
        else:
            rep.unknown("C13.reader", "%s: %s" % (what, kind), "%d of %d results not understood" % (res.count(None), len(res)))


def check(rep, tier):
    rep.rule("C13.record", "dump records the class of the very object for every natively stored object, and nothing replaces the record")
    rep.rule("C13.lookup", "the loader lookup returns the class it was asked for whenever a loader was found")
    rep.rule("C13.table", "the type table entry referenced by a node holds the class given, is looked up by that class only, and load resolves it back")
    rep.rule("C13.load", "load hands the recorded class to the reader")
    rep.rule("C13.reader", "every reader returns an instance built with the recorded class, or a value whose class was found to be it")
    for rule, name, f in (("C13.record", "recursion of dump", check_dump), ("C13.lookup", "load_loader", check_lookup), ("C13.table", "type table", check_table), ("C13.load", "recursion of load", check_load)):
        with rep.guard(rule, name):
            f(rep)
    i = interp()
    T_ = tables(i)
    rep.use(i)
    done = set()
    for opt, types in T_.types.items():
        for cls, entry in types.items():
            it = seq_items(entry, T_.st)
            nm = cname(cls) if isinstance(cls, Node) else None
            if it is None or not nm or not covered(nm) or not is_c(it[1]):
                continue
            for o in ([None, "hickle-4.x"] if opt is None else [opt]):
                tag = cval(it[1])
                load = pick(T_.load, o, tag) if o is not None else T_.load[None].get(tag)
                cont = pick(T_.cont, o, tag) if o is not None else T_.cont[None].get(tag)
                if (cls, load, cont) in done:
                    continue
                done.add((cls, load, cont))
                what = nm + (" (%s)" % o if o else "")
                with rep.guard("C13.reader", what):
                    check_reader(rep, what, cls, load, cont, it[1], it[0])
