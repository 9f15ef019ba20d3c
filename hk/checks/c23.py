"""Provenance analysis of the readers of earlier releases: abstract files laid out as hickle 3 and 4.0 wrote them
(constants of this module, from the released writers), whose contents are symbols, are given to the readers.
The object returned must be built from the symbols the earlier release stored its constituents in."""
from ..registry import *
from ..core import fn_loc
from .c05 import lossy, ctor, bind, SPEC

FILE = S("v3 file", "h5py.File")
ASCLASS = ("<class '%s'>", "<type '%s'>")


class Nodes:
    """the nodes of an abstract file"""
    def __init__(self):
        self.kids, self.attrs, self.data, self.names, self.parents, self.props = {}, {}, {}, {}, {}, {}

    def add(self, parent, name, attrs, data=None, kids=()):
        path = (self.names.get(parent, "") + "/" + name).replace("//", "/") if name else "/"
        n = S("node " + path, "h5py.Dataset" if data is not None else "h5py.Group")
        self.names[n], self.attrs[n], self.parents[n] = path, dict(attrs), parent
        if data is None:
            self.kids[n] = {}
        else:
            self.data[n] = data
        if parent is not None:
            self.kids[parent][name] = n
        return n

    def child(self, g, key):
        k = cval(key) if is_c(key) else None
        k = k.decode() if isinstance(k, bytes) else k
        if not isinstance(k, str):
            return None
        if k.startswith("/"):
            for n, p in self.names.items():
                if p == k:
                    return n
            return False
        n = g
        for part in [x for x in k.split("/") if x]:
            n = self.kids.get(n, {}).get(part)
            if n is None:
                return False
        return n

    def install(self, i):
        own = {AT(n, "attrs"): n for n in self.names}

        def missing(exc, st):
            i.throw(exc, st)
            return []

        def get(b, key, default, st):
            if b in own:
                a = self.attrs[own[b]]
                if is_c(key) and cval(key) in a:
                    return [(a[cval(key)], st)]
                if is_c(key):
                    return [(default, st)] if default is not None else missing(mk("EXC", EXT("builtins.KeyError"), (key,), NONE), st)
            if b in self.kids:
                n = self.child(b, key)
                if n is False:
                    return [(default, st)] if default is not None else missing(mk("EXC", EXT("builtins.KeyError"), (key,), NONE), st)
                if n is not None:
                    return [(n, st)]

        def item(b, idx, st, ctx, n):
            if b in self.data and (idx is T() or idx is C(Ellipsis) or idx.k == "SLICE" and all(x is NONE for x in idx.a)):
                return [(self.data[b], st)]
            return get(b, idx, None, st)

        def attr(b, name, st, ctx, n):
            if b in self.names:
                if name == "name":
                    return [(C(self.names[b]), st)]
                if name == "parent":
                    return [(self.parents[b] if self.parents[b] is not None else b, st)]
                if name == "file":
                    return [(FILE, st)]
            if (b, name) in self.props:
                return [(self.props[b, name], st)]

        def listing(b, what, st):
            if b in own:
                prs = [(C(k), v) for k, v in self.attrs[own[b]].items()]
            elif b in self.kids:
                prs = [(C(k), v) for k, v in sorted(self.kids[b].items())]
            else:
                return None
            return [(T(*[k if what == "keys" else v if what == "values" else T(k, v) for k, v in prs]), st)]

        def call(f, args, kws, st, ctx, n):
            if f.k == "CLS" and f.a[0].name == "H5NodeFilterProxy" and len(args) == 1 and args[0] in self.names:
                return [(args[0], st)]      # the proxy shows the node and what is put over its attributes
            if f.k == "AT" and (f.a[0] in own or f.a[0] in self.kids):
                m = f.a[1]
                if m == "get" and args:
                    return get(f.a[0], args[0], args[1] if len(args) > 1 else NONE, st)
                if m == "__getitem__" and args:
                    return get(f.a[0], args[0], None, st)
                if m in ("keys", "values", "items") and not args:
                    return listing(f.a[0], m, st)
                if m == "__contains__" and args:
                    r = get(f.a[0], args[0], C("absent"), st)
                    return [(C(r[0][0] is not C("absent")), st)] if r else None
            if f.k == "EXT" and f.a[0].endswith("AttributeManager.get") and len(args) > 1:
                return get(args[0], args[1], args[2] if len(args) > 2 else NONE, st)
            if f.k == "EXT" and f.a[0] == "builtins.dict" and len(args) == 1 and args[0] in own:
                o, st = st.alloc(("attrs-copy", ctx.fn.loc(n)), HO("dict", None, (), (tuple((C(k), v) for k, v in self.attrs[own[args[0]]].items()), ())))
                return [(o, st)]
            if f.k == "EXT" and f.a[0] in ("builtins.list", "builtins.sorted", "builtins.iter") and len(args) == 1 and not kws and args[0] in self.kids:
                return listing(args[0], "keys", st)

        def fork(t, st):
            x, neg = t, False
            while x.k == "NOT":
                x, neg = x.a[0], not neg
            if x.k == "CMP" and x.a[0] in ("in", "not in") and is_c(x.a[1]):
                b = x.a[2]
                if b.k == "CL" and b.a[0].k == "AT" and b.a[0].a[1] == "keys":
                    b = b.a[0].a[0]
                if b in own or b in self.kids:
                    have = cval(x.a[1]) in (self.attrs[own[b]] if b in own else self.kids[b])
                    return (have == (x.a[0] == "in")) != neg
        i.model_item, i.model_attr, i.model_call, i.fork_hook = item, attr, call, fork
        i.model_iter = lambda v, st: [C(k) for k in sorted(self.kids[v])] if v in self.kids else [C(k) for k in self.attrs[own[v]]] if v in own else None


# matching of results ---------------------------------------------------------------------------------------
PASS = {"builtins.bytes", "builtins.str", "numpy.asarray", "numpy.array", "builtins.list", "builtins.tuple", "builtins.int", "builtins.float", "builtins.complex", "builtins.bool"}


def strip(t, passing):
    while t.k == "CL" and t.a[0].k == "EXT" and t.a[0].a[0] in passing and len(t.a[1]) == 1 and not [k for k, v in t.a[2] if k not in ("copy",)]:
        t = t.a[1][0]
    return t


def mentions(t, x):
    if isinstance(x, Either):
        return any(mentions(t, y) for y in x.ts)
    return any(y is x for y in subterms(t))


def holds(t, x):
    """the value of x, not only its shape or type, is part of t"""
    if t is x or isinstance(x, Either) and t in x.ts:
        return True
    if t.k == "AT" and t.a[1] in ("shape", "dtype", "ndim", "size", "kind", "itemsize"):
        return False
    return any(holds(c, x) for c in children(t))


def want_same(x, passing=()):
    def m(v):
        if strip(v, set(passing)) is x:
            return True
        if not mentions(v, x):
            return "does not contain what was stored" if not any(y.k == "TOP" for y in subterms(v)) else None
        return "is %s" % pp(v, 4) if v.k in ("DEC", "ENC", "STRF", "REPR", "CAT") or v.k == "CL" and v.a[0].k == "EXT" and v.a[0].a[0] in PASS else None
    return m


def want_seq(kind, xs, passing=()):
    k2 = {"list": "LST", "tuple": "TUP", "set": "SET"}[kind]

    def m(v):
        if v.k in ("LST", "TUP", "SET"):
            if v.k != k2:
                return "is a %s, not a %s" % ({"LST": "list", "TUP": "tuple", "SET": "set"}[v.k], kind)
            got = [strip(y, set(passing)) for y in v.a]
            if kind == "set" and set(got) == set(xs) or got == list(xs):
                return True
            if any(y.k == "TOP" for g in got for y in subterms(g)) or any(g.k in ("STAR", "REP", "EL") for g in got):
                return None
            return "consists of %s instead of the %d items stored" % (", ".join(pp(g, 3) for g in got[:4]), len(xs))
        return None
    return m


def seq_of(kind, ms):
    k2 = {"list": "LST", "tuple": "TUP"}[kind]

    def m(v):
        if v.k not in ("LST", "TUP"):
            return None
        if v.k != k2:
            return "is not a %s" % kind
        if any(y.k in ("STAR", "REP", "EL") for y in v.a):
            return None
        if len(v.a) != len(ms):
            return "has %d items instead of %d (%s)" % (len(v.a), len(ms), ", ".join(pp(y, 2) for y in v.a))
        for f, y in zip(ms, v.a):
            r = f(y)
            if r is not True:
                return r
        return True
    return m


def want_ctor(names, sig, roles):
    """constructor call whose argument `role` is made of the symbol stored, and of no other role's"""
    def m(v):
        c = ctor(v, names)
        while c is not None and len(c.a[1]) == 1 and not c.a[2] and c.a[1][0].k == "CL" and ctor(c.a[1][0], names) is c.a[1][0]:
            c = c.a[1][0]       # converted to its own class
        if c is None:
            made = [x.a[0].a[0] for x in subterms(v) if x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0].split(".")[-1] in KINDS]
            return "is built by %s instead of %s" % (made[0], names[0]) if made else None
        d = bind(c, sig)
        for r, x in roles.items():
            t = d.get(r)
            if t is None:
                if any(k == "" for k, v in c.a[2]) or any(a.k == "STAR" for a in c.a[1]):
                    return None
                return "is built without the %s stored" % r
            others = [o for o, y in roles.items() if o != r and holds(t, y)]
            if not mentions(t, x):
                if any(y.k == "TOP" for y in subterms(t)):
                    return None
                return "has %s as %s instead of the %s stored" % (("the " + others[0]) if others else pp(t, 3), r, r)
            if others:
                return "mixes %s and %s" % (r, others[0])
            l = lossy(t)
            if l:
                return "has its %s converted by %s" % (r, l)
            bad = reordered(t, x)
            if bad:
                return "has only a part of its %s, or not in the order stored (%s)" % (r, pp(bad, 3))
        return True
    return m


def reordered(t, x):
    """a slice or item of x where all of it is meant"""
    for y in subterms(t):
        if y.k == "IX" and y.a[0] is x and isinstance(y.a[1], Node) and y.a[1].k == "SLICE" and not all(z is NONE for z in y.a[1].a):
            return y


def want_array(x, dtype=None):
    def m(v):
        if not mentions(v, x):
            return "does not contain what was stored" if not any(y.k == "TOP" for y in subterms(v)) else None
        if dtype is not None and not mentions(v, dtype):
            return "does not have the dtype recorded"
        l = lossy(v)
        if l:
            return "is converted by %s" % l
        return True
    return m


KINDS = {"csr_matrix", "csc_matrix", "bsr_matrix", "coo_matrix", "array", "masked_array", "MaskedArray", "Quantity", "Angle", "Time", "SkyCoord", "Constant", "Table"}
MA = ("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray", "numpy.ma.core.MaskedArray")
MA_SIG = ("data", "mask", "dtype")
SP = ("args", "shape", "dtype")


def sparse_ok(cls, d, ix, ip, sh):
    inner = want_ctor(("scipy.sparse." + cls,), SP, {"shape": sh})

    def m(v):
        r = inner(v)
        if r is not True:
            return r
        c = ctor(v, ("scipy.sparse." + cls,))
        a = bind(c, SP).get("args")
        if a is None:
            return None
        parts = list(a.a) if a.k in ("TUP", "LST") else None
        if parts is None or len(parts) != 3:
            return None
        for p, x, nm in zip(parts, (d, ix, ip), ("data", "indices", "indptr")):
            if not mentions(p, x):
                return "has %s as its %s" % (pp(p, 3), nm)
        return True
    return m


# hickle 3 ---------------------------------------------------------------------------------------------------
def s(n, c=None):
    return S("stored " + n, c)


def MASK(m):
    """the mask, or one of the nodes holding it, which numpy reads"""
    return Either(m, *[S("node /%sdata_0_mask" % p, "h5py.Dataset") for p in ("", "data_0/", "data_0/'a'/")])


def v3_cases():
    """(name, [(node name, attrs, data)], matcher)"""
    t = lambda *x: {"type": T(*[C(y) for y in x])}
    out = []
    n0, n1 = s("item 0", "numpy.int64"), s("item 1", "numpy.int64")
    t0, t1 = s("text 0", "builtins.str"), s("text 1", "builtins.str")
    b0, b1 = s("bytes 0", "builtins.bytes"), s("bytes 1", "builtins.bytes")
    for c in ("list", "tuple", "set"):
        tag = ("<class '%s'>" % c).encode()
        out.append(("numbers of a " + c, [("data_0", t(tag), T(n0, n1))], want_seq(c, [n0, n1], PASS)))
        out.append(("text of a " + c, [("data_0", dict(t(tag), py3_string_type=T(C(b"<class 'str'>"))), T(mk("ENC", t0, "utf8"), mk("ENC", t1, "utf8")))], want_seq(c, [t0, t1], ("builtins.str",))))
    x = s("value")
    for c in ("int", "float", "bool", "complex"):
        for form in (str, str.encode):
            out.append(("%s (%s)" % (c, form("x").__class__.__name__), [("data_0", dict(t(b"python_dtype"), python_subdtype=C(form("<class '%s'>" % c))), x)],
                        lambda v, c=c: True if v is CL(EXT("builtins." + c), (x,)) or c == "bool" and v in (TRUE, FALSE) else "is %s instead of %s of the value stored" % (pp(v, 3), c) if v.k == "CL" and v.a[0].k == "EXT" or v is x else None))
    out.append(("bytes", [("data_0", t(b"bytes"), T(b0))], want_same(b0, ("builtins.bytes",))))
    out.append(("text (h5py 3)", [("data_0", t(b"string"), T(mk("ENC", t0, "utf8")))], want_same(t0, ("builtins.str",))))
    out.append(("text (h5py 2)", [("data_0", t(b"string"), T(t0))], want_same(t0, ("builtins.str",))))
    out.append(("None", [("data_0", t(b"none"), T(C(0)))], lambda v: True if v is NONE else "is %s instead of None" % pp(v, 3)))
    p = s("pickle", "builtins.bytes")
    out.append(("pickled object", [("data_0", t(b"pickle"), T(p))],
                lambda v: True if v.k == "CL" and v.a[0].k in ("EXT", "AT") and pp(v.a[0]).endswith("loads") and v.a[1] and strip(v.a[1][0], PASS) is p else None))
    a, d = s("array", "numpy.ndarray"), s("dtype", "builtins.str")
    out.append(("numpy scalar", [("data_0", dict(t(b"np_scalar"), np_dtype=d), x)], want_array(x, d)))
    out.append(("dtype", [("data_0", t(b"np_dtype"), T(d))], want_array(d)))
    for tag in (b"ndarray", b"numpy.ndarray"):
        out.append((tag.decode(), [("data_0", t(tag), a)], want_array(a)))
    m = s("mask", "numpy.ndarray")
    out.append(("masked array", [("data_0", t(b"ndarray_masked_data"), a), ("data_0_mask", t(b"ndarray_masked_mask"), m)], want_ctor(MA, MA_SIG, {"data": a, "mask": MASK(m)})))
    mk_ok = want_ctor(MA, MA_SIG, {"data": a, "mask": MASK(m)})
    two = [("data_0", t(b"ndarray_masked_data"), a), ("data_0_mask", t(b"ndarray_masked_mask"), m), ("data_1", t(b"bytes"), T(b0))]
    for c in ("list", "tuple"):
        out.append(("masked array in a " + c, [("data_0", t(("<class '%s'>" % c).encode()), two)], seq_of(c, [mk_ok, want_same(b0, ("builtins.bytes",))])))
    out.append(("masked array in a dict", [("data_0", t(b"<class 'dict'>"), [("'a'", dict(type=T(C(b"dict_item")), key_type=T(C(b"<class 'str'>"))), two[:2])])],
                lambda v: None if v.k != "DCT" or v.a[1] or len(v.a[0]) != 1 else mk_ok(v.a[0][0][1])))
    ix, ip, sh = s("indices", "numpy.ndarray"), s("indptr", "numpy.ndarray"), s("shape", "numpy.ndarray")
    for c in ("csr_matrix", "csc_matrix", "bsr_matrix"):
        g = c.encode()
        out.append((c, [("data_0", t(g), [("data", t(g + b"_data"), a), ("indices", t(g + b"_indices"), ix), ("indptr", t(g + b"_indptr"), ip), ("shape", t(g + b"_shape"), sh)])],
                    sparse_ok(c, a, ix, ip, sh)))
    at = lambda **k: {kk: T(vv) for kk, vv in k.items()}
    u = s("unit", "builtins.bytes")
    for nm, tag, role in (("astropy.units.Quantity", b"astropy_quantity", "value"), ("astropy.coordinates.Angle", b"astropy_angle", "angle")):
        out.append((nm, [("data_0", dict(t(tag), **at(unit=u)), a)], want_ctor((nm,), SPEC[nm][0], {role: a, "unit": u})))
    fmt, sc = s("format", "builtins.str"), s("scale", "builtins.str")
    nm = "astropy.time.Time"
    out.append((nm, [("data_0", dict(t(b"astropy_time"), **at(format=mk("ENC", fmt, "ascii"), scale=mk("ENC", sc, "ascii"))), a)], want_ctor((nm,), SPEC[nm][0], {"val": a, "format": fmt, "scale": sc})))
    nm = "astropy.constants.Constant"
    r = {k: s(k) for k in ("abbrev", "name", "unit", "uncertainty", "reference", "system")}
    out.append((nm, [("data_0", dict(t(b"astropy_constant"), **at(**r)), x)], want_ctor((nm,), SPEC[nm][0], dict(r, value=x))))
    lo, la = s("lon unit"), s("lat unit")
    out.append(("SkyCoord", [("data_0", dict(t(b"astropy_skycoord"), **at(lon_unit=lo, lat_unit=la)), a)], sky(a, lo, la)))
    nm = "astropy.table.Table"
    c0, mt = s("column", "builtins.str"), s("metadata")
    out.append((nm, [("data_0", dict(t(b"astropy_table"), colnames=T(mk("ENC", c0, "ascii")), author=mt), a)], want_ctor((nm,), SPEC[nm][0], {"data": a, "names": c0, "meta": mt})))
    # containers
    for c in ("list", "tuple", "set"):
        for form in ASCLASS:
            out.append(("group " + form % c, [("data_0", t((form % c).encode()), [("data_%d" % k, t(b"bytes"), T(y)) for k, y in enumerate((b0, b1))])], want_seq(c, [b0, b1], ("builtins.bytes",))))
    keys = [("'a'", "str", C("a")), ("3", "int", C(3)), ("2.5", "float", C(2.5)), ("1j", "complex", C(1j)), ("(1, 2)", "tuple", T(C(1), C(2))), ("True", "bool", TRUE), ("False", "bool", FALSE), ("'\u00fc'", "str", C("\u00fc")), ("-7", "int", C(-7))]
    for form in ASCLASS:
        kids = [(k, dict(type=T(C(b"dict_item")), key_type=T(C((form % ty).encode()))), [("data_0", t(b"bytes"), T(s("value of " + k, "builtins.bytes")))]) for k, ty, _ in keys]
        out.append(("dict, keys " + form, [("data_0", t(b"<class 'dict'>"), kids)], dict_ok({kc: s("value of " + k, "builtins.bytes") for k, ty, kc in keys})))
    return out


def sky(a, lo, la):
    def m(v):
        c = ctor(v, ("astropy.coordinates.SkyCoord",))
        if c is None:
            return None
        un = dict(c.a[2]).get("unit")
        if len(c.a[1]) < 2 or un is None or un.k not in ("TUP", "LST") or len(un.a) != 2:
            return None
        for t, k in zip(c.a[1], (0, 1)):
            ix = [y.a[1] for y in subterms(t) if y.k == "IX" and y.a[0] is a]
            if not mentions(t, a) or not ix:
                return None
            j = ix[0]
            j = j.a[-1] if isinstance(j, Node) and j.k == "TUP" and j.a else j
            if not is_c(j):
                return None
            if cval(j) not in (k, k - 2):
                return "takes its %s from column %r" % (("longitude", "latitude")[k], cval(j))
        for t, x, k in zip(un.a, (lo, la), ("longitude", "latitude")):
            if not mentions(t, x):
                return "does not have the unit of the %s stored" % k
        return True
    return m


def dict_ok(want):
    def m(v):
        if v.k != "DCT" or v.a[1]:
            return None
        got = {k: strip(x, {"builtins.bytes"}) for k, x in v.a[0]}
        for k, x in want.items():
            if k not in got:
                near = [g for g in got if not is_c(g) and g.k != "TUP" and not (g.k == "AT" and g.a[1] in ("real", "imag"))]
                if near:
                    return None
                return "has no key %s (%s)" % (pp(k), ", ".join(pp(g) for g in got))
            if type(cval(k) if is_c(k) else 0) is not type(cval([g for g in got if g is k][0]) if is_c(k) else 0):
                return "has the key %s as another type" % pp(k)
            if got[k] is not x:
                return "has %s under the key %s" % (pp(got[k], 3), pp(k)) if not any(y.k == "TOP" for y in subterms(got[k])) else None
        return True
    return m


def lay(nodes, parent, spec):
    for name, attrs, content in spec:
        if isinstance(content, list):
            lay(nodes, nodes.add(parent, name, attrs), content)
        else:
            nodes.add(parent, name, attrs, content)


def check_v3(rep):
    i0 = interp()
    load = find(i0, "hickle.legacy_v3.hickle", "load")
    for name, spec, match in v3_cases():
        subj = "hickle 3: " + name
        with rep.guard("C23.v3", subj):
            i = interp()
            i.keep_fact = None
            i.max_rec, i.MAXDEPTH = 5, 40
            i.mark_inject = lambda e: True
            i.raises = lambda *a: ()
            i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.legacy_v3")
            nodes = Nodes()
            root = nodes.add(None, "", {"type": T(C(b"hickle"))})
            lay(nodes, root, spec)
            nodes.names[FILE], nodes.attrs[FILE], nodes.kids[FILE], nodes.parents[FILE] = "/", {"CLASS": C("hickle"), "VERSION": C("3.4.9"), "type": T(C(b"hickle"))}, nodes.kids[root], None
            nodes.install(i)
            outs = run(i, load, [FILE, C("/")])
            rep.use(i)
            judge(rep, "C23.v3", subj, i, outs, match, fn_loc(load))


def hypothetical(st):
    return any(e.op in ("callx", "inject") for e in st.events())


def judge(rep, rule, subj, i, outs, match, loc):
    good, n = True, 0
    for k, v, st in outs:
        rep.paths += 1
        if hypothetical(st):
            continue       # an operation that does not fail on a file laid out as described
        if k == "X":
            good = False
            if v.k == "EXC" and not any(y.k in ("TOP", "XANY") for y in subterms(v)):
                rep.bad(rule, subj, "loading raises %s" % pp(v, 3), loc, trace(st, ops=("call",)))
            else:
                rep.unknown(rule, subj, "loading may raise")
            continue
        n += 1
        fz = i.freeze(v, st, 12)
        r = match(fz)
        if r is not True and any(y.k == "S" and str(y.a[0]).startswith("node ") for y in subterms(fz)):
            r = None       # what is read from the node by other means than those modelled
        if r is True:
            continue
        good = False
        if r is None:
            rep.unknown(rule, subj, "result %s not understood" % pp(i.freeze(v, st), 5))
        else:
            rep.bad(rule, subj, "the object loaded %s" % r, loc, trace(st, ops=("call",)))
    if good and n:
        rep.ok(rule, subj)
    elif good:
        rep.unknown(rule, subj, "no path")


def check_v4(rep):
    i = interp()
    t = tables(i)

    def get(tab, tag):
        for o in ("hickle-4.x", None):
            if tag in tab.get(o, {}):
                return tab[o][tag]
        raise Broken("no reader for %r" % tag)

    def make():
        i2 = interp()
        i2.keep_fact = None
        i2.mark_inject = lambda e: True
        i2.raises = lambda *a: ()
        i2.inline = lambda fi, st, ctx: fi.module.startswith("hickle")
        nodes = Nodes()
        nodes.names[FILE], nodes.attrs[FILE], nodes.kids[FILE], nodes.parents[FILE] = "/", {}, {}, None
        return i2, nodes
    a, m, t0, t1 = s("array", "numpy.ndarray"), s("mask", "numpy.ndarray"), s("text 0", "builtins.str"), s("text 1", "builtins.str")
    subj = "hickle 4.0: masked array"
    with rep.guard("C23.v4", subj):
        fn = get(t.load, b"ndarray_masked_data")
        i2, nodes = make()
        d = nodes.add(FILE, "data", {"np_dtype": s("dtype")}, a)
        k = nodes.add(FILE, "data_mask", {}, m)
        nodes.install(i2)
        outs = run(i2, fn, [d, C(b"ndarray_masked_data"), EXT("numpy.ma.core.MaskedArray")])
        rep.use(i2)
        judge(rep, "C23.v4", subj, i2, [(x, v, st) for x, v, st in outs], want_ctor(MA, MA_SIG, {"data": a, "mask": either(k, m)}), fn_loc(fn))
    for form, content in (("text", t0), ("bytes", mk("ENC", t0, "utf8"))):
        subj = "hickle 4.0: text read as " + form
        with rep.guard("C23.v4", subj):
            fn = get(t.load, b"str")
            i2, nodes = make()
            d = nodes.add(FILE, "data", {}, content)
            nodes.props[d, "dtype"] = s("dtype of the dataset")
            nodes.props[s("dtype of the dataset"), "name"] = C("object")
            nodes.install(i2)
            outs = run(i2, fn, [d, C(b"str"), EXT("builtins.str")])
            rep.use(i2)
            judge(rep, "C23.v4", subj, i2, outs, want_same(t0, ("builtins.str",)), fn_loc(fn))
    for c in ("csr_matrix", "csc_matrix", "bsr_matrix"):
        subj = "hickle 4.0: " + c
        with rep.guard("C23.v4", subj):
            sparse4(rep, subj, get(t.cont, c.encode()), c, make)


class Either:
    def __init__(self, *ts):
        self.ts = ts


def either(*ts):
    return Either(*ts)


def sparse4(rep, subj, cont, c, make):
    i, nodes = make()
    first = find(i, "hickle.loaders.load_scipy", "return_first")
    cls = s("pickled class")
    g = nodes.add(FILE, "data", {"type": s("pickled return_first"), "base_type": C(c.encode())})
    for n in ("data", "indices", "indptr", "shape"):
        nodes.add(g, n, {"type": cls if n == "data" else s("pickled class of " + n), "base_type": C(("%s_%s" % (c, n)).encode())}, s(n, "numpy.ndarray"))
    nodes.install(i)
    outs = run(i, cont, [AT(g, "attrs"), C(c.encode()), first])
    good, n = True, 0
    ends = []
    for k, o, st in outs:
        if k == "X" or hypothetical(st):
            continue
        for f, st1 in i.attr(o, "filter", st, top_ctx(i), NOWHERE):
            for k2, gen, st2 in run(i, f, [g], [], st1):
                if k2 != "X":
                    ends += [(o, ys, st3) for k3, ys, st3, _ in run_gen_collect(i, gen, st2) if k3 == "N" and not hypothetical(st3)]
    loc = ("hickle/" + cont.a[0].module.split(".", 1)[1].replace(".", "/") + ".py", 1, cont.a[0].name) if cont.k == "CLS" else None
    for o, ys, st3 in ends:
        rep.paths += 1
        n += 1
        names = [y.a[0] if y.k == "TUP" and len(y.a) == 2 else None for y in ys]
        if all(x is not None and is_c(x) for x in names):
            miss = {"data", "indices", "indptr", "shape"} - {cval(x) for x in names}
            if miss:
                rep.bad("C23.v4", subj, "the %s stored are not loaded" % ", ".join(sorted(miss)), loc)
                good = False
                continue
        ot = dict(st3.obj(o).attrs).get("object_type") if st3.obj(o) is not None else None
        if ot is None:
            rep.unknown("C23.v4", subj, "class of the object not found")
            good = False
        elif not mentions(ot, cls):
            if any(y.k == "TOP" for y in subterms(ot)):
                rep.unknown("C23.v4", subj, "class of the object is %s" % pp(ot, 3))
            else:
                rep.bad("C23.v4", subj, "the object is rebuilt by %s instead of the class recorded with its data" % pp(ot, 3), loc)
            good = False
    rep.use(i)
    if good and n:
        rep.ok("C23.v4", subj)
    elif good:
        rep.unknown("C23.v4", subj, "no path")


def check(rep, tier):
    rep.rule("C23.v3", "an abstract file laid out as hickle 3 wrote it is loaded from the fields holding the constituents")
    check_v3(rep)
    rep.rule("C23.v4", "text, masked arrays and sparse matrices laid out as hickle 4.0 wrote them are loaded from the fields holding the constituents")
    check_v4(rep)
