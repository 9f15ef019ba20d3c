"""Field-provenance analysis across the file: every abstract path of a writer is composed with the reader (or
container) registered for its tag, the dataset content and attributes being the terms the writer stored.
Each constructor argument of the rebuilt object then is a term over the dumped object, and must be derived
from the constituent the library gives that argument the meaning of, without lossy conversion."""
from ..registry import *
from ..core import fn_loc
from .c04 import node_kind, pick

NODE = S("h_node", "h5py.Dataset")
ATTRS = AT(NODE, "attrs")
GATTRS = S("h_attrs", "h5py.AttributeManager")

# library knowledge: constructor parameters and the constituents they denote -------------------------------
U, V = ("unit",), ("value",)
SPEC = {
    "astropy.units.Quantity": (("value", "unit"), {"value": V, "unit": U}),
    "astropy.coordinates.Angle": (("angle", "unit"), {"angle": V, "unit": U}),
    "astropy.time.Time": (("val", "val2", "format", "scale"), {"val": V, "format": ("format",), "scale": ("scale",)}),
    "astropy.constants.Constant": (("abbrev", "name", "value", "unit", "uncertainty", "reference", "system"),
                                   {"abbrev": ("abbrev",), "name": ("name",), "value": V, "unit": U, "uncertainty": ("uncertainty",), "reference": ("reference",), "system": ("system",)}),
    "astropy.table.Table": (("data", "masked", "names", "dtype", "meta"), {"data": ("as_array", "columns", "_data"), "names": ("colnames", "keys"), "meta": ("meta",)}),
}
ALIAS = {"angle": "value", "val": "value"}
OPTIONAL = {"system", "meta"}
WIDE = {"float64", "f8", "<f8", ">f8", "=f8", "d", "float", "double", "float128", "longdouble", "g", "complex128", "c16", "complex", "complex256", "O", "object", "object_", "str", "U", "bytes", "S", "float_", "complex_"}
ARR = ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray", "numpy.ma.core.MaskedArray", "numpy.matrix", "numpy.asmatrix", "numpy.full", "numpy.ndarray")
LOSSY_CALLS = {"builtins.int", "builtins.round", "numpy.round", "numpy.around", "numpy.rint", "numpy.floor", "numpy.ceil", "numpy.trunc", "numpy.fix", "numpy.real", "numpy.abs", "numpy.absolute", "builtins.abs",
               "numpy.float32", "numpy.float16", "numpy.int64", "numpy.int32", "numpy.int_", "numpy.unique", "numpy.sort", "builtins.sorted", "numpy.flip", "numpy.transpose"}


def prov(t, py, out=None):
    """attribute paths of the dumped object a term is made of: set of tuples"""
    out = set() if out is None else out
    chain, x = [], t
    while True:
        if x is py:
            out.add(tuple(reversed(chain)))
            return out
        if x.k == "AT":
            chain.append(x.a[1])
            x = x.a[0]
        elif x.k == "CL" and x.a[0].k == "AT" and rooted(x.a[0].a[0], py):
            chain.append(x.a[0].a[1])
            x = x.a[0].a[0]
        elif x.k in ("KEY", "VAL", "EL") and rooted(x.a[0], py):
            x = x.a[0]
        else:
            break
    for y in children(t):
        prov(y, py, out)
    return out


def rooted(x, py):
    for _ in range(40):
        if x is py:
            return True
        if x.k == "AT":
            x = x.a[0]
        elif x.k == "CL" and x.a[0].k == "AT":
            x = x.a[0].a[0]
        elif x.k in ("KEY", "VAL", "EL"):
            x = x.a[0]
        else:
            return False


def children(t):
    out = []

    def walk(a):
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, (tuple, frozenset)):
            for b in a:
                walk(b)
    for a in t.a:
        walk(a)
    return out


def dtype_name(v):
    if is_c(v) and isinstance(cval(v), (str, bytes)):
        s = cval(v)
        return s.decode("ascii", "replace") if isinstance(s, bytes) else s
    if v.k == "EXT":
        return v.a[0].split(".")[-1]
    if v.k == "CL" and v.a[0] is EXT("numpy.dtype") and v.a[1]:
        return dtype_name(v.a[1][0])
    return None


def narrow(v):
    n = dtype_name(v)
    if n is None or n in WIDE:
        return None
    return n


def values(t, seen=None):
    """subterms that contribute values (not positions)"""
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for c in ([t.a[1]] if t.k == "AT_POS" else [t.a[0]] if t.k == "IX" else children(t)):
        if isinstance(c, Node):
            yield from values(c, seen)


def text_only(x):
    """the conversion of a piece of a node name"""
    return x.a[0].a[0] == "builtins.int" and any(y.k in ("FMT", "JOIN", "STRF", "FSTR") or y.k == "CL" and y.a[0].k == "AT" and y.a[0].a[1] in ("group", "split", "rsplit", "partition", "removeprefix", "lstrip", "strip", "format") or y.k == "CL" and y.a[0].k == "EXT" and y.a[0].a[0].startswith("re.") for z in x.a[1] for y in subterms(z))


def lossy(t, py=None):
    """first lossy conversion inside a term, as text"""
    for x in values(t):
        if py is not None and x.k == "CL" and not rooted_in(x, py):
            continue
        if x.k == "CL":
            f = x.a[0]
            if f.k == "EXT" and f.a[0] in LOSSY_CALLS and not text_only(x):
                return "%s(...)" % f.a[0]
            if f.k == "AT" and f.a[1] in ("astype", "view") and x.a[1] and narrow(x.a[1][0]) and f.a[1] == "astype":
                return "astype(%s)" % narrow(x.a[1][0])
            if f.k == "AT" and f.a[1] in ("round", "ravel", "flatten", "squeeze", "conj", "conjugate", "clip", "sort"):
                return ".%s()" % f.a[1]
            if f.k == "AT" and f.a[1] in ("to", "to_value") and x.a[1] and is_c(x.a[1][0]):
                return ".%s(%r)" % (f.a[1], cval(x.a[1][0]))
            if f.k == "EXT" and f.a[0] in ARR:
                for k, v in x.a[2]:
                    if k == "dtype" and narrow(v):
                        return "%s(..., dtype=%s)" % (f.a[0], narrow(v))
                if f.a[0] in ARR[:4] and len(x.a[1]) > 1 and narrow(x.a[1][1]):
                    return "%s(..., %s)" % (f.a[0], narrow(x.a[1][1]))
            if f.k == "AT" and f.a[1] in ("encode", "decode"):
                es = [cval(a) for a in list(x.a[1])[1:] + [v for k, v in x.a[2] if k == "errors"] if is_c(a)]
                if any(e in ("ignore", "replace", "backslashreplace", "xmlcharrefreplace", "namereplace") for e in es):
                    return "%s(errors=%r)" % (f.a[1], es[0])
        elif x.k in ("ENC", "DEC") and len(x.a) > 2 and isinstance(x.a[2], Node) and is_c(x.a[2]) and cval(x.a[2]) in ("ignore", "replace"):
            return "errors=%r" % cval(x.a[2])
    return None


class Stored:
    """what one writer path put into the file"""
    def __init__(self, p, kind, ev):
        self.p, self.kind, self.ev = p, kind, ev
        kw = kwmap(ev) if ev is not None else {}
        self.data = kw.get("data")
        self.dtype = kw.get("dtype")
        if ev is not None and self.data is None and len(ev.args) > 3:
            self.data = ev.args[3]
        if ev is not None and self.dtype is None and len(ev.args) > 2:
            self.dtype = ev.args[2]
        self.attrs = {k: v for k, (v, e) in attrs_written(p.st, p.node).items()}
        self.subs = []
        for x in p.subs or ():
            f = sub_fields(x, p.st)
            if f is not None:
                self.subs.append((f[0], f[1]))


def prepare(i):
    setup(i, extra={"dtype", "data"})
    i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.") and "legacy" not in fi.module


def stored(rep, create, clsname):
    i = interp()
    prepare(i)
    paths, excs = writer(i, create, clsname)
    rep.use(i)
    rep.paths += len(paths)
    out = []
    for p in paths:
        k, e = node_kind(p)
        out.append(Stored(p, k, e))
    return out


def as_text(v):
    """h5py hands text attributes back as str, even if bytes were assigned"""
    if v.k == "ENC":
        return v.a[0]
    if v.k == "CL" and v.a[0].k == "AT" and v.a[0].a[1] == "encode":
        return v.a[0].a[0]
    if is_c(v) and isinstance(cval(v), bytes):
        try:
            return C(cval(v).decode("utf8"))
        except UnicodeError:
            return v
    return v


def reader_models(i, w):
    def lookup(key, default, st):
        k = cval(key) if is_c(key) else key
        if k in w.attrs:
            return [(as_text(w.attrs[k]), st)]
        for a in w.attrs:
            if isinstance(a, Node) and a is key:
                return [(as_text(w.attrs[a]), st)]
        if is_c(key) and "*" not in w.attrs:
            return [(default, st)] if default is not None else None
        return None
    is_attrs = lambda b: b is ATTRS or b is GATTRS

    def item(b, idx, st, ctx, n):
        if b is NODE and w.data is not None:
            if idx is T() or idx is C(Ellipsis) or idx.k == "SLICE" and all(x is NONE for x in idx.a):
                return [(w.data, st)]
        if is_attrs(b):
            return lookup(idx, None, st)

    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT" and f.a[0].endswith("AttributeManager.get") and len(args) > 1 and is_attrs(args[0]):
            return lookup(args[1], args[2] if len(args) > 2 else NONE, st)
        if f.k == "AT" and is_attrs(f.a[0]):
            m = f.a[1]
            if m == "get" and args:
                return lookup(args[0], args[1] if len(args) > 1 else NONE, st)
            if m == "__getitem__" and args:
                return lookup(args[0], None, st)
            ks = [(C(k) if isinstance(k, (str, bytes)) else k) for k in w.attrs]
            if "*" in w.attrs:
                return None
            if m == "keys":
                return [(T(*ks), st)]
            if m == "items":
                return [(T(*[T(k, as_text(w.attrs[cval(k) if is_c(k) else k])) for k in ks]), st)]
            if m == "values":
                return [(T(*map(as_text, w.attrs.values())), st)]
        if f.k == "EXT" and f.a[0] in ("builtins.dict",) and args and is_attrs(args[0]) and "*" not in w.attrs:
            items = tuple((C(k) if isinstance(k, (str, bytes)) else k, as_text(v)) for k, v in w.attrs.items())
            o, st = st.alloc(("attrs-copy", ctx.fn.loc(n)), HO("dict", None, (), (items, ())))
            return [(o, st)]

    def fork(t, st):
        x, neg = t, False
        while x.k == "NOT":
            x, neg = x.a[0], not neg
        if x.k == "CMP" and x.a[0] in ("in", "not in") and is_attrs(x.a[2]) and is_c(x.a[1]) and "*" not in w.attrs:
            r = (cval(x.a[1]) in w.attrs) == (x.a[0] == "in")
            return r != neg

    def attr(b, name, st, ctx, n):
        if b is NODE and name == "shape":
            return [(NONE if w.kind == "empty" else S("shape", "builtins.tuple"), st)]
    i.model_item, i.model_call, i.fork_hook, i.model_attr = item, call, fork, attr


def rebuild(rep, w, load, cont, tag, cls):
    """[(value, state)] of reading back what w stored"""
    i = interp()
    i.inline = lambda fi, st, ctx: fi.module.startswith("hickle.")
    i.keep_fact = None
    i.raises = lambda *a: ()
    i.max_outcomes = 4000
    reader_models(i, w)
    st = w.p.st
    out = []
    if w.kind == "group":
        orders = [w.subs, list(reversed(w.subs))]
        for subs in orders:
            for k, obj, s in run(i, cont, [GATTRS, tag, cls], [], st):
                if k != "R":
                    continue
                live = [s]
                for nm, val in subs:
                    nxt = []
                    for s1 in live:
                        f = i.attr(obj, "append", s1, top_ctx(i), NOWHERE)[0][0]
                        nxt += [o[2] for o in run(i, f, [nm, val, S("i_attrs", "h5py.AttributeManager")], [], s1) if o[0] == "R"]
                    live = nxt[:50]
                for s1 in live:
                    f = i.attr(obj, "convert", s1, top_ctx(i), NOWHERE)[0][0]
                    out += [(i.freeze(o[1], o[2]), o[2]) for o in run(i, f, [], [], s1) if o[0] == "R"]
    else:
        out = [(i.freeze(o[1], o[2]), o[2]) for o in run(i, load, [NODE, tag, cls], [], st) if o[0] == "R"]
    rep.use(i)
    rep.paths += len(out)
    return out


def ctor(t, names):
    for x in subterms(t):
        if x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0] in names:
            return x
    return None


def bind(call, sig):
    d = dict(zip(sig, call.a[1]))
    for k, v in call.a[2]:
        if k:
            d[k] = v
    return d


def words(ps):
    return {w for p in ps for w in p}


def check_class(rep, r, load, cont, tag, cls, nm):
    subj = nm
    loc = fn_loc(r.create if hasattr(r, "create") else r)
    ws = stored(rep, r, nm)
    py = S(PY, nm)
    good, n = True, 0

    def bad(rule, construct, msg, w, l=None):
        nonlocal good
        good = False
        rep.bad(rule, "%s: %s" % (subj, construct), msg, l or (w.ev.loc if w.ev is not None else loc), trace(w.p.st))
    for w in ws:
        if w.kind is None:
            rep.unknown("C05.field", subj, "node not resolved")
            continue
        # precision on the way into the file
        for what, t in [("content", w.data)] + [("attribute %s" % (a if isinstance(a, str) else "?"), v) for a, v in w.attrs.items()] + [("item %s" % pp(a, 1), v) for a, v in w.subs]:
            if isinstance(t, Node) and rooted_in(t, py):
                l = lossy(t, py)
                if l:
                    bad("C05.precision", "%s stored through %s" % (what, l), "the writer converts the %s with %s, which loses information" % (what, l), w)
        if w.dtype is not None and w.data is not None and narrow(w.dtype) and w.kind == "dataset":
            bad("C05.precision", "content stored as %s" % narrow(w.dtype), "the writer stores the content with less than double precision (%s)" % narrow(w.dtype), w)
        if w.kind == "group" and (cont is None or cont.k != "CLS") or w.kind != "group" and (load is None or load.k != "FN"):
            continue
        rd = cont if w.kind == "group" else load
        rloc = fn_loc(rd) if rd.k == "FN" else (loc[0], 0, rd.a[0].qual)
        for val, s in rebuild(rep, w, load, cont, tag, cls):
            n += 1
            l = lossy(val, py)
            if l and not any(isinstance(t, Node) and lossy(t, py) for t in [w.data] + list(w.attrs.values()) + [v for _, v in w.subs]):
                bad("C05.precision", "rebuilt through %s" % l, "the reader converts what it read with %s, which loses information" % l, w, rloc)
            for construct, msg in roles_of(nm, val, w, py, s):
                bad("C05.field", construct, msg, w, rloc)
    if good and n:
        rep.ok("C05.field", "%s: %d compositions" % (subj, n))
        rep.ok("C05.precision", subj)
    elif good:
        rep.unknown("C05.field", subj, "no composition of writer and reader")


def rooted_in(t, py):
    return any(x is py for x in subterms(t))


def judge(role, term, want, vocab, py):
    """None if the argument comes from the wanted constituent, else a message; '' if not decided"""
    if term is None:
        return "is not passed to the constructor"
    if is_c(term):
        return "is the constant %r" % (cval(term),)
    ps = prov(term, py)
    w = words(ps)
    others = {o for o, ws in vocab.items() if o != role and set(ws) & w and not set(ws) & set(want)}
    if role in ("value", "val", "angle") and w & DENY:
        return "is taken from %s, another representation of it" % ", ".join(sorted(".".join(p) for p in ps))
    if set(want) & w and not others:
        return None
    if others and not set(want) & w:
        return "is taken from %s (%s)" % ("/".join(sorted(others)), ", ".join(sorted(".".join(p) for p in ps)))
    if others:
        return "mixes %s" % ", ".join(sorted(".".join(p) for p in ps))
    if ps and all(p and p[0] in UNRELATED for p in ps):
        return "is taken from %s" % ", ".join(sorted(".".join(p) for p in ps))
    return ""


# properties of numpy arrays that stand for none of the constituents
UNRELATED = {"fill_value", "size", "ndim", "nbytes", "itemsize", "hardmask", "sharedmask", "baseclass", "flags", "strides"}


DENY = {"jd", "jd1", "jd2", "mjd", "unix", "unix_tai", "cxcsec", "gps", "iso", "isot", "fits", "yday", "byear", "jyear", "decimalyear", "datetime", "ymdhms", "si", "cgs", "degree", "deg", "hour", "radian", "arcsec", "decompose"}


def absent(py, ws, w):
    """the facts of the path say that the constituent is missing (or nothing is known that could tell)"""
    ts = [AT(py, a) for a in ws]
    about = False
    for t, v in w.p.st.facts.items():
        if t in ts and v is False:
            return True
        if t.k == "CMP" and t.a[1] in ts and t.a[2] is NONE and (t.a[0] in ("is", "==")) == bool(v) and t.a[0] in ("is", "==", "is not", "!="):
            return True
        about = about or any(x in ts for x in subterms(t))
    return not about


def roles_of(nm, val, w, py, st):
    if nm in SPEC:
        sig, want = SPEC[nm]
        c = ctor(val, (nm,))
        if c is None:
            return
        d = bind(c, sig)
        for role, ws in want.items():
            t = d.get(role)
            if role in OPTIONAL:
                wrote = any(set(ws) & words(prov(v, py)) for v in w.attrs.values())
                if not wrote:
                    if role != "meta" and not absent(py, ws, w):
                        yield "%s not recorded" % role, "the writer does not record %s on a path on which the dumped object may have one" % role
                    continue
                if role == "meta":
                    if t is None:
                        yield "meta dropped", "the metadata recorded is not passed to the constructor"
                    continue
            m = judge(role, t, ws, want, py)
            if m:
                yield "%s of the rebuilt object" % ALIAS.get(role, role), "%s %s" % (role, m)
        return
    if nm == "astropy.coordinates.SkyCoord":
        c = ctor(val, (nm,))
        if c is None:
            return
        d = bind(c, ("lon", "lat", "unit"))
        lon, lat = d.get("ra", d.get("l", d.get("lon"))), d.get("dec", d.get("b", d.get("lat")))
        unit = d.get("unit")
        us = list(unit.a) if unit is not None and unit.k in ("TUP", "LST") and len(unit.a) == 2 else [None, None] if unit is None else None
        vocab = {"lon": ("lon", "ra"), "lat": ("lat", "dec")}
        for role, t in (("lon", lon), ("lat", lat)):
            m = judge(role, t, vocab[role], vocab, py)
            if m:
                yield "%s of the rebuilt object" % role, "%s %s" % (role, m)
        if us is not None:
            for role, t in zip(("lon", "lat"), us):
                m = judge(role, t, vocab[role], vocab, py)
                if m is None and "unit" not in words(prov(t, py)):
                    m = ""
                if m:
                    yield "unit of %s" % role, "unit of %s %s" % (role, m)
        elif not is_c(unit):
            w_ = words(prov(unit, py))
            if "lon" in w_ and not {"lat", "dec"} & w_ or "lat" in w_ and not {"lon", "ra"} & w_:
                yield "unit of %s" % ("lat" if "lon" in w_ else "lon"), "one unit (%s) is used for both longitude and latitude" % pp(unit, 3)
        return
    if nm.startswith("scipy.sparse."):
        c = ctor(val, (nm,))
        if c is None or not c.a[1]:
            return
        a0 = c.a[1][0]
        d = bind(c, ("arg1", "shape", "dtype", "copy"))
        vocab = {"data": ("data",), "indices": ("indices",), "indptr": ("indptr",), "shape": ("shape",)}
        if a0.k in ("TUP", "LST"):
            if len(a0.a) != 3:
                yield "components", "the matrix is built from %d components instead of data, indices, indptr" % len(a0.a)
            for role, t in zip(("data", "indices", "indptr"), a0.a):
                m = judge(role, t, vocab[role], vocab, py)
                if m:
                    yield "%s of the rebuilt object" % role, "%s %s" % (role, m)
        m = judge("shape", d.get("shape"), ("shape",), vocab, py)
        if m:
            yield "shape of the rebuilt object", "shape %s" % m
        return
    if nm.startswith("numpy.ma."):
        c = ctor(val, ("numpy.ma.array", "numpy.ma.masked_array", "numpy.ma.MaskedArray", "numpy.ma.core.MaskedArray"))
        if c is None:
            return
        cands = [x for x in subterms(val) if x.k == "CL" and x.a[0].k == "EXT" and x.a[0].a[0].startswith("numpy.ma.")]
        vocab = {"data": ("data", "filled"), "mask": ("mask", "_mask")}
        best = None
        for x in cands:
            d = bind(x, ("data", "dtype", "copy", "order", "mask") if x.a[0].a[0] == "numpy.ma.array" else ("data", "mask", "dtype"))
            ms = [m for m in (("data", judge("data", d.get("data"), ("data",), vocab, py)), ("mask", judge("mask", d.get("mask"), ("mask", "_mask"), vocab, py))) if m[1]]
            if best is None or len(ms) < len(best):
                best = ms
        for role, m in best or ():
            yield "%s of the rebuilt object" % role, "%s %s" % (role, m)
        yield from dtype_kept(val, w, py, nm)
        return
    if nm == "numpy.dtype":
        c = ctor(val, ("numpy.dtype",))
        if c is not None and c.a[1] and not ({"str", "descr", "name", "char"} & words(prov(c.a[1][0], py)) or () in prov(c.a[1][0], py)):
            yield "description of the dtype", "numpy.dtype is built from %s" % pp(c.a[1][0], 3)
        elif c is not None and c.a[1] and {"char", "kind", "name", "type"} & words(prov(c.a[1][0], py)) and "str" not in words(prov(c.a[1][0], py)):
            yield "byte order of the dtype", "the dtype is stored by %s, which drops the byte order" % "/".join(sorted(words(prov(c.a[1][0], py))))
        return
    if nm.startswith("numpy."):
        if w.data is not None and w.kind == "dataset" and not rooted_in(val, py):
            yield "values of the rebuilt object", "the result does not depend on the stored values"
        if w.kind == "dataset" and w.data is None:
            return
        yield from dtype_kept(val, w, py, nm)


def dtype_kept(val, w, py, nm):
    if val.k == "TOP":
        return
    seen = []
    for x in subterms(val):
        if x.k == "CL":
            seen += [v for k, v in x.a[2] if k == "dtype"]
            if x.a[0].k == "AT" and x.a[0].a[1] in ("astype", "view") and x.a[1]:
                seen.append(x.a[1][0])
            if x.a[0].k == "AT" and x.a[0].a[1] == "type":
                seen.append(x.a[0].a[0])
            if x.a[0].k == "EXT" and x.a[0].a[0] in ARR and len(x.a[1]) > 1:
                seen.append(x.a[1][1])
    about = [w_ for w_ in (words(prov(v, py)) for v in seen) if "dtype" in w_]
    if about:
        if not nm.startswith(("numpy.generic", "numpy.number")) and all("newbyteorder" in w_ or w_ & {"char", "kind", "name", "type"} and not w_ & {"str", "descr"} for w_ in about):
            yield "byte order of the rebuilt object", "the dtype is recorded through %s, which drops the byte order" % ", ".join(sorted(about[0] & {"newbyteorder", "char", "kind", "name", "type"}))
        return
    if any(not is_c(v) and v.k not in ("EXT",) for v in seen):
        return
    yield "dtype of the rebuilt object", "the recorded dtype is not applied to the values read (%s)" % pp(val, 4)


# attributes the dump recursion adds to a node besides those of its writer
DUMPED = {"type": S("type reference"), "item_index": S("index", "builtins.int"), "key_idx": S("index", "builtins.int"), "key_base_type": C("str")}
METAKEYS = ("note", "name", "unit", "description", "np_dtype", "num_items", "str_type", "colnames", "type", "base_type", "item_index", "key_idx", "key_base_type", "")


def check_meta(rep, create, load, tag, cls, nm):
    """metadata under any name, reserved ones included, comes back unchanged or makes the writer decline"""
    py, val = S(PY, nm), S("metavalue")
    loc = fn_loc(create)
    for key in METAKEYS:
        with rep.guard("C05.meta", repr(key)):
            i = interp()
            prepare(i)
            st = state(i)
            m, st = st.alloc(("input", "meta"), HO("dict", None, (), (((C(key), val),), ())))
            st = st.setsym(py, "meta", m)
            paths, excs = writer(i, create, nm, st=st)
            rep.use(i)
            n, good = 0, True
            for p in paths:
                k, e = node_kind(p)
                w = Stored(p, k, e)
                if w.data is None:
                    continue
                w.attrs = dict(w.attrs, **{k: v for k, v in DUMPED.items() if (k, key) != ("base_type", "base_type")})
                for v, s in rebuild(rep, w, load, None, tag, cls):
                    c = ctor(v, (nm,))
                    if c is None:
                        continue
                    d = bind(c, SPEC[nm][0])
                    meta = d.get("meta")
                    items = meta_items(meta)
                    if meta is not None and items is None:
                        rep.unknown("C05.meta", repr(key), "metadata handed to the constructor not understood: %s" % pp(meta, 4))
                        good = False
                        continue
                    n += 1
                    items = items or {}
                    m = judge("names", d.get("names"), ("colnames", "keys"), {"meta": ("meta",)}, py)
                    msg = None
                    if m:
                        msg = "the column names %s" % m
                    elif items.get(key) is not val:
                        msg = "the entry is %s" % ("dropped" if key not in items else "read back as %s" % pp(items[key], 3))
                    elif set(items) != {key}:
                        msg = "the entries %s are added to it" % ", ".join(sorted(map(str, set(items) - {key})))
                    if msg:
                        good = False
                        rep.bad("C05.meta", "%s: metadata named %r" % (nm, key), "if the metadata has an entry %r, %s" % (key, msg), loc, trace(p.st))
            if good and (n or paths or excs):
                rep.ok("C05.meta", "%s: %r (%d compositions%s)" % (nm, key, n, "" if n else ", declined"))


# constituents the format has no place for: (what, attributes that say so, words of a record of it)
MA = "numpy.ma.core.MaskedArray"
EXTRA = {
    "astropy.table.Table": [("mask", {"masked": TRUE, "has_masked_values": TRUE, "has_masked_columns": TRUE}, {"mask", "_mask", "masked"})],
    "astropy.coordinates.SkyCoord": [("frame", {"frame.name": C("galactic"), "name": C("galactic")}, {"frame", "name", "l", "b", "galactic"}),
                                     ("distance", {"frame.name": C("icrs"), "name": C("icrs"), "data.differentials": T()}, {"distance", "z", "norm"}),
                                     ("velocity", {"frame.name": C("icrs"), "name": C("icrs"), "data.differentials": T(S("differential"))}, {"differentials", "velocity"})],
}
EXTRA["astropy.time.Time"] = [("mask", {"masked": TRUE}, {"mask", "_mask", "masked"})]
COLUMN, CUNIT = S("column", "astropy.table.Column"), S("unit of the column", "astropy.units.Unit")
EXTRA["astropy.table.Table"].append(("units of its columns", {"colnames": T(C("a")), "masked": FALSE, "has_masked_values": FALSE, "has_masked_columns": FALSE}, {"unit", "units"}))
# values a real number has no place for
EXTRA["astropy.units.Quantity"] = [("complex values", {"dtype.kind": C("c"), "dtype.char": C("D"), "dtype.name": C("complex128"), "dtype.str": C("<c16"), "value.dtype.kind": C("c"), "value.dtype.char": C("D"), "value.dtype.name": C("complex128"), "value.dtype.str": C("<c16")}, None)]
REAL = {"float", "float64", "float32", "float16", "float128", "f8", "d", "f4", "f", "longdouble", "double", "<f8", ">f8", "=f8", "g", "f16", "int", "int64", "i8"}
# structured dtypes: the string of the dtype is that of an unstructured block of the same size
FIELDS = T(C("a"), C("b"))
VOID = {"names": FIELDS, "fields": S("fields", "builtins.dict"), "kind": C("V"), "char": C("V"), "name": C("void96"), "str": C("|V12"), "subdtype": NONE, "shape": T(), "itemsize": C(12), "isbuiltin": C(0), "hasobject": FALSE, "num": C(20), "ndim": C(0)}
SUB = dict(VOID, names=NONE, fields=NONE, subdtype=T(EXT("numpy.float64"), T(C(2))), shape=T(C(2)), ndim=C(1))
for _nm in ("numpy.ndarray", "numpy.matrix", MA):
    EXTRA[_nm] = [("fields of the dtype", {"dtype." + k: v for k, v in VOID.items()}, {"descr", "fields", "names"})]
EXTRA[MA].append(("nothing but the masked constant", {}, set()))
EXTRA["numpy.dtype"] = [("fields of the dtype", VOID, {"descr", "fields", "names"}), ("base and shape of the dtype", SUB, {"descr", "subdtype", "shape"})]
UNIT = ("astropy.coordinates.UnitSphericalRepresentation", "astropy.coordinates.representation.UnitSphericalRepresentation")


def check_extra(rep, create, nm):
    """an object with a constituent that is not stored must be declined"""
    py = S(PY, nm)
    loc = fn_loc(create)
    for what, attrs, record in EXTRA[nm]:
        with rep.guard("C05.extra", what):
            i = interp()
            prepare(i)

            def attr(b, name, st, ctx, n):
                for path, v in attrs.items():
                    x, parts = py, path.split(".")
                    for q in parts[:-1]:
                        x = AT(x, q)
                    if b is x and name == parts[-1]:
                        return [(v, st)]
                if "units" in what and (b is COLUMN or b is AT(COLUMN, "info")) and name == "unit":
                    return [(CUNIT, st)]

            def item(b, idx, st, ctx, n):
                if "units" in what and (b is py or b is AT(py, "columns")) and not (idx.k == "SLICE"):
                    return [(COLUMN, st)]

            def call(f, args, kws, st, ctx, n):
                if f.k == "EXT" and f.a[0] in ("numpy.ma.is_masked", "numpy.ma.isMaskedArray", "numpy.ma.isMA", "numpy.ma.isarray") and what == "mask":
                    return [(TRUE, st)]
                if f.k == "AT" and f.a[1] == "as_array" and what == "mask":
                    return [(S("table array", MA), st)]
                if "units" in what:
                    if f.k == "AT" and f.a[1] == "as_array":
                        return [(S("table array", "numpy.ndarray"), st)]
                    if f.k == "AT" and f.a[0] in (py, AT(py, "columns")) and f.a[1] in ("itercols", "values"):
                        return [(T(COLUMN), st)]
                    if f.k == "AT" and f.a[0] in (py, AT(py, "columns")) and f.a[1] in ("keys", "items"):
                        return [(T(T(C("a"), COLUMN)) if f.a[1] == "items" else T(C("a")), st)]
                    if f.k == "EXT" and f.a[0] == "builtins.getattr" and len(args) > 1 and args[0] in (COLUMN, AT(COLUMN, "info")) and args[1] is C("unit"):
                        return [(CUNIT, st)]
                if what == "complex values" and f.k == "EXT" and f.a[0] in ("numpy.iscomplexobj", "numpy.isrealobj") and args:
                    return [(TRUE if f.a[0] == "numpy.iscomplexobj" else FALSE, st)]
                if what == "complex values" and f is EXT("numpy.issubdtype") and len(args) == 2 and args[0] in (AT(py, "dtype"), AT(AT(py, "value"), "dtype")) and args[1].k == "EXT":
                    return [(C(args[1].a[0].split(".")[-1] in ("complexfloating", "inexact", "number", "generic", "complex128")), st)]
                if f is EXT("numpy.dtype") and len(args) == 1 and is_c(args[0]) and cval(args[0]) == "|V12":
                    return [(S("unstructured dtype", "numpy.dtype"), st)]
                if f is EXT("builtins.isinstance") and len(args) == 2:
                    cls = args[1].a if args[1].k == "TUP" else (args[1],)
                    if args[0] is AT(py, "data") and what in ("distance", "velocity"):
                        unit = any(cname(c) in UNIT for c in cls)
                        if unit and what == "distance":
                            return [(FALSE, st)]
                        if unit:
                            return [(TRUE, st)]

            def fork(t, st):
                x, neg = t, False
                while x.k == "NOT":
                    x, neg = x.a[0], not neg
                if x.k == "CMP" and x.a[0] in ("is", "is not", "==", "!="):
                    ab = set(x.a[1:])
                    if "masked constant" in what and py in ab and ab & {EXT("numpy.ma.masked"), EXT("numpy.ma.core.masked")}:
                        return (x.a[0] in ("is", "==")) != neg
                    if S("unstructured dtype", "numpy.dtype") in ab and len(ab) == 2:
                        return (x.a[0] in ("is not", "!=")) != neg
                if x in (S("fields", "builtins.dict"), CUNIT, COLUMN):
                    return not neg
                if x.k == "CMP" and x.a[0] in ("is", "is not", "==", "!=") and CUNIT in x.a[1:] and NONE in x.a[1:]:
                    return (x.a[0] in ("is not", "!=")) != neg
                if x.k == "ISI" and x.a[0] is py and "masked constant" in what and isinstance(x.a[1], Node) and "MaskedConstant" in (cname(x.a[1]) or ""):
                    return not neg
            i.model_attr, i.model_call, i.model_item, i.fork_hook = attr, call, item, fork
            paths, excs = writer(i, create, nm)
            rep.use(i)
            rep.paths += len(paths) + len(excs)
            bad = None
            for p in paths:
                k, e = node_kind(p)
                w = Stored(p, k, e)
                ts = [t for t in [w.data] + list(w.attrs.values()) + [x for _, x in w.subs] if isinstance(t, Node)]
                if record is None:
                    if w.dtype is not None and dtype_name(w.dtype) in REAL:
                        bad = p
                    continue
                if any(x.k == "TOP" for t in ts for x in subterms(t)):
                    continue
                if not any(y.k == "AT" and y.a[1] in record or y is FIELDS and "names" in record or y.k == "CL" and y.a[0] is EXT("pickle.dumps") for t in ts for y in subterms(t)):
                    bad = p
            if bad is not None:
                rep.bad("C05.extra", "%s: %s dropped" % (nm, what), ("an object with %s is stored without it, instead of being declined" if record or record is None else "an object with %s is stored instead of being declined") % what, loc, trace(bad.st))
            else:
                rep.ok("C05.extra", "%s: %s" % (nm, what))


def meta_items(t):
    if t is None or t is NONE:
        return {}
    if t.k == "DCT" and not t.a[1] and all(is_c(k) for k, _ in t.a[0]):
        return {cval(k): v for k, v in t.a[0]}
    return None


def check(rep, tier):
    rep.rule("C05.field", "each constructor argument of the rebuilt object is derived from the constituent of the dumped object it denotes")
    rep.rule("C05.extra", "an object with a constituent that has no place in the file (mask of a table, frame, distance or velocity of a coordinate, units of table columns, mask of a time, fields of a structured dtype) is declined")
    rep.rule("C05.meta", "table metadata under any name is restored unchanged and unmixed with hickle's own attributes, or the writer declines the table")
    rep.rule("C05.precision", "no constituent is converted with loss or stored with less than double precision")
    i = interp()
    T_ = tables(i)
    rep.use(i)
    for opt, types in T_.types.items():
        for cls, entry in types.items():
            it = seq_items(entry, T_.st)
            nm = cname(cls) if isinstance(cls, Node) else None
            if it is None or not nm or not nm.startswith(("numpy.", "scipy.", "astropy.")) or it[0].k != "FN":
                continue
            with rep.guard("C05.field", nm):
                if nm == "astropy.table.Table":
                    check_meta(rep, it[0], pick(T_.load, opt, cval(it[1])), it[1], cls, nm)
                if nm in EXTRA:
                    check_extra(rep, it[0], nm)
                check_class(rep, it[0], pick(T_.load, opt, cval(it[1])), pick(T_.cont, opt, cval(it[1])), it[1], cls, nm)
