"""Hash-consed abstract values (provenance terms) used by the analyser.

A value is a Node(kind, args).  Equality is identity.  Kinds:

C    (type name, value)          constant
TUP  (items...)                  immutable tuple
LST / SET (items...)             frozen list / set snapshot
DCT  (((k, v)...), stars)        frozen dict snapshot
EXT  (dotted name)               object of an external module / builtin
MOD  (dotted name)               module of the analysed package
FN   (FuncInfo, frame, defaults, kwdefaults)  function of the analysed package
CLS  (ClassInfo)                 class of the analysed package
BM   (self, FN)                  bound method
OBJ  (allocation site, k)        abstract heap object
S    (name, kind)                symbolic root (an unknown input)
AT   (base, attr)                attribute read of an unknown value
IX   (base, key)                 subscript read of an unknown value
CL   (callee, args, kws)         result of an opaque call
CMP  (op, a, b), NOT (a), ISI(x, class), BIN(op, a, b), UN(op, a)
EL   (iterable)                  the generic element of an unknown iterable
IDX  (iterable, start)           position of the generic element
CAT  ('str'|'bytes', parts)      string concatenation
ENC / DEC (value, codec)         text <-> bytes conversion
REPR (value) / STRF (value)      repr()/str() text of a value
GEN  (elt, iterable, conds)      lazy comprehension over an unknown iterable
XANY (family)                    some exception of that family
EXC  (class node, args, cause)   exception object
TOP  (why)                       unknown
"""

_tab = {}


class Node:
    __slots__ = ("k", "a", "__weakref__")

    def __repr__(self):
        return pp(self)


def mk(k, *a):
    key = (k,) + a
    n = _tab.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.k = k
        n.a = a
        _tab[key] = n
    return n


class _K:
    """wrapper making constants of different types distinct dict keys"""
    __slots__ = ("v", "t")

    def __init__(self, v):
        self.v = v
        self.t = type(v)

    def __eq__(self, o):
        return self.t is o.t and (self.v == o.v or self.v is o.v)

    def __hash__(self):
        return hash((self.t.__name__, self.v))


def C(v):
    return mk("C", _K(v))


def cval(n):
    return n.a[0].v


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(n):
    return n.k == "C"


def T(*items):
    return mk("TUP", *items)


def EXT(name):
    return mk("EXT", ALIAS.get(name, name))


ALIAS = {
    "h5py._hl.files.File": "h5py.File",
    "h5py._hl.group.Group": "h5py.Group",
    "h5py._hl.dataset.Dataset": "h5py.Dataset",
    "h5py.h5r.Reference": "h5py.Reference",
    "h5py._hl.attrs.AttributeManager": "h5py.AttributeManager",
    "h5py.string_dtype": "h5py.string_dtype",
    "numpy.ma.MaskedArray": "numpy.ma.core.MaskedArray",
    "numpy.ma.masked_array": "numpy.ma.core.MaskedArray",
    "numpy.ma.core.array": "numpy.ma.array",
    "numpy.core.multiarray.ndarray": "numpy.ndarray",
    "io.open": "builtins.open",
    "posixpath": "os.path",
    "collections.abc.Mapping": "collections.abc.Mapping",
    "dill.dumps": "pickle.dumps",
    "dill.loads": "pickle.loads",
    "_pickle.loads": "pickle.loads",
    "_pickle.dumps": "pickle.dumps",
    "scipy.sparse.csr.csr_matrix": "scipy.sparse.csr_matrix",
    "types.NoneType": "builtins.NoneType", "types.EllipsisType": "builtins.ellipsis",
}


def S(name, kind=None):
    return mk("S", name, kind)


def AT(b, name):
    return mk("AT", b, name)


def IX(b, key):
    return mk("IX", b, key)


def CL(f, args=(), kws=()):
    return mk("CL", f, tuple(args), tuple(kws))


def TOP(why="?"):
    return mk("TOP", why)


def NOT(a):
    if a.k == "NOT":
        return a.a[0]
    if a.k == "C":
        return C(not cval(a))
    return mk("NOT", a)


def children(n):
    """direct sub-terms"""
    out = []

    def rec(x):
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                rec(y)
    if n.k == "C":
        return out
    for x in n.a:
        rec(x)
    return out


_contains_cache = {}


def subterms(n, _seen=None):
    seen = set() if _seen is None else _seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


def contains(n, sub):
    if n is sub:
        return True
    key = (n, sub)
    r = _contains_cache.get(key)
    if r is None:
        r = sub in subterms(n)
        _contains_cache[key] = r
    return r


def root_of(n):
    """follow AT/IX/method-call receivers down to the root value"""
    while True:
        if n.k in ("AT", "IX", "EL"):
            n = n.a[0]
        elif n.k == "CL" and n.a[0].k == "AT":
            n = n.a[0].a[0]
        else:
            return n


def pp(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ", ".join(pp(x, depth - 1) for x in n) + ")"
        return repr(n)
    if depth <= 0:
        return "…"
    d = depth - 1
    k, a = n.k, n.a
    if k == "C":
        r = repr(cval(n))
        return r if len(r) < 60 else r[:57] + "..."
    if k == "TUP":
        return "(" + ", ".join(pp(x, d) for x in a) + ")"
    if k in ("LST", "SET"):
        o, c = ("[", "]") if k == "LST" else ("{", "}")
        return o + ", ".join(pp(x, d) for x in a) + c
    if k == "DCT":
        parts = [pp(x, d) + ": " + pp(y, d) for x, y in a[0]]
        parts += ["**" + pp(s, d) for s in a[1]]
        return "{" + ", ".join(parts) + "}"
    if k == "STAR":
        return pp(a[0], d) + ("" if not a[1] else " without %s" % sorted(map(str, a[1])))
    if k == "EXT":
        return a[0].replace("builtins.", "")
    if k == "MOD":
        return a[0]
    if k == "FN":
        return a[0].qual
    if k == "CLS":
        return a[0].qual
    if k == "BM":
        return pp(a[0], d) + "." + a[1].a[0].name
    if k == "S":
        return a[0]
    if k == "AT":
        return pp(a[0], d) + "." + a[1]
    if k == "IX":
        return pp(a[0], d) + "[" + pp(a[1], d) + "]"
    if k == "CL":
        args = [pp(x, d) for x in a[1]] + [
            ("%s=%s" % (x, pp(y, d)) if x else "**" + pp(y, d)) for x, y in a[2]]
        return pp(a[0], d) + "(" + ", ".join(args) + ")"
    if k == "CMP":
        return "%s %s %s" % (pp(a[1], d), a[0], pp(a[2], d))
    if k == "NOT":
        return "not " + pp(a[0], d)
    if k == "ISI":
        return "isinstance(%s, %s)" % (pp(a[0], d), pp(a[1], d))
    if k == "OBJ":
        return "<obj %s>" % (a[0],)
    if k == "XANY":
        return "<any %s>" % a[0]
    return k + "(" + ", ".join(pp(x, d) if isinstance(x, Node) else repr(x) if not isinstance(x, tuple) else pp(x, d) for x in a) + ")"
