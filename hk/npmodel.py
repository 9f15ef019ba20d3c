"""A small model of numpy dtypes of Python classes, for analyses of code that looks at the class of values."""
import re
from .base import *

NAMES = {"builtins.int": "int64", "builtins.float": "float64", "builtins.complex": "complex128", "builtins.bool": "bool",
         "builtins.str": "str", "builtins.bytes": "bytes", "numpy.longdouble": "float128", "numpy.float128": "float128", "numpy.int64": "int64", "numpy.float64": "float64",
         "numpy.complex128": "complex128", "numpy.bool_": "bool"}
RANK = ["bool", "int64", "float64", "float128", "complex128"]
CHAR = {"bool": ("b", "?", "|b1"), "float128": ("f", "g", "<f16"), "int64": ("i", "l", "<i8"), "float64": ("f", "d", "<f8"), "complex128": ("c", "D", "<c16"),
        "str": ("U", "U", "<U0"), "bytes": ("S", "S", "|S0"), "object": ("O", "O", "|O")}
ABSTRACT = {"numpy.number": "ifc", "numpy.integer": "i", "numpy.signedinteger": "i", "numpy.inexact": "fc", "numpy.floating": "f",
            "numpy.complexfloating": "c", "numpy.bool_": "b", "numpy.character": "US", "numpy.str_": "U", "numpy.bytes_": "S",
            "numpy.object_": "O", "numpy.flexible": "US", "numpy.generic": "bifcUSO"}
INTS = re.compile(r"builtins\.(int|bool)$|numpy\.u?int\d+$")
CONTAINERS = {"builtins.list", "builtins.tuple"}
SIZED = {"builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.str", "builtins.bytes", "numpy.ndarray"}


def DT(name):
    return mk("DTYPE", name)


def cls_of(x, st):
    """exact class name of a value, if known"""
    c = st.sym.get((x, "__class__"))
    if c is not None:
        return cname(c)
    if is_c(x):
        return "builtins." + type(cval(x)).__name__
    return None


def dtype_of_class(c):
    if c is None:
        return None
    if c in NAMES:
        return NAMES[c]
    for b in BASES.get(c, ()):
        if b in NAMES:
            return "object" if b not in ("builtins.str", "builtins.bytes") else NAMES[b]
    return "object"


def promote(a, b):
    if "object" in (a, b):
        return "object"
    if "str" in (a, b):
        return "str"
    if "bytes" in (a, b):
        return "bytes"
    return RANK[max(RANK.index(a), RANK.index(b))]


def as_dt(v, st):
    if v.k == "DTYPE":
        return v.a[0]
    if v.k in ("EXT", "CLS"):
        n = cname(v)
        if n in NAMES:
            return NAMES[n]
        if n in ("builtins.object", "builtins.NoneType", "builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "numpy.ndarray") or n and n.startswith("user."):
            return "object"
    if is_c(v) and cval(v) in ("int", "float", "complex", "bool", "str", "object", "bytes", "int64", "float64"):
        return NAMES.get("builtins." + cval(v), cval(v))
    return None


TOWER = {"numbers.Number": "bifc", "numbers.Complex": "bifc", "numbers.Real": "bif", "numbers.Rational": "bi", "numbers.Integral": "bi"}


def instance(own, c):
    """isinstance(value of exact class own, c); None if not known"""
    if c is None:
        return None
    if c in TOWER:
        return own in NAMES and CHAR[NAMES[own]][0] in TOWER[c] and own != "numpy.bool_"
    if c in ABSTRACT:
        return own.startswith("numpy.") and own in NAMES and CHAR[NAMES[own]][0] in ABSTRACT[c]
    if own == "numpy.complex128" and c == "builtins.complex":
        return True
    if c.startswith(("builtins.", "numpy.")) and known_class(own):
        return issub(EXT(own), EXT(c))
    return None


def model_call(big=(), wide=()):
    """big: symbols standing for integers beyond 64 bit, wide: within 64 bit but beyond the precision of floats"""
    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT":
            name = f.a[0]
            if name == "numpy.dtype" and len(args) == 1:
                d = as_dt(args[0], st)
                return [(DT(d), st.fact(DT(d), True))] if d else None
            if name in ("numpy.result_type", "numpy.promote_types") and args and not kws:
                ds = [as_dt(a, st) if cls_of(a, st) is None else dtype_of_class(cls_of(a, st)) for a in args]
                if all(ds):
                    r = ds[0]
                    for d in ds[1:]:
                        r = promote(r, d)
                    return [(DT(r), st.fact(DT(r), True))]
            if name == "builtins.isinstance" and len(args) == 2 and cls_of(args[0], st):
                cs = list(args[1].a) if args[1].k == "TUP" else [args[1]]
                r = [instance(cls_of(args[0], st), cname(c) if c.k == "EXT" else None) for c in cs]
                if True in r or None not in r:
                    return [(C(True in r), st)]
            if name == "builtins.int" and len(args) == 1 and not kws and INTS.match(cls_of(args[0], st) or ""):
                return [(args[0], st)]
            if name == "numpy.issubdtype" and len(args) == 2 and args[0].k == "DTYPE" and cname(args[1]) in ABSTRACT:
                return [(C(CHAR[args[0].a[0]][0] in ABSTRACT[cname(args[1])]), st)]
            if name in ("numpy.ndim",) and len(args) == 1:
                c = cls_of(args[0], st)
                if c in CONTAINERS:
                    return [(C(1), st), (C(2), st)]
                if c is not None:
                    return [(C(k), st) for k in ((0,) if c != "numpy.ndarray" else (0, 1))]
            if name == "numpy.shape" and len(args) == 1:
                c = cls_of(args[0], st)
                if c is not None and c not in CONTAINERS and c != "numpy.ndarray":
                    return [(T(), st)]
            if name == "numpy.isscalar" and len(args) == 1:
                c = cls_of(args[0], st)
                if c is not None:
                    return [(C(c in NAMES or any(b in NAMES for b in BASES.get(c, ()))), st)]
            if name == "operator.length_hint" and args:
                c = cls_of(args[0], st)
                if c in SIZED:
                    return [(C(k), st) for k in (0, 1, 5)]
                if c is not None:
                    return [(C(0), st)]
        if f.k == "AT" and f.a[1] == "bit_length" and not args:
            c = cls_of(f.a[0], st)
            if f.a[0] in big:
                return [(C(70), st)]
            if f.a[0] in wide:
                return [(C(60), st)]
            if INTS.match(c or ""):
                return [(C(5), st)]
        return None
    return call


def model_attr(b, name, st, ctx, n):
    if b.k == "DTYPE":
        d = b.a[0]
        k, ch, s = CHAR[d]
        if name == "name":
            return [(C(d), st)]
        if name == "kind":
            return [(C(k), st)]
        if name == "char":
            return [(C(ch), st)]
        if name == "str":
            return [(C(s), st)]
        if name == "hasobject":
            return [(C(d == "object"), st)]
        if name == "itemsize":
            return [(C({"bool": 1, "int64": 8, "float64": 8, "float128": 16, "complex128": 16, "object": 8}.get(d, 0)), st)]
        if name == "fields" or name == "metadata":
            return [(NONE, st)]
        if name == "shape":
            return [(T(), st)]
    return None
