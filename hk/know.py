"""Knowledge about Python and the libraries hickle uses (never about hickle)."""
import builtins
from .terms import *

# external constants
EXT_CONST = {
    "sys.version_info": T(C(3), C(12), C(3), C("final"), C(0)),
    "h5py.version.version_tuple": T(C(3), C(16), C(0)),
    "h5py.__version__": C("3.16.0"),
    "six.PY2": FALSE, "six.PY3": TRUE,
    "six.string_types": T(EXT("builtins.str")),
    "six.integer_types": T(EXT("builtins.int")),
    "six.text_type": EXT("builtins.str"),
    "six.binary_type": EXT("builtins.bytes"),
    "typing.TYPE_CHECKING": FALSE,
    "sys.flags.optimize": C(0), "sys.flags.debug": C(0), "sys.flags.dev_mode": FALSE, "sys.platform": C("linux"), "os.name": C("posix"), "sys.maxsize": C(2 ** 63 - 1), "sys.byteorder": C("little"),
}

# base classes of external classes
BASES = {
    "h5py.File": ["h5py.Group"],
    "h5py.Group": ["h5py.HLObject"],
    "h5py.Dataset": ["h5py.HLObject"],
    "h5py.HLObject": ["builtins.object"],
    "h5py.Reference": ["builtins.object"],
    "h5py.AttributeManager": ["builtins.object"],
    "pathlib.Path": ["pathlib.PurePath"],
    "pathlib.PurePath": ["builtins.object"],
    "scipy.sparse.csr_matrix": ["scipy.sparse.spmatrix"],
    "scipy.sparse.csc_matrix": ["scipy.sparse.spmatrix"],
    "scipy.sparse.bsr_matrix": ["scipy.sparse.spmatrix"],
    "scipy.sparse.spmatrix": ["builtins.object"],
    "numpy.matrix": ["numpy.ndarray"],
    "numpy.ma.core.MaskedArray": ["numpy.ndarray"],
    "numpy.ndarray": ["builtins.object"],
    "numpy.number": ["numpy.generic"],
    "numpy.generic": ["builtins.object"],
    "numpy.str_": ["builtins.str", "numpy.generic"],
    "numpy.bytes_": ["builtins.bytes", "numpy.generic"],
    "numpy.float64": ["numpy.number", "builtins.float"],
    "numpy.int64": ["numpy.number"], "numpy.longdouble": ["numpy.number"],
    "numpy.dtype": ["builtins.object"],
    "astropy.coordinates.Angle": ["astropy.units.Quantity"],
    "astropy.units.Quantity": ["numpy.ndarray"],
    "astropy.constants.Constant": ["astropy.units.Quantity"],
    "pickle.UnpicklingError": ["pickle.PickleError"],
    "pickle.PicklingError": ["pickle.PickleError"],
    "pickle.PickleError": ["builtins.Exception"],
    "collections.OrderedDict": ["builtins.dict"],
    "collections.defaultdict": ["builtins.dict"],
    "collections.Counter": ["builtins.dict"],
    "collections.ChainMap": ["collections.abc.MutableMapping"],
    "contextlib.ExitStack": ["builtins.object"],
    "io.TextIOWrapper": ["io.IOBase"], "io.BufferedWriter": ["io.IOBase"],
    "io.BufferedReader": ["io.IOBase"], "io.BytesIO": ["io.IOBase"],
    "io.BufferedIOBase": ["io.IOBase"], "io.RawIOBase": ["io.IOBase"],
    "io.IOBase": ["builtins.object"],
    "h5py.Empty": ["builtins.object"],
    "user.FileLike": ["builtins.object"],
    "user.Object": ["builtins.object"],
    "user.Failure": ["builtins.Exception"],
}

_PLAIN = {"str", "bytes", "bytearray", "int", "float", "complex", "bool", "NoneType",
          "tuple", "list", "dict", "set", "frozenset", "memoryview"}
# classes whose instances can never be instances of another one of the list
LAYOUT = ["builtins.str", "builtins.bytes", "builtins.bytearray", "builtins.int", "builtins.float",
          "builtins.complex", "builtins.NoneType", "builtins.tuple", "builtins.list", "builtins.dict",
          "builtins.set", "builtins.frozenset", "builtins.memoryview", "numpy.ndarray", "numpy.dtype",
          "h5py.Group", "h5py.Dataset", "h5py.Reference", "h5py.AttributeManager", "pathlib.PurePath",
          "io.IOBase", "builtins.BaseException", "builtins.type", "types.FunctionType",
          "types.BuiltinFunctionType", "types.MethodType", "h5py.Empty", "user.FileLike", "user.Object"]


def ext_mro(name):
    out, todo = [], [name]
    while todo:
        n = todo.pop(0)
        if n in out:
            continue
        out.append(n)
        if n.startswith("builtins."):
            c = getattr(builtins, n[9:], None)
            if n == "builtins.NoneType":
                c = type(None)
            if isinstance(c, type):
                for b in c.__mro__[1:]:
                    bn = "builtins." + b.__name__
                    if bn not in out:
                        out.append(bn)
                continue
        todo.extend(BASES.get(n, []))
    if "builtins.object" not in out:
        out.append("builtins.object")
    return out


def known_class(name):
    if name in BASES or name in LAYOUT:
        return True
    if name.startswith("builtins."):
        return name in ("builtins.NoneType", "builtins.ellipsis") or isinstance(getattr(builtins, name[9:], None), type)
    return False


def class_mro(c):
    """mro names of a class node (EXT or CLS)"""
    if c.k == "EXT":
        return ext_mro(c.a[0])
    if c.k == "CLS":
        return c.a[0].mro_names()
    return []


def cname(c):
    if c.k == "EXT":
        return c.a[0]
    if c.k == "CLS":
        return c.a[0].fullname
    return None


def issub(a, b):
    """is class a a subclass of b?  True / False / None (unknown)"""
    if a is b:
        return True
    nb = cname(b)
    if nb == "builtins.object":
        return True
    if nb is None or cname(a) is None:
        return None
    m = class_mro(a)
    if nb in m:
        return True
    # unknown external bases?
    for n in m:
        if not (n.startswith("hickle.") or n.startswith("repo:") or known_class(n)):
            return None
    if b.k == "CLS":
        return False
    if a.k == "EXT" and not known_class(nb):
        # e.g. abstract base classes
        return None
    return False


def layout(c):
    m = class_mro(c)
    for n in m:
        if n in LAYOUT:
            return n
    return None


def disjoint(a, b):
    """no object can be an instance of both"""
    la, lb = layout(a), layout(b)
    if la is None or lb is None or la == lb:
        return False
    return lb not in class_mro(a) and la not in class_mro(b)


H5_CHILD = {"get", "create_group", "require_group", "create_dataset", "require_dataset",
            "__getitem__", "create_dataset_like", "create_virtual_dataset"}

STR_METHODS = {"format", "join", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "title",
               "split", "rsplit", "partition", "rpartition", "startswith", "endswith", "encode", "decode",
               "find", "rfind", "index", "count", "isdigit", "splitlines", "zfill", "casefold",
               "removeprefix", "removesuffix", "capitalize", "isidentifier", "ljust", "rjust"}


def kind_of(n, st=None):
    """class node the value is known to be an instance of, or None"""
    k, a = n.k, n.a
    if k == "C":
        v = cval(n)
        return EXT("builtins." + type(v).__name__)
    if k == "TUP":
        return EXT("builtins.tuple")
    if k in ("LST", "LC"):
        return EXT("builtins.list")
    if k == "SET":
        return EXT("builtins.set")
    if k == "DCT":
        return EXT("builtins.dict")
    if k == "MATCH":
        return EXT("re.Match")
    if k == "CAT":
        return EXT("builtins." + a[0])
    if k in ("REPR", "STRF", "DEC"):
        return EXT("builtins.str")
    if k == "ENC":
        return EXT("builtins.bytes")
    if k == "IDX":
        return EXT("builtins.int")
    if k == "S":
        return EXT(a[1]) if a[1] else None
    if k in ("FN",):
        return EXT("types.FunctionType")
    if k == "BM":
        return EXT("types.MethodType")
    if k == "CLS":
        return EXT("builtins.type")
    if k in ("CMP", "NOT", "ISI"):
        return EXT("builtins.bool")
    if k == "OBJ" and st is not None:
        o = st.obj(n)
        if o is not None:
            if o.cls is not None:
                return o.cls
            return {"list": EXT("builtins.list"), "dict": EXT("builtins.dict"), "set": EXT("builtins.set"),
                    "chainmap": EXT("collections.ChainMap"), "gen": EXT("types.GeneratorType"),
                    "h5group": EXT("h5py.Group"), "h5data": EXT("h5py.Dataset")}.get(o.kind)
        return None
    if k == "EXC":
        return a[0]
    if k == "AT":
        if a[1] == "file":
            return EXT("h5py.File")
        if a[1] == "attrs":
            return None
        if a[1] in ("ref", "regionref"):
            return EXT("h5py.Reference")
        if a[1] in ("__name__", "__qualname__", "__module__"):
            return EXT("builtins.str")
        return None
    if k == "CL":
        f = a[0]
        if f.k == "EXT":
            nm = f.a[0]
            if nm in ("h5py.File",):
                return f
            if nm.startswith("builtins.") and nm[9:] in _PLAIN:
                return f
            if nm in ("builtins.repr", "builtins.chr", "builtins.hex"):
                return EXT("builtins.str")
            if nm in ("builtins.len", "builtins.id", "builtins.hash", "builtins.ord"):
                return EXT("builtins.int")
            if nm in ("builtins.sorted",):
                return EXT("builtins.list")
            if nm == "pickle.dumps":
                return EXT("builtins.bytes")
            if nm in ("numpy.array", "numpy.asarray", "numpy.stack"):
                return EXT("numpy.ndarray")
            if nm == "numpy.dtype":
                return EXT("numpy.dtype")
            if nm.endswith(".__new__") and a[1] and a[1][0].k == "CLS":
                return a[1][0]
        if f.k == "AT":
            m = f.a[1]
            if m in ("create_group", "require_group"):
                return EXT("h5py.Group")
            if m in ("create_dataset", "require_dataset"):
                return EXT("h5py.Dataset")
            if m == "decode":
                return EXT("builtins.str")
            if m == "encode":
                return EXT("builtins.bytes")
            if m in ("format", "lower", "upper", "to_string") and m != "to_string":
                return EXT("builtins.str")
            if m == "tolist":
                return None
            if m == "view":
                for c in list(a[1]) + [v for x, v in a[2]]:
                    if isinstance(c, Node) and c.k == "CLS":
                        return c
        if f.k == "CLS":
            return f
    return None


def file_of(n):
    """canonical file handle an h5py value belongs to (None if unknown)"""
    seen = 0
    while seen < 50:
        seen += 1
        k, a = n.k, n.a
        if k == "CL" and a[0].k == "EXT" and a[0].a[0] == "h5py.File":
            return n
        if k == "CL" and a[0].k == "AT" and a[0].a[1] in H5_CHILD:
            n = a[0].a[0]
            continue
        if k == "CL" and a[0].k == "AT" and a[0].a[1] in ("items", "values", "keys"):
            n = a[0].a[0]
            continue
        if k in ("IX", "EL", "VAL"):
            n = a[0]
            continue
        if k == "AT":
            if a[1] in ("file",):
                b = file_of(a[0])
                return b if b is not None else n
            if a[1] in ("parent", "attrs"):
                n = a[0]
                continue
            return None
        if k == "S":
            return None
        return None
    return None


SET_METHODS = {"isdisjoint", "issubset", "issuperset", "intersection", "union", "difference", "symmetric_difference"}


def set_algebra(op, xs, ys):
    """of constant members"""
    if xs is None or ys is None:
        return None
    if op in ("BitAnd", "intersection"):
        return mk("SET", *[x for x in xs if x in ys])
    if op in ("BitOr", "union"):
        return mk("SET", *dict.fromkeys(tuple(xs) + tuple(ys)))
    if op in ("Sub", "difference"):
        return mk("SET", *[x for x in xs if x not in ys])
    if op in ("BitXor", "symmetric_difference"):
        return mk("SET", *([x for x in xs if x not in ys] + [y for y in ys if y not in xs]))
    if op == "isdisjoint":
        return C(not any(x in ys for x in xs))
    if op == "issubset":
        return C(all(x in ys for x in xs))
    if op == "issuperset":
        return C(all(y in xs for y in ys))
