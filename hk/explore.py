"""Exploration of the two entry points dump() and load() shared by several checks."""
from .base import *

E = mk("XANY", "E", None)
B = mk("XANY", "B", None)
KINDS = ["builtins.str", "pathlib.Path", "h5py.File", "h5py.Group", "io.BytesIO", "user.FileLike", "builtins.tuple", "builtins.dict"]
QUIET = {"gc.disable", "gc.enable", "gc.isenabled", "gc.get_threshold"}
FILE = S("file_obj")


def any_raises(i, f, args, kws, st, ctx):
    """every opaque operation may raise an Exception or a bare BaseException"""
    if f.k == "EXT" and f.a[0] in QUIET:
        return ()
    if f.k == "EXT" and f.a[0].startswith("builtins.") and f.a[0][9:] in ("list", "tuple", "dict", "set", "int", "float", "getattr"):
        return (E,)
    return (E, B)


def call_graph_reach(i, names):
    """FuncInfos that transitively mention one of the given identifiers (attribute or name)"""
    import ast
    infos = list(i.fi_by_node.values())
    direct, mention = set(), {}
    for fi in infos:
        ids = set()
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Attribute):
                ids.add(x.attr)
            elif isinstance(x, ast.Name):
                ids.add(x.id)
            elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                ids.add(x.value)
        mention[fi] = ids
        if ids & names:
            direct.add(fi)
    # names resolving to relevant functions / classes
    rel = set(direct)
    while True:
        nm = {fi.name for fi in rel if fi.name not in ("__init__", "__new__", "__exit__", "__enter__", "__getitem__", "__call__")}
        for fi in rel:
            if fi.cls is not None:
                nm.add(fi.cls.name)
        new = {fi for fi in infos if fi not in rel and mention[fi] & nm}
        if not new:
            return rel
        rel |= new


def no_opaque(t):
    return not any(x.k in ("CL", "IX", "EL") for x in subterms(t))


def entry_args(which, kind, mode=None, path=None, kwargs=True, free=False):
    """free: arguments not given are symbolic instead of having their default value"""
    fo = S("file_obj", kind)
    if free:
        path = S("path", "builtins.str") if path is None else path
        mode = S("mode", "builtins.str") if mode is None else mode
    if which == "dump":
        args = [S("py_obj"), fo]
        kws = []
        if mode is not None:
            kws.append(("mode", mode))
        if path is not None:
            kws.append(("path", path))
        if free:
            kws.append(("filename", S("filename")))
        kws.append(("options", S("options", "builtins.dict")))
        if kwargs:
            kws.append(("", mk("STAR", S("kwargs"), frozenset())))
        return fo, args, kws
    kws = []
    if path is not None:
        kws.append(("path", path))
    if free:
        kws += [("filename", S("filename")), ("safe", S("safe", "builtins.bool"))]
    return fo, [fo], kws


def is_from(v, fo):
    """value derived from the caller's file argument without opening a new file"""
    for _ in range(60):
        if v is fo:
            return True
        if v.k == "CL" and v.a[0].k == "EXT":
            if v.a[0].a[0] == "builtins.getattr" and v.a[1]:
                v = v.a[1][0]
                continue
            return False
        if v.k == "CL" and v.a[0].k == "AT":
            v = v.a[0].a[0]
        elif v.k in ("AT", "IX", "EL", "VAL", "KEY"):
            v = v.a[0]
        else:
            return False
    return False
