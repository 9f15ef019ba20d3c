"""Final loader tables: every registration of the shipped modules is interpreted, in the order hickle
performs it, on the tables the core module has after import."""
from .handlers import *

TABLES = ("__py_types__", "__hkl_functions__", "__hkl_container__")


def plain_class_model(*classes):
    """the classes of the registers are ordinary classes: neither functions nor metaclasses"""
    def call(f, args, kws, st, ctx, n):
        if f.k == "EXT" and f.a[0] in ("builtins.isinstance", "builtins.issubclass") and len(args) == 2 and args[0].k == "EXT" and args[0] in classes:
            cs = seq_items(args[1], st) or [args[1]]
            if f.a[0] == "builtins.isinstance":
                bad = {"builtins.type", "builtins.object"}
            else:
                bad = {args[0].a[0], "builtins.object"}
            if all(c.k in ("EXT", "CLS") and cname(c) not in bad for c in cs):
                return [(FALSE, st)]
        return None
    return call


class Tables:
    def __init__(self, i, st):
        self.st = st
        self.types, self.load, self.cont = ({}, {}, {})
        c = find(i, "hickle.lookup", "LoaderManager")
        for n, d in zip(TABLES, (self.types, self.load, self.cont)):
            v, _ = i.class_lookup(c.a[0], n, st)
            if v is None:
                raise Broken("table %s not found" % n)
            for opt, inner in st.obj(v).data[0]:
                o = st.obj(inner)
                d[cval(opt)] = {(cval(k) if is_c(k) else k): x for k, x in o.data[0]}


def register(i, st, name, args):
    c = find(i, "hickle.lookup", "LoaderManager")
    f = i.attr(c, name, st, top_ctx(i), NOWHERE)[0][0]
    return run(i, f, args, [], st)


def tables(i, order=None):
    """Tables after all shipped loader modules were registered"""
    rs = rows(i)
    mods = order or loader_modules(i)
    i.inline = lambda fi, st, ctx: fi.module == "hickle.lookup"
    i.keep_fact = None
    i.keep_event = lambda e: False
    i.model_call = plain_class_model(*[r.cls for r in rs if r.cls.k == "EXT"])
    st = state(i)
    failed = []
    for m in mods:
        for r in rs:
            if r.module != m:
                continue
            outs = register(i, st, "register_class", [r.cls, r.tag, r.create, r.load, r.container, r.memoise, r.option])
            good = [s for k, v, s in outs if k == "R"]
            if len(outs) != 1 or not good:
                failed.append((r, outs))
                if not good:
                    continue
            st = good[0]
        for mm, tag, opt in excludes(i):
            if mm != m:
                continue
            outs = register(i, st, "register_class_exclude", [tag, opt])
            good = [s for k, v, s in outs if k == "R"]
            if len(outs) != 1 or not good:
                failed.append(((mm, tag), outs))
                if not good:
                    continue
            st = good[0]
    i.model_call = None
    i.keep_event = lambda e: True
    t = Tables(i, st)
    t.failed = failed
    return t
