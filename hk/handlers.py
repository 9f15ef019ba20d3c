"""The loader registers of the current tree and abstract runs of single writers and readers."""
from .base import *
from .explore import call_graph_reach, no_opaque

STORE = {"create_dataset", "create_group", "require_group", "require_dataset", "attrs", "no_compression", "yield", "create_virtual_dataset"}


class Row:
    __slots__ = ("module", "cls", "tag", "create", "load", "container", "memoise", "option", "index")

    def __repr__(self):
        return "%s[%d] %s" % (self.module, self.index, pp(self.tag))


FIELDS = ("cls", "tag", "create", "load", "container", "memoise", "option")
DEFAULTS = (None, None, NONE, NONE, NONE, TRUE, NONE)


def seq_items(v, st):
    if v.k in ("TUP", "LST", "SET"):
        return list(v.a)
    if v.k == "OBJ":
        o = st.obj(v)
        if o is not None and o.kind in ("list", "tuple", "set"):
            return list(o.data)
    return None


def loader_modules(i):
    return sorted(m for m in i.repo.trees if m.startswith("hickle.loaders.load_"))


def rows(i):
    """rows of every class_register of the shipped loader modules"""
    st = state(i)
    out = []
    for m in loader_modules(i):
        f = st.frame(("mod", m)) or {}
        t = f.get("class_register")
        if t is None:
            continue
        for k, r in enumerate(seq_items(t, st) or ()):
            items = seq_items(r, st)
            if items is None or len(items) < 2:
                continue
            row = Row()
            row.module, row.index = m, k
            for n, fl in enumerate(FIELDS):
                setattr(row, fl, items[n] if n < len(items) else DEFAULTS[n])
            out.append(row)
    return out


def excludes(i):
    st = state(i)
    out = []
    for m in loader_modules(i):
        t = (st.frame(("mod", m)) or {}).get("exclude_register")
        if t is None:
            continue
        for r in seq_items(t, st) or ():
            items = seq_items(r, st)
            out.append((m, items[0], items[1] if len(items) > 1 else NONE) if items else (m, r, NONE))
    return out


KW = mk("STAR", S("kwargs"), frozenset())
PY, GRP, NAME = "py_obj", S("h_group", "h5py.Group"), S("name", "builtins.str")


class WPath:
    """one path through a writer: node created, items to store inside it"""
    def __init__(self, node, subs, st):
        self.node, self.subs, self.st = node, subs, st

    @property
    def events(self):
        return self.st.events()


def setup(i, extra=frozenset(), cut=frozenset()):
    reach = call_graph_reach(i, STORE | set(extra))
    i.keep_fact = no_opaque
    i.inline = lambda fi, st, ctx: (fi in reach or fi.is_gen) and fi.fullname not in cut
    return reach


def writer(i, create, cls, kws=KW, st=None, facts=(), named=()):
    """[WPath], [(exc, state)]"""
    st = st if st is not None else state(i)
    for t, v in facts:
        st = st.fact(t, v)
    py = S(PY, cls)
    outs = run(i, create, [py, GRP, NAME], list(named) + ([("", kws)] if kws is not None else []), st)
    paths, excs = [], []
    for k, v, s in outs:
        if k == "X":
            excs.append((v, s))
            continue
        items = seq_items(v, s)
        if items is None or len(items) != 2:
            paths.append(WPath(v, None, s))
            continue
        node, sub = items
        for kk, els, s2, x in run_gen_collect(i, sub, s):
            if kk in ("N", "R", "B"):
                paths.append(WPath(node, els, s2))
            else:
                excs.append((x, s2))
    return paths, excs


def sub_fields(e, st):
    """(name, obj, attrs, kwargs) of an item a writer hands back"""
    it = seq_items(e, st)
    if it is None or len(it) != 4:
        return None
    return it


def dict_of(v, st):
    """constant-key view of a dict value: {key: value} or None"""
    if v.k == "DCT" and not v.a[1]:
        return {cval(k) if is_c(k) else k: x for k, x in v.a[0]}
    if v.k == "OBJ":
        o = st.obj(v)
        if o is not None and o.kind == "dict":
            if o.data[1]:
                return None
            return {cval(k) if is_c(k) else k: x for k, x in o.data[0]}
    return None


CREATORS = ("create_dataset", "create_group", "require_group", "require_dataset")


def created(st):
    return [e for e in st.events() if e.op == "call" and e.key in CREATORS]


def kwmap(e):
    return dict((k, v) for k, v in e.kws if k)


def star(e):
    return [v for k, v in e.kws if not k]


def attrs_written(st, node):
    """{name: (value, event)} written to node.attrs on this path (setitem, update, create); '*': unknown names"""
    out = {}
    base = AT(node, "attrs")
    for e in st.events():
        if e.op == "setitem" and e.target is base:
            out[cval(e.key) if isinstance(e.key, Node) and is_c(e.key) else e.key] = (e.val, e)
        elif e.op == "call" and e.target is base and e.key in ("create", "modify", "__setitem__") and len(e.args) > 1:
            out[cval(e.args[0]) if is_c(e.args[0]) else e.args[0]] = (e.args[1], e)
        elif e.op == "call" and e.target is base and e.key == "update" and e.args:
            d = dict_of(e.args[0], st)
            prs = seq_items(e.args[0], st) if d is None else None
            if prs is not None and all(seq_items(x, st) and len(seq_items(x, st)) == 2 for x in prs):
                d = {(cval(a) if is_c(a) else a): b for a, b in (seq_items(x, st) for x in prs)}
            if d is not None:
                for k, v in d.items():
                    out[k] = (v, e)
            else:
                out["*"] = (e.args[0], e)
    return out
