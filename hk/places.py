"""Where in an HDF5 file a value of the analysed program lies."""
from .terms import *
from .know import *
from .handlers import kwmap, seq_items
from .core import from_loader, manager

ROOT = "<root of the file>"


def comps(p):
    """components of a path given as a constant string, a term, or a concatenation; None: not understood"""
    if is_c(p):
        v = cval(p)
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if not isinstance(v, str):
            return None
        return tuple(x for x in v.split("/") if x not in ("", "."))
    if p.k == "CAT":
        out, cur = [], []
        for x in p.a[1]:
            if is_c(x):
                v = cval(x)
                segs = (v.decode("latin-1") if isinstance(v, bytes) else str(v)).split("/")
                for k, g in enumerate(segs):
                    if k:
                        out.append(cur)
                        cur = []
                    if g:
                        cur = cur + [g]
            elif x.k == "AT" and x.a[1] == "name" or x.k == "CL" and x.a[0].k != "AT":
                return None
            else:
                cur = cur + [x]
        out.append(cur)
        return tuple((c[0] if len(c) == 1 else "".join(c) if all(isinstance(g, str) for g in c) else mk("CAT", "str", tuple(C(g) if isinstance(g, str) else g for g in c)))
                     for c in out if c)
    if p.k == "CL" and p.a[0].k != "AT":
        return None
    return (p,)


def absolute(p):
    if is_c(p):
        v = cval(p)
        return v[:1] in ("/", b"/")
    if p.k == "CAT" and p.a[1] and is_c(p.a[1][0]):
        return str(cval(p.a[1][0]))[:1] == "/"
    return False


def join(base, p):
    c = comps(p)
    if c is None:
        return None
    if absolute(p):
        return base[:1] + c
    return base + c


READ = ("get", "__getitem__", "require_group")
MAKE = ("create_group", "create_dataset", "require_group", "require_dataset", "create_dataset_like", "create_virtual_dataset")


class Places:
    """bases: {term: location}; a location is (file, component, ...)"""
    def __init__(self, bases, nested=True):
        self.bases, self.nested = bases, nested

    def join(self, base, p):
        if p.k == "CAT" and p.a[1] and p.a[1][0].k == "AT" and p.a[1][0].a[1] == "name":
            b = self.at(p.a[1][0].a[0])
            rest = p.a[1][1:]
            if b is None or not rest or not is_c(rest[0]) or str(cval(rest[0]))[:1] != "/":
                return None
            c = comps(mk("CAT", "str", rest)) if len(rest) > 1 else comps(rest[0])
            return b + c if c is not None else None
        return join(base, p)

    def at(self, t):
        b = self.bases.get(t)
        if b is not None:
            return b
        if t.k == "CL":
            f, args, kws = t.a
            kw = dict((k, v) for k, v in kws if k)
            if f is EXT("h5py.File"):
                return (t,)
            if f.k == "AT":
                base, m = f.a
                if m == "__enter__":
                    return self.at(base)
                if m in READ or m in MAKE:
                    b = self.at(base)
                    p = args[0] if args else kw.get("name")
                    if b is None or p is None:
                        return None
                    return self.join(b, p)
                if m in ("items", "values", "__iter__"):
                    return self.at(base)
            if f.k in ("IX", "CL", "AT", "S") and from_loader(f) or f.k == "FN" and len(args) > 2:
                # a writer of the registers: (node, items)
                return None
        if t.k == "IX":
            base, ix = t.a
            if base.k == "AT" and base.a[1] == "attrs":
                return None
            if base.k == "CL" and len(base.a[1]) > 2 and is_c(ix) and cval(ix) == 0:
                f = base.a[0]
                if f.k == "FN" or from_loader(f):
                    g, nm = base.a[1][1], base.a[1][2]
                    b = self.at(g)
                    return self.join(b, nm) if b is not None else None
            b = self.at(base)
            if b is not None and (is_c(ix) and isinstance(cval(ix), (str, bytes)) or not is_c(ix)):
                return self.join(b, ix)
            return None
        if t.k == "AT":
            if t.a[1] == "file":
                b = self.at(t.a[0])
                return b[:1] if b is not None else None
            if t.a[1] == "parent":
                b = self.at(t.a[0])
                return b[:-1] if b is not None and len(b) > 1 else b
            if t.a[1] == "attrs":
                return self.at(t.a[0])
        if t.k in ("VAL", "EL") and self.nested:
            b = self.at(t.a[0])
            return b + (t,) if b is not None else None
        return None

    def writes(self, events):
        """[(event, location or None, text)] of everything that changes the file"""
        out = []
        for e in events:
            if e.target is None or e.op not in ("call", "callx", "setitem", "delitem"):
                continue
            t = e.target
            if e.op in ("setitem", "delitem"):
                if t.k == "OBJ":
                    continue
                if t.k == "AT" and t.a[1] == "attrs":
                    out.append((e, self.at(t.a[0]), "attribute %s" % (pp(e.key, 2) if isinstance(e.key, Node) else e.key)))
                else:
                    l = self.at(t)
                    if l is not None:
                        out.append((e, self.join(l, e.key) if isinstance(e.key, Node) else l, "item"))
            elif e.key in MAKE:
                l = self.at(e.val) if e.op == "call" else None
                if e.op == "callx":
                    b = self.at(t)
                    p = e.args[0] if e.args else kwmap(e).get("name")
                    l = self.join(b, p) if b is not None and p is not None else None
                out.append((e, l, e.key))
            elif e.key in ("update", "create", "modify", "__setitem__", "setdefault") and t.k == "AT" and t.a[1] == "attrs":
                out.append((e, self.at(t.a[0]), "attributes"))
            elif e.key in ("move", "copy", "pop", "clear", "popitem", "__delitem__", "resize", "write_direct", "make_scale", "truncate") and self.at(t) is not None:
                out.append((e, self.at(t), e.key))
            elif e.key is None and len(e.args) > 2 and (from_loader(t) or t.k == "FN" and e.args[0].k not in ("CLS", "EXT") and self.at(e.args[1]) is not None and manager(e.val) is None):
                b = self.at(e.args[1])
                out.append((e, self.join(b, e.args[2]) if b is not None else None, "writer"))
        return out


def show(l):
    return "?" if l is None else "/" + "/".join(x if isinstance(x, str) else pp(x, 3) for x in l[1:])


def beneath(l, top):
    return l[:len(top)] == top
