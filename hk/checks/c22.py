"""Abstract interpretation of the packing decision: the writers of list, tuple and set are interpreted
on sequences of symbolic items of known class with one item of every unpackable class at every
position; no path may create a packed dataset. For numeric items every path that packs must create
a dataset of one element per item with a type that holds all of them and store item k at k."""
from ..handlers import *
from ..npmodel import *

BADC = ["builtins.str", "builtins.bytes", "builtins.NoneType", "builtins.list", "builtins.tuple", "builtins.dict", "builtins.set", "numpy.ndarray",
        "user.Object", "big", "wide", "npwide"]
NUMC = ["builtins.int", "builtins.float", "builtins.bool", "builtins.complex"]


def understood(t, syms):
    """the fact is about things the model describes"""
    for x in subterms(t):
        if x.k == "CL" and any(y in syms or y.k == "DTYPE" for y in subterms(x)):
            f = x.a[0]
            nm = f.a[0] if f.k == "EXT" else f.a[1] if f.k == "AT" else ""
            if nm not in ("builtins.len",):
                return False
        if x.k == "AT" and (x.a[0] in syms or x.a[0].k == "DTYPE") and x.a[1] not in ("__class__", "ndim", "size", "shape"):
            return False
    return True


def sequence(i, kind, classes):
    """initial state and value of a container with items of these classes"""
    st = state(i)
    items, big, wide = [], [], []
    for n, c in enumerate(classes):
        k = "builtins.int" if c in ("big", "wide") else "numpy.int64" if c == "npwide" else c
        x = NONE if c == "builtins.NoneType" else S("item%d" % n, k)
        if x is not NONE:
            st = st.setsym(x, "__class__", EXT(k))
        if c == "big":
            big.append(x)
        if c in ("wide", "npwide"):
            wide.append(x)
        items.append(x)
    if kind == "tuple":
        l = T(*items)
    else:
        l, st = st.alloc(("input", kind), HO(kind, None, (), tuple(items)))
    i.model_call = model_call(big, wide)
    i.model_attr = model_attr
    return l, items, st


def packed(st):
    return [e for e in created(st) if e.key in ("create_dataset", "require_dataset")]


def run_case(rep, row, kind, classes):
    i = interp()
    i.keep_fact = None
    l, items, st = sequence(i, kind, classes)
    outs = run(i, row.create, [l, GRP, NAME], [("", KW)], st)
    rep.paths += len(outs)
    rep.use(i)
    return i, items, outs, l


BITS = {"big": "int > 64 bit", "wide": "int > 53 bit", "npwide": "int64 > 53 bit"}


def label(classes):
    return "[%s]" % ", ".join(BITS[c] if c in BITS else c.split(".")[1] for c in classes)


def shapes(c, n):
    return [[c], [n, c], [c, n], [n, c, n], [n, n, c], [c, c]]


def check(rep, tier):
    rep.rule("C22.item", "a sequence with an item that is not a plain number of at most 64 bit, or with an integer of more than 53 bit next to a floating point number, is never stored as a packed dataset")
    rep.rule("C22.packed", "a packed dataset has one element per item, of a type holding all items, item k at position k")
    i0 = interp()
    todo = [(r, cname(r.cls).split(".")[1]) for r in rows(i0) if cname(r.cls) in ("builtins.list", "builtins.tuple", "builtins.set") and r.create.k == "FN"]
    if not todo:
        raise Broken("no writers for list, tuple, set")
    nums = NUMC
    for row, kind in todo:
        loc = (row.create.a[0].relpath, row.create.a[0].lineno, row.create.a[0].qual)
        for c in BADC:
            if kind == "set" and c in ("builtins.list", "builtins.dict", "builtins.set", "numpy.ndarray"):
                continue
            with rep.guard("C22.item", "%s with %s" % (kind, c)):
                seen = set()
                und = None
                for num in nums if "wide" not in c else ["builtins.float", "builtins.complex"]:
                    for cl in shapes(c, num):
                        if "wide" in c and num not in cl:
                            continue        # integers only: packed without loss
                        i, items, outs, l = run_case(rep, row, kind, cl)
                        for k, v, s in outs:
                            if k == "X" or not packed(s):
                                continue
                            syms = set(items)
                            odd = [t for t in s.facts if not understood(t, syms) and any(x in syms or x.k == "DTYPE" for x in subterms(t))]
                            if odd:
                                und = pp(odd[0], 4)
                                continue
                            e = packed(s)[0]
                            rep.bad("C22.item", "%s containing %s" % (kind, {"big": "an integer beyond 64 bit", "wide": "an integer beyond the precision of floats", "npwide": "a numpy integer beyond the precision of floats"}[c] if c in BITS else c.split(".")[1]),
                                    "a %s %s can be stored as one packed dataset (%s)" % (kind, label(cl), pp(kwmap(e).get("dtype", NONE), 3)), e.loc,
                                    ["%s = %s" % (pp(t, 4), b) for t, b in s.facts.items()])
                            seen.add(c)
                if und:
                    rep.unknown("C22.item", "%s with %s" % (kind, c), "condition not modelled: " + und)
                elif not seen:
                    rep.ok("C22.item", "%s with %s at any position" % (kind, c))
        combos = [[a, b] for a in NUMC for b in NUMC] + [[a] for a in NUMC] + [["builtins.bool", "builtins.int", "builtins.float"], ["builtins.complex", "builtins.int", "builtins.float"],
                 ["numpy.longdouble"], ["numpy.longdouble", "builtins.float"], ["builtins.int", "numpy.longdouble"], ["wide"], ["wide", "builtins.bool"], ["builtins.bool", "builtins.int", "wide"]]
        for cl in combos:
            with rep.guard("C22.packed", "%s %s" % (kind, label(cl))):
                i, items, outs, l = run_case(rep, row, kind, cl)
                good = True
                for k, v, s in outs:
                    if k == "X":
                        continue
                    for e in packed(s):
                        r = check_packed(i, e, items, cl, l, s, kind)
                        if r is None:
                            rep.unknown("C22.packed", "%s %s" % (kind, label(cl)), "form of packing not modelled")
                            good = False
                        elif r:
                            rep.bad("C22.packed", "%s of numbers" % kind, "%s: %s" % (label(cl), r), e.loc)
                            good = False
                if good:
                    rep.ok("C22.packed", "%s %s" % (kind, label(cl)))


def check_packed(i, e, items, cl, l, st, kind):
    kw = kwmap(e)
    shape, dt, data = kw.get("shape"), kw.get("dtype"), kw.get("data")
    need = "bool"
    for c in cl:
        need = promote(need, NAMES["builtins.int" if c == "wide" else c])
    if dt is not None:
        d = as_dt(dt, st)
        if d is None:
            return None
        if d not in RANK or RANK.index(d) < RANK.index(need):
            return "stored as %s" % d
    if data is not None:
        return "" if any(x is l for x in subterms(data)) or all(any(x is y for y in subterms(data)) for x in items) else None
    sh = seq_items(shape, st) if shape is not None else None
    if sh is None:
        return None
    if not (len(sh) == 1 and is_c(sh[0])):
        return None
    if cval(sh[0]) != len(items):
        return "the dataset has %s elements" % cval(sh[0])
    node = None
    for x in st.events():
        if x is e:
            node = x.val
    pos = {}
    for x in st.events():
        if x.op == "setitem" and x.target is node:
            key = x.key if isinstance(x.key, Node) else C(x.key)
            if not is_c(key) or not isinstance(cval(key), int):
                return None
            pos.setdefault(cval(key), []).append(x.val)
    if not pos:
        return "no item is stored" if not any(x.op == "call" and x.target is node for x in st.events()) else None
    if kind == "set" and sorted(pos) == list(range(len(items))):
        return ""
    for n, it in enumerate(items):
        got = pos.get(n)
        if not got:
            return "item %d is not stored" % n
        if not any(y is it for y in subterms(got[-1])):
            return "element %d gets %s" % (n, pp(got[-1], 3))
    if len(pos) != len(items):
        return "elements %s are stored" % sorted(pos)
    return ""
